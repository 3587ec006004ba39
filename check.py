#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only JOB] : builds and runs one property's explorer against /repo.

exit 0 held on everything explored; exit 1 + VIOLATION line; exit 2 error of the check itself."""
import json, os, re, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
TARGET = os.environ.get("MC_TARGET_DIR") or os.path.join(MC, "target")
PROFILES = ["release", "checked"]
EXIT_MEMORY, EXIT_HANG = 97, 98

META = json.load(open(os.path.join(HERE, "tools", "meta.json")))


def env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER",
                 "CARGO_BUILD_TARGET", "RUSTC", "RUSTDOCFLAGS", "CARGO_INCREMENTAL", "RUSTC_WORKSPACE_WRAPPER"))}
    e.setdefault("HOME", "/root")
    home = e.get("CARGO_HOME") or os.path.join(e["HOME"], ".cargo")
    e["PATH"] = ":".join([os.path.join(home, "bin"), "/root/.cargo/bin", e.get("PATH", ""),
                          "/usr/local/bin", "/usr/bin", "/bin"])
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def build(profile, bins):
    cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile, "-q"]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=MC, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_all(bins):
    res = {}

    def go(pr):
        res[pr] = build(pr, bins)
    ts = [threading.Thread(target=go, args=(p,)) for p in PROFILES]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for p in PROFILES:
        rc, out = res[p]
        if rc != 0:
            print("BUILD-ERROR profile=%s\n%s" % (p, out[-6000:]))
            sys.exit(2)


def exe(profile, prop):
    return os.path.join(TARGET, profile, prop.lower())


def run(profile, prop, tier, out, extra=(), limit=None):
    cmd = [exe(profile, prop), "--tier", tier, "--out", out] + list(extra)
    p = subprocess.Popen(cmd, cwd=MC, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, _ = p.communicate()
        return -999, o
    return p.returncode, o


def known():
    """lines 'known: property=Cxx key=<key> <text>' (fixed: lines suppress nothing)"""
    res = {}
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return res


def locate_crash(profile, prop, tier, rc, tmp, extra):
    """A run ended abnormally: the jobs then running are candidates; confirm that one of them alone ends abnormally."""
    jobs = []
    d = os.path.dirname(tmp)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(tmp) + ".progress."):
            j = open(os.path.join(d, f)).read()
            if j not in jobs:
                jobs.append(j)
    found, infos = [], []

    def one(i, j):
        rc2, o2 = run(profile, prop, tier, "%s.only%d" % (tmp, i),
                      ["--threads", "1", "--hang", "60", "--only", j], limit=250)
        infos.append((j, rc2))
        if rc2 < 0 or rc2 in (EXIT_MEMORY, EXIT_HANG):
            # a job that is merely slow alone (-999) is no evidence
            if rc2 != -999:
                found.append((i, j, rc2, o2))
        elif rc2 == 1:
            found.append((i, j, rc2, o2))
    # memory runaways one after another, the rest together
    if rc == EXIT_MEMORY:
        for i, j in enumerate(jobs):
            one(i, j)
            if found:
                break
    else:
        ts = [threading.Thread(target=one, args=x) for x in enumerate(jobs)]
        [x.start() for x in ts]
        [x.join() for x in ts]
    if not found:
        return None, "ending %d did not recur in any of its jobs alone: %s" % (rc, infos)
    i, j, rc2, o2 = sorted(found)[0]
    return j, "(alone: ending %d) %s" % (rc2, o2)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        build_all(sorted(f[:-3] for f in os.listdir(os.path.join(MC, "src", "bin")) if f.endswith(".rs")))
        print("built")
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    extra = []
    if "--only" in a:
        extra = ["--only", a[a.index("--only") + 1]]
    t0 = time.time()
    build_all([prop.lower()])
    tb = time.time() - t0
    outdir = os.path.join(MC, "target-out")
    os.makedirs(outdir, exist_ok=True)
    results, fails, logs = {}, [], []
    limit = 800 if tier == "quick" else 6 * 3600
    for pr in PROFILES:
        out = os.path.join(outdir, "%s.%s.json" % (prop, pr))
        try:
            os.remove(out)
        except OSError:
            pass
        for f in os.listdir(outdir):
            if f.startswith("%s.%s.json." % (prop, pr)):
                os.remove(os.path.join(outdir, f))
        rc, o = run(pr, prop, tier, out, list(extra) + ["--progress", out + ".progress"], limit)
        if rc in (0, 1):
            try:
                results[pr] = json.load(open(out))
            except (OSError, ValueError) as e:
                print("CHECK-ERROR profile=%s: no result file (%s)\n%s" % (pr, e, o[-3000:]))
                return 2
            for f in results[pr]["failures"]:
                fails.append((pr, f["job"], f["key"], f["what"]))
            if rc == 1 and not results[pr]["failures"]:
                print("CHECK-ERROR profile=%s: exit 1 without failures\n%s" % (pr, o[-3000:]))
                return 2
        elif rc in (EXIT_MEMORY, EXIT_HANG) or (rc < 0 and rc != -999 and -rc in (
                signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)):
            job, info = locate_crash(pr, prop, tier, rc, out, extra)
            if job is None:
                print("CHECK-ERROR profile=%s: %s\n%s" % (pr, info, o[-3000:]))
                return 2
            what = {EXIT_MEMORY: "memory runaway (over 12 GB live)", EXIT_HANG: "no progress for 100 s (hang)"}.get(
                rc, "process ended by signal %d" % -rc)
            fails.append((pr, job, "crash:%s" % job, what + "\n" + info[-1500:]))
            break
        else:
            print("CHECK-ERROR profile=%s: exit %s\n%s" % (pr, rc, o[-4000:]))
            return 2
    kn = known()
    new = []
    for f in fails:
        if (prop, f[2]) in kn:
            print("KNOWN-FINDING: property=%s %s [%s] (%s)" % (prop, f[2], f[0], kn[(prop, f[2])]))
        else:
            new.append(f)
    meta = META[prop]

    def top(k):
        # both builds explore the same space: count it once
        return max([r.get(k, 0) for r in results.values()] or [0])
    first = results.get("release") or results.get("checked") or {}
    cov = {}
    if meta["level"] == "model_checking":
        cov.update({"states": top("states"), "transitions": top("transitions"),
                    "traces_validated_against_impl": top("traces")})
    else:
        cov.update({"evaluations": top("evaluations"), "distinct_nontrivial": top("distinct_nontrivial")})
    cov.update({
        "rule": first.get("rule", ""), "samples": first.get("samples", []),
        "bounds": first.get("bounds", []),
        "outcomes": {p: r.get("outcomes", {}) for p, r in results.items() if r.get("outcomes")},
        "exhaustive": bool(results) and len(results) == len(PROFILES) and not extra and not fails and all(
            r.get("jobs") == r.get("jobs_done") for r in results.values()),
        "per_profile": {p: {k: r.get(k) for k in ("jobs", "jobs_done", "wall_s", "slowest_jobs")}
                        for p, r in results.items()},
        "builds": "release (no overflow checks, no debug assertions) and checked (both on), each run in full; "
                  "counts are of one build",
        "build_s": round(tb, 1),
    })
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or "1"),
          "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not extra:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, (pr, job, key, what) in enumerate(new[:10]):
            rel = "replays/%s-%s-%d.json" % (prop, pr, i)
            with open(os.path.join(HERE, rel), "w") as fh:
                json.dump({"property": prop, "profile": pr, "job": job, "key": key, "counterexample": what,
                           "replay": "cd mc && CARGO_TARGET_DIR=target cargo run --offline --profile %s --bin %s -- "
                                     "--tier %s --only '%s'" % (pr, prop.lower(), tier, job)}, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rel))
            print("  [%s] job=%s key=%s\n  %s" % (pr, job, key, what[:1500]))
        return 1
    print("%s held: %s in %.1f s (build %.1f s)" % (prop, ", ".join("%s %s" % (cov[k], k) for k in (
        "states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial") if k in cov),
        ev["wall_s"], tb))
    return 0


if __name__ == "__main__":
    sys.exit(main())
