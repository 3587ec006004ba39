#!/usr/bin/env python3
"""Development tool: makes and verifies planted bugs. Not used by any check.

seed.py make BUGS.py          write /verif/seeded/<id>/ for each bug described in BUGS.py (list `bugs`)
seed.py verify [ID...]        in scratch copies: applies, builds, tests pass, demo 0/nonzero, which checks catch it
                              (--all-checks: run every check, not only the bug's property)"""
import json, os, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEED_SCRATCH", "/tmp/seedwk")
BASE = "6d80eac"
DEMO = """#!/bin/bash
# exit 0: behaves as it should; nonzero: the property is broken. Run with cwd = the repository.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs"
cp "$HERE/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
succinct = { path = "$REPO" }
byteorder = "1.2"
%(dep)s[workspace]
[profile.dev]
opt-level = 1
[profile.release]
debug-assertions = false
overflow-checks = false
EOT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cd "$T"
cargo build -q --offline %(flag)s || exit 3
timeout 120 "$T/target/%(dir)s/demo"
"""

def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str), errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -99, "timeout"

def copy_repo(dst):
    if os.path.exists(dst): shutil.rmtree(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    sh(["cp", "-a", "/repo", dst])

def make(path):
    ns = {}
    exec(open(path).read(), ns)
    wk = S + "/make"
    for b in ns["bugs"]:
        copy_repo(wk)
        ok = True
        for f, old, new in b["edits"]:
            p = wk + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], "EDIT-MISMATCH", f, t.count(old), repr(old[:60])); ok = False; continue
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        _, d = sh(["git", "diff"], cwd=wk)
        # removed lines must be original
        bad = 0; cur = None; ln = 0; rem = 0
        for l in d.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                rem += 1
                _, bl = sh(["git", "blame", "-s", "-L%d,%d" % (ln, ln), "HEAD", "--", cur], cwd=wk)
                if not bl.startswith("^"+BASE) and not subprocess.run(["git","merge-base","--is-ancestor",bl.split()[0].strip("^"),BASE],cwd=wk).returncode==0:
                    bad += 1
                ln += 1
            elif l.startswith(" "): ln += 1
        if bad or not rem: print(b["id"], "warning: %d of %d removed lines not original" % (bad, rem))
        o = "%s/seeded/%s" % (V, b["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(d)
        rel = b.get("release", False)
        open(o + "/demo.sh", "w").write(DEMO % {"flag": "--release" if rel else "", "dir": "release" if rel else "debug", "dep": b.get("dep", "")})
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        shutil.copy(V + "/tools/demo.lock", o + "/Cargo.lock")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(b["id"], "made")
    shutil.rmtree(wk, ignore_errors=True)

def verify_one(slot, bid, allc, results):
    d = "%s/seeded/%s" % (V, bid)
    meta = json.load(open(d + "/meta.json"))
    wk = "%s/w%d" % (S, slot)
    repo = wk + "/repo"
    r = {}
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=repo + "/target")
    env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
    copy_repo(repo)
    demo = wk + "/demo"
    if os.path.exists(demo): shutil.rmtree(demo)
    shutil.copytree(d, demo)
    r["demo_clean"] = sh(["bash", demo + "/demo.sh"], cwd=repo, timeout=300)[0]
    rc, o = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
    r["apply"] = rc
    rc, o = sh("cargo test --workspace --no-run --offline", cwd=repo, env=env)
    r["build"] = rc
    if rc: r["out"] = o[-600:]
    t = []
    for _ in range(2):
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=repo, env=env, timeout=300)
        t.append(rc)
        if rc: r["failed"] = re.findall(r"^test (\S+).*FAILED", o, re.M)[:5]
    r["tests"] = t
    rc, o = sh(["bash", demo + "/demo.sh"], cwd=repo, timeout=300)
    r["demo_bug"] = rc
    r["demo_out"] = o.strip()[-150:]
    vv = wk + "/verif"
    os.makedirs(vv, exist_ok=True)
    sh("rsync -a --delete --exclude mc/target --exclude seeded --exclude .git --exclude evidence --exclude replays %s/ %s/ || cp -a %s/. %s/" % (V, vv, V, vv))
    os.makedirs(vv + "/evidence", exist_ok=True)
    ct = open(vv + "/mc/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(vv + "/mc/Cargo.toml", "w").write(ct)
    env2 = dict(os.environ)
    env2.pop("MC_TARGET_DIR", None)
    props = [meta["property"]]
    if allc: props = ["C%02d" % i for i in range(1, 31)]
    r["checks"] = {}
    for p in props:
        rc, o = sh(["python3", vv + "/check.py", p], cwd=vv, env=env2, timeout=900)
        hit = re.search(r"VIOLATION property=%s" % p, o) is not None
        r["checks"][p] = (rc, hit)
        if p == meta["property"]:
            r["check_out"] = o.strip()[-400:]
    ok = r["demo_clean"] == 0 and r["apply"] == 0 and r["build"] == 0 and t == [0, 0] and r["demo_bug"] not in (0, 3)
    c = r["checks"].get(meta["property"])
    r["verdict"] = ("VALID" if ok else "INVALID") + " " + ("CAUGHT" if c == (1, True) else "MISSED")
    results[bid] = r
    print("%-28s %s %s | clean=%s bug=%s tests=%s %s" % (bid, meta["property"], r["verdict"], r["demo_clean"], r["demo_bug"], t, r.get("failed", "")), flush=True)
    if not ok: print("    ", r.get("out", ""), r["demo_out"], flush=True)
    if allc: print("     caught by:", " ".join(p for p, x in r["checks"].items() if x == (1, True)), "| odd:", [(p, x) for p, x in r["checks"].items() if x[0] not in (0, 1)], flush=True)
    elif c != (1, True): print("     ", r.get("check_out", "")[-300:], flush=True)

def verify(ids, allc, slots):
    q = queue.Queue(); results = {}
    for i in ids: q.put(i)
    def go(s):
        while True:
            try: b = q.get_nowait()
            except queue.Empty: return
            try: verify_one(s, b, allc, results)
            except Exception as e: print(b, "ERROR", e, flush=True)
    ts = [threading.Thread(target=go, args=(s,)) for s in range(slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
    p = S + "/results.json"
    old = json.load(open(p)) if os.path.exists(p) else {}
    old.update(results)
    json.dump(old, open(p, "w"), indent=1)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1])
    else:
        allc = "--all-checks" in a
        slots = 2
        for x in a:
            if x.startswith("--slots="): slots = int(x[8:])
        ids = [x for x in a[1:] if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
        verify(ids, allc, slots)
