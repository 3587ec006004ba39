#!/usr/bin/env python3
"""Development tool: mechanical mutants of /repo's sources (not used by any check).

mutate.py list [FILE...]            prints the mutants
mutate.py run OUT.jsonl [--slots=N] [FILE...]   in scratch copies: each mutant that compiles and passes the
                                    repository's tests is run against the checks of its file until one alarms"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_SCRATCH", "/tmp/mutwk")
MAP = {
 "src/internal/vector_base.rs": "c01 c02 c05 c03 c04 c06 c25",
 "src/bit_vec/bit_vector.rs": "c01 c06 c05 c04 c27 c03 c25 c18",
 "src/int_vec/int_vector.rs": "c02 c04 c05 c06 c27 c03 c08",
 "src/bit_vec/traits.rs": "c08 c01 c07 c04",
 "src/bit_vec/bit_slice.rs": "c07 c04 c08",
 "src/bit_vec/prim.rs": "c08 c04 c17",
 "src/storage.rs": "c09 c10 c30 c01 c02 c04 c07 c05",
 "src/broadword.rs": "c15 c13 c16 c12",
 "src/rank/jacobson.rs": "c11 c16 c17 c25 c26",
 "src/rank/rank9.rs": "c12 c16 c17 c25 c26",
 "src/rank/prim.rs": "c13 c16", "src/rank/traits.rs": "c17 c14 c11",
 "src/select/bin_search.rs": "c14 c17 c25", "src/select/traits.rs": "c14",
 "src/internal/search.rs": "c14", "src/internal/errors.rs": "c19 c22",
 "src/macros.rs": "c17 c28", "src/space_usage.rs": "c25",
 "src/stream/bit_buffer.rs": "c18 c19", "src/stream/traits.rs": "c19 c24 c20",
 "src/coding/unary.rs": "c21 c22 c24 c23", "src/coding/elias.rs": "c21 c22 c24 c23",
 "src/coding/fib.rs": "c21 c22 c24 c23", "src/coding/comma.rs": "c21 c22 c24 c23", "src/coding/trans.rs": "c21 c22 c24 c23",
}
FIRST = set()  # mutants to run before the others
if os.path.exists("/tmp/mut.first"): FIRST = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open("/tmp/mut.first"))}
OPS = [(r"(?<![-=<>!+*/%&|^.])\+(?![=+])", ["-"]), (r"(?<![-=<(,!+*/%&|^.\s])\s-\s", [" + "]), (r" \* ", [" + "]), (r" / ", [" % ", " * "]), (r" % ", [" / "]),
       (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r" \^ ", [" & ", " | "]),
       (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r" <<= ", [" >>= "]), (r" >>= ", [" <<= "]), (r"\|= ", ["&= "]), (r"&= ", ["|= "]),
       (r"\bzero\(\)", ["one()"]), (r"\bone\(\)", ["zero()"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"(?<=[\s(])!(?=[a-z(])", [""]), (r"\.\.(?![=.])(?=[a-z0-9(])", ["..="]),
       (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\bif (?!let)([^{}]+) \{", ["if true {", "if false {"]),
       (r"(?<![\w.#])(\d+)(?![\w.]|_)", ["+1", "-1"]), (r"\b0x[0-9A-Fa-f_]+\b", ["h1"]),
       (r"\b(nbits|nbytes|len|block_len|bit_len|lg_nbits|element_bits|limit)\(\)", ["\\g<0> + 1", "\\g<0> - 1"])]

def lines_of(f):
    t = open("/repo/" + f).read().split("\n")
    res, skip = [], None
    i = 0
    for i, l in enumerate(t):
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"\s*mod test", l): break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("extern") or s.startswith("pub use") or s.startswith("mod "): continue
        res.append((i, l))
    return t, res

def mutants(f):
    t, ls = lines_of(f)
    out = []
    for i, l in ls:
        code = l.split("//")[0].rstrip()
        sig = re.match(r"\s*(pub )?(fn|impl|trait|struct|type|where|enum)\b", code)
        new = set()
        if not sig:
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        if r in ("+1", "-1"):
                            v = int(m.group(1)) + int(r)
                            if v < 0: continue
                            rep = str(v)
                        elif r == "h1":
                            s = m.group(0); rep = s[:-1] + ("0" if s[-1] != "0" else "1")
                        elif "\\g" in r: rep = "(" + m.group(0) + r[5:] + ")" if False else m.group(0) + r[5:]
                        else: rep = r
                        new.add(code[:m.start()] + rep + code[m.end():])
            s = code.strip()
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("}") and not s.startswith("return") and s.count("(") == s.count(")") and not s.startswith("type"):
                new.add("")
            if s.startswith("return") : new.add("")
        for n in sorted(new):
            if n != code: out.append((f, i, n))
    return out

def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str), errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"

def slot(n, q, out, lock):
    wk = "%s/s%d" % (S, n); repo = wk + "/repo"; mc = wk + "/mc"
    os.makedirs(wk, exist_ok=True)
    if os.path.exists(repo): shutil.rmtree(repo)
    sh(["cp", "-a", "/repo", repo])
    sh("rsync -a --exclude target --exclude target-out %s/mc/ %s/" % (V, mc))
    c = open(mc + "/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(mc + "/Cargo.toml", "w").write(c)
    e1 = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_BUILD_JOBS="2",
              CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=repo + "/target", RUST_BACKTRACE="0")
    e1["PATH"] = "/root/.cargo/bin:" + e1["PATH"]
    e2 = dict(e1, CARGO_TARGET_DIR=wk + "/target", CARGO_INCREMENTAL="0")
    e2.pop("CARGO_PROFILE_DEV_DEBUG")
    while True:
        try: f, i, new = q.get_nowait()
        except queue.Empty: return
        orig = open("/repo/" + f).read()
        ls = orig.split("\n"); old = ls[i]; ls[i] = new
        open(repo + "/" + f, "w").write("\n".join(ls))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, o = sh("cargo test -q --lib --offline --no-run", cwd=repo, env=e1, timeout=200)
        if rc: r["v"] = "nobuild"
        else:
            rc, o = sh("timeout 40 cargo test -q --workspace --offline -- --test-threads 4", cwd=repo, env=e1, timeout=120)
            if rc: r["v"] = "tests"
            else:
                r["v"] = "SURVIVED"
                for p in ("checked", "release"):
                    for b in MAP[f].split():
                        rc, o = sh(["cargo", "build", "--offline", "-q", "--profile", p, "--bin", b], cwd=mc, env=e2)
                        if rc: r["v"] = "mcbuild"; r["o"] = o[-300:]; break
                        rc, o = sh(["%s/target/%s/%s" % (wk, p, b), "--out", wk + "/o.json", "--threads", "3", "--hang", "60"], cwd=mc, env=e2, timeout=600)
                        if rc:
                            r["v"] = "caught"; r["by"] = "%s %s %s" % (b, p, rc); break
                    if r["v"] != "SURVIVED": break
        open(repo + "/" + f, "w").write(orig)
        with lock:
            out.write(json.dumps(r) + "\n"); out.flush()

if __name__ == "__main__":
    a = sys.argv[1:]
    files = [x for x in a[1:] if x.startswith("src/")] or sorted(MAP)
    ms = [m for f in files for m in mutants(f)]
    if a[0] == "run": ms.sort(key=lambda m: ((m[0], m[1] + 1, m[2].strip()) not in FIRST, hashlib.md5(repr(m).encode()).digest()))
    if a[0] == "list":
        for m in ms: print(m[0], m[1] + 1, m[2].strip())
        print(len(ms))
    else:
        done = set()
        if os.path.exists(a[1]):
            for l in open(a[1]):
                d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
        n = 3
        for x in a:
            if x.startswith("--slots="): n = int(x[8:])
        q = queue.Queue(); lock = threading.Lock()
        for m in ms:
            if (m[0], m[1] + 1, m[2].strip()) not in done: q.put(m)
        print(q.qsize(), "mutants", flush=True)
        with open(a[1], "a") as out:
            ts = [threading.Thread(target=slot, args=(k, q, out, lock)) for k in range(n)]
            [t.start() for t in ts]; [t.join() for t in ts]
        print("finished")
