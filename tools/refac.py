#!/usr/bin/env python3
"""Development tool: runs every check against behaviour-preserving rewrites (tools/refactors/*.diff). Not used by any check.

refac.py make NAME EDITS.py   write tools/refactors/NAME.diff
refac.py run [NAME...] [--only=C01,C02]   each rewrite in a scratch copy: must build, pass the tests, and leave every check quiet"""
import os, re, shutil, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import sh, copy_repo, V
S = "/tmp/refwk"
D = V + "/tools/refactors"
if sys.argv[1] == "make":
    ns = {}
    exec(open(sys.argv[3]).read(), ns)
    copy_repo(S + "/make")
    for f, old, new in ns["edits"]:
        p = S + "/make/" + f
        t = open(p).read()
        if t.count(old) != 1: print("MISMATCH", f, t.count(old), repr(old[:70])); continue
        open(p, "w").write(t.replace(old, new))
    open("%s/%s.diff" % (D, sys.argv[2]), "w").write(sh(["git", "diff"], cwd=S + "/make")[1])
    print(sh("cargo test -q --offline 2>&1 | grep -E '^error|test result|FAILED' | head -20", cwd=S + "/make", env=dict(os.environ, CARGO_TARGET_DIR=S + "/make/target", HOME="/root"))[1])
    shutil.rmtree(S + "/make")
else:
    only = [a[7:].split(",") for a in sys.argv if a.startswith("--only=")]
    for n in [a for a in sys.argv[2:] if a[0] != "-"] or sorted(x[:-5] for x in os.listdir(D)):
        repo, vv = S + "/repo", S + "/verif"
        copy_repo(repo)
        print(n, "apply", sh(["git", "apply", "%s/%s.diff" % (D, n)], cwd=repo))
        os.makedirs(vv, exist_ok=True)
        sh("rsync -a --delete --exclude mc/target --exclude seeded --exclude .git --exclude evidence --exclude replays %s/ %s/" % (V, vv))
        os.makedirs(vv + "/evidence", exist_ok=True)
        c = open(vv + "/mc/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % repo)
        open(vv + "/mc/Cargo.toml", "w").write(c)
        bad = []
        for k in range(1, 31):
            p = "C%02d" % k
            if only and p not in only[0]: continue
            rc, o = sh(["python3", vv + "/check.py", p], cwd=vv, timeout=900)
            if rc or "VIOLATION" in o:
                bad.append(p); print(n, p, rc, o.strip()[-700:], flush=True)
        print(n, "alarms:", bad, flush=True)
