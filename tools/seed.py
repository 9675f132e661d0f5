#!/usr/bin/env python3
"""seed.py DIR...: DIR holds edit.py-style spec 'spec.json'?  No: see below.
usage: seed.py new ID   -- takes the uncommitted diff of /repo as the planted bug ID: writes
                           seeded/ID/patch.diff (demo.c, demo.sh, meta.json must be there or are templated)
       seed.py verify ID... -- patch applies, builds, passes the stable tests, demo 0 without / nonzero with
       seed.py check ID... [--seed N] -- run the property's quick check with the patch applied (expects VIOLATION)
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -D_GNU_SOURCE -fsanitize=address -g -w -I"$PWD/include" "$d/demo.c" -o "$t/demo" \\
	-L"$PWD/_build" -lecoli -ledit -lyaml -Wl,-rpath,"$PWD/_build" || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def restore():
    sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
def demo(d): return sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    if cmd == "new":
        d = V + "/seeded/" + ids[0]; os.makedirs(d, exist_ok=True)
        p = sh("git -C /repo diff").stdout
        assert p
        open(d + "/patch.diff", "w").write(p)
        if not os.path.exists(d + "/demo.sh"): open(d + "/demo.sh", "w").write(DEMO)
        cmd = "verify"
        sh("git -C /repo checkout -- .")
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "dirty /repo"
    for i in ids:
        d = V + "/seeded/" + i
        if cmd == "verify":
            sh("bash /opt/vp/build.sh")
            a = demo(d)
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            res = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            st = base.get("stable") or base.get("passed")
            st = st if isinstance(st, list) else list(st)
            miss = [n for n in st if n not in res["passed"]]
            x = demo(d)
            restore()
            ok = a.returncode == 0 and x.returncode != 0 and b.returncode == 0 and not miss
            print(i, "OK" if ok else "BAD", "unchanged:", a.returncode, "patched:", x.returncode, "build:", b.returncode, "tests missing:", miss)
            if a.returncode: print(a.stdout[-1500:])
            if not x.returncode: print(x.stdout[-500:])
        else:
            prop = json.load(open(d + "/meta.json"))["property"]
            extra = [a for a in sys.argv[2:] if a.startswith("--p=")]
            if extra: prop = extra[0][4:]
            r = sh("git -C /repo apply %s/patch.diff" % d)
            try:
                c = sh("bash bin/check " + prop, cwd=V)
            finally:
                sh("git -C /repo checkout -- .")
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            print(i, prop, "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode, flush=True)
            if "-v" in sys.argv or c.returncode not in (0, 1): print(c.stdout[-1500:])
main()
