#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a spec (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)
and try it: build, demo with and without the patch, checks given on the command line."""
import os, sys, json, subprocess
V = "/verif"; R = "/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["ID"])
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True).stdout.strip() == b"", "dirty /repo"
try:
    for f, old, new in ns["EDITS"]:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
finally:
    subprocess.run(["git", "-C", R, "checkout", "--", "."])
open(os.path.join(d, "demo.c"), "w").write(ns["DEMO"])
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# cwd: /repo, built
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gcc -g -w -Iinclude -I_build/include -I. -I_build "$here/demo.c" -o "$tmp/demo" -L_build/.libs -lisl -lgmp -Wl,-rpath,"$PWD/_build/.libs" || exit 2
cd "$tmp" && timeout 100 ./demo
''')
json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, **k)
if "--notry" in sys.argv: sys.exit()
r0 = sh("bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % d).returncode
try:
    sh("git apply %s/patch.diff" % d, check=True)
    b = sh("bash /opt/vp/build.sh >/tmp/mkseed.build 2>&1").returncode
    r1 = sh("bash %s/demo.sh" % d).returncode
    print("== demo clean %d patched %d build %d" % (r0, r1, b))
    for c in sys.argv[2:]:
        if c == "tests":
            sh("bash /opt/vp/test.sh /tmp/mkseed.json >/dev/null 2>&1")
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/mkseed.json"))
            bl = base["stable"]
            print("== tests lost:", sorted(set(bl) - set(got["passed"]))[:10])
        else:
            x = sh("cd /verif && ./check.py %s quick | tail -12" % c, capture_output=True)
            print("== check", c); print(x.stdout.decode())
finally:
    sh("git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1")
