#!/usr/bin/env python3
"""Development helper: plant a bug, confirm it, and store it under /verif/seeded.

  seed.py new FILE.py     FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source), optional BACKEND
  seed.py try ID [PROP..] apply the stored patch to /repo, run the quick checks, undo
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = "/repo"
DEMO_SH = """#!/bin/bash
# cwd: the repository, after its build
D="$(cd "$(dirname "$0")" && pwd)"
B=%s
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
EIG=""; [ "$B" = eigen ] && EIG="-I/usr/include/eigen3"
g++ -std=c++11 -w -O1 %s -I orocos_bfl/src -I "_build/$B/src" -I "_build/$B/src/wrappers/matrix" -I "_build/$B/src/wrappers/rng" $EIG "$D/demo.cpp" -o "$T/demo" \\
  -rdynamic -L "_build/$B/src" -Wl,-rpath,"$PWD/_build/$B/src" -lorocos-bfl -lginac -lcln -ldl || exit 3
timeout 120 "$T/demo"
"""

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build():
    return sh("bash /opt/vp/build.sh")

def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b - set(json.load(open("/tmp/seed_o.json"))["passed"]))

def clean():
    return sh("git -C /repo status --porcelain").stdout.strip() == ""

def new(path):
    g = {}
    exec(open(path).read(), g)
    assert clean()
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO_SH % (g.get("BACKEND", "boost"), g.get("FLAGS", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    build()
    r = sh(d + "/demo.sh", cwd=R)
    print("demo on clean:", r.returncode, r.stdout[-600:] if r.returncode else "")
    ok &= r.returncode == 0
    try:
        for f, a, b in g["EDITS"]:
            p = os.path.join(R, "orocos_bfl/src", f)
            s = open(p, encoding="latin-1").read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w", encoding="latin-1").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = build()
        print("build:", r.returncode, r.stdout[-1500:] if r.returncode else "")
        m = stable()
        print("stable tests lost:", len(m), m[:3])
        ok &= r.returncode == 0 and not m
        r = sh(d + "/demo.sh", cwd=R)
        print("demo on patched:", r.returncode, r.stdout[-300:])
        ok &= r.returncode != 0 and r.returncode != 3
        r = sh("python3 %s/tools/check.py %s quick" % (V, g["PROP"]))
        print("check:", r.returncode, "\n".join(r.stdout.strip().split("\n")[:3]))
    finally:
        sh("git -C /repo checkout -- .")
        build()
    print("KEEP" if ok else "REJECT (removing)")
    if not ok:
        sh("rm -rf %s" % d)

def tryit(i, props):
    assert clean()
    d = os.path.join(V, "seeded", i)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout[-300:])
            return
        for p in props:
            r = sh("python3 %s/tools/check.py %s quick" % (V, p))
            print(i, p, r.returncode, "\n".join(r.stdout.strip().split("\n")[:2]))
    finally:
        sh("git -C /repo checkout -- .")

if sys.argv[1] == "new":
    for f in sys.argv[2:]:
        new(f)
else:
    tryit(sys.argv[2], sys.argv[3:])
