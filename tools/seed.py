#!/usr/bin/env python3
"""Author's tool (no check uses it): make and try planted bugs.
  seed.py make SPEC.py...   spec defines ID PROP NEEDS BREAKS EDITS=[(path,old,new)] DEMO [SH]
  seed.py demo ID...        demo on clean and patched scratch copy
  seed.py check ID... [PROP]  run the property's check against the patched copy
  seed.py test ID...        the stable tests against the patched copy
  seed.py regen             re-make every patch against /repo's HEAD (fuzzy)
"""
import json, os, subprocess, sys, runpy, shutil
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = os.environ.get("SEEDWT", "/tmp/swt")
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fresh():
    if not os.path.exists(W):
        r = sh("cp -a /repo %s" % W); assert r.returncode == 0, r.stdout
        sh("rm -rf %s/_build" % W)
    r = sh("cd %s && git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % W); assert r.returncode == 0, r.stdout
def build():
    if not os.path.exists("/tmp/swt.build.sh"):
        pass
    s = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + W)
    r = sh("bash -s", input=s)
    return r
DEMO_SH = """#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -g %(flags)s -I. -pthread "$d/demo.cc" -o "$t/demo" -L_build/kanon/lib/debug -lkanon_net -lkanon_base -ldl
cd "$t"
timeout %(timeout)d ./demo
"""
cmd = sys.argv[1]; args = sys.argv[2:]
if cmd == "make":
    for a in args:
        s = runpy.run_path(a)
        d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
        fresh()
        for p, o, n in s["EDITS"]:
            t = open(os.path.join(W, p)).read()
            assert t.count(o) == 1, (s["ID"], p, t.count(o), o)
            open(os.path.join(W, p), "w").write(t.replace(o, n))
        r = sh("cd %s && git diff" % W); open(d + "/patch.diff", "w").write(r.stdout)
        open(d + "/demo.cc", "w").write(s["DEMO"])
        open(d + "/demo.sh", "w").write(s.get("SH") or DEMO_SH % dict(flags=s.get("FLAGS", ""), timeout=s.get("TIMEOUT", 60)))
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        args2 = [s["ID"]]
        print("made", s["ID"]); 
    args = [runpy.run_path(a)["ID"] for a in args]; cmd = "demo"
if cmd == "demo":
    for i in args:
        d = os.path.join(V, "seeded", i)
        fresh(); b = build(); assert b.returncode == 0, b.stdout[-2000:]
        r0 = [sh("cd %s && bash %s/demo.sh" % (W, d)) for _ in range(3)]
        r = sh("cd %s && git apply %s/patch.diff" % (W, d)); assert r.returncode == 0, r.stdout
        b = build(); assert b.returncode == 0, b.stdout[-3000:]
        r1 = [sh("cd %s && bash %s/demo.sh" % (W, d)) for _ in range(3)]
        ok = all(x.returncode == 0 for x in r0) and all(x.returncode for x in r1)
        print(i, "clean", [x.returncode for x in r0], "patched", [x.returncode for x in r1], "OK" if ok else "BAD")
        if not ok: print(r0[0].stdout[-1500:], r1[0].stdout[-1500:])
        fresh()
if cmd == "check":
    for i in args:
        d = os.path.join(V, "seeded", i); p = json.load(open(d + "/meta.json"))["property"]
        fresh(); r = sh("cd %s && git apply %s/patch.diff" % (W, d)); assert r.returncode == 0, r.stdout
        r = sh("cd %s && VERIF_REPO=%s VERIF_SEED=%s python3 run.py %s" % (V, W, os.environ.get("VERIF_SEED", "1"), p))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "rc", r.returncode, v[:1], "" if v else r.stdout[-800:])
        fresh()
if cmd == "test":
    for i in args:
        d = os.path.join(V, "seeded", i)
        fresh(); sh("cd %s && git apply %s/patch.diff" % (W, d)); b = build(); assert b.returncode == 0, b.stdout[-2000:]
        s = open("/opt/vp/run_tests.py").read().replace("/repo", W); open("/tmp/swt_rt.py", "w").write(s)
        s = open("/opt/vp/test.sh").read().replace("/repo", W).replace("/opt/vp/run_tests.py", "/tmp/swt_rt.py")
        r = sh("bash -s /tmp/swt_out.json", input=s)
        try:
            o = json.load(open("/tmp/swt_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(o.get("passed", [])) ; miss = [x for x in base if x not in passed]
            print(i, "stable failing:", miss[:10], len(miss))
        except Exception as e: print(i, "tests", e, r.stdout[-1500:])
        fresh()
