#!/usr/bin/env python3
"""trial.py [-n] [-s SECS] [ID...]: tries planted changes in a scratch copy.

For each /verif/seeded/ID: apply, build, existing tests, demo on the changed
and unchanged copy, then the check of its property.  -n: no build/tests/demo.
"""
import json
import os
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("TRIAL_DIR", "/tmp/kep3-trial")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def build():
    r = sh("cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DKEP3_ROOT=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo "
           "-DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build -j8" % (WT, WT, WT))
    return r.returncode == 0, r.stdout[-1500:]


def main():
    a = sys.argv[1:]
    nobuild = "-n" in a
    a = [x for x in a if x != "-n"]
    secs = "35"
    if "-s" in a:
        i = a.index("-s")
        secs = a[i + 1]
        del a[i:i + 2]
    ids = a or sorted(os.listdir(V + "/seeded"))
    if not os.path.exists(WT):
        sh("git -C /repo archive --prefix=x/ HEAD | tar x -C /tmp && mv /tmp/x " + WT)
        sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % WT)
        if not nobuild:
            print(build()[0])
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        sh("git checkout -q -- . && git clean -qfd -e _build", cwd=WT)
        out = [i]
        if not nobuild:
            ok, log = build()
            r = sh("bash %s/demo.sh" % d, cwd=WT)
            out.append("demo-clean=%d" % r.returncode)
            if r.returncode:
                out.append(r.stdout[-600:])
        r = sh("git apply %s/patch.diff" % d, cwd=WT)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        if not nobuild:
            ok, log = build()
            out.append("build=%s" % ok)
            if not ok:
                out.append(log)
            r = sh("ctest --test-dir _build", cwd=WT)
            out.append("tests=%d" % r.returncode)
            r = sh("bash %s/demo.sh" % d, cwd=WT)
            out.append("demo-changed=%d" % r.returncode)
        t = time.time()
        r = sh("python3 check.py " + prop, cwd=V, env=dict(os.environ, KEP3_REPO=WT, KEP3SIM_SECS=secs, KEP3SIM_BUILD=os.environ.get("KEP3SIM_BUILD", "/tmp/kep3-trial-build")))
        m = re.search(r"VIOLATION property=%s.*" % prop, r.stdout)
        out.append("check rc=%d %s %.0fs" % (r.returncode, "CAUGHT" if r.returncode == 1 and m else "MISSED", time.time() - t))
        out.append("| ".join(l[:160] for l in r.stdout.splitlines() if "VIOLATION" not in l and not l.startswith(("  expected", "  observed")))[-700:])
        print(" ".join(out), flush=True)
    sh("git checkout -q -- .", cwd=WT)


main()
