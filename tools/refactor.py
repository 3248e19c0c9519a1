#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites (tools/refactors/NAME.py: edits = {file: [(old, new), ...]}) to a scratch copy and
runs the checks on it: every one has to stay quiet.   refactor.py NAME [ID...]"""
import os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
def main():
    name, ids = sys.argv[1], sys.argv[2:] or ["C%02d" % i for i in range(1, 37)]
    sp = {}
    exec(open(os.path.join(seed.V, "tools", "refactors", name + ".py")).read(), sp)
    d = seed.scratch(sp["edits"])
    bad = []
    try:
        print("scratch", d, flush=True)
        p, out = seed.libmocks_tests(d)
        if len(p) != 16:
            print("TESTS", p, out)
        for f in sp["edits"]:
            if f.endswith(".c"):
                r = subprocess.run(["gcc", "-fsyntax-only", "-include", "stdlib.h", "-Wall", "-Wno-unused", "-Werror=implicit-function-declaration", "-D_GNU_SOURCE", "-I%s/include" % d, "-I%s/libCrashDebug/src" % d, "-I%s/model/fakeroot/include" % seed.V, os.path.join(d, f)], capture_output=True, text=True)
                if r.returncode:
                    print("COMPILE", f, r.stderr[:800]); bad.append(f)
        if bad:
            return
        for i in ids:
            t = time.time()
            r = subprocess.run(["python3", os.path.join(seed.V, "checks", "check.py"), i], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE="/tmp/w/ev", VERIF_KEEP_PLUGIN="1"))
            if r.returncode:
                bad.append(i)
                print("%s rc=%d %.0fs" % (i, r.returncode, time.time() - t)); print(r.stdout[:2500], flush=True)
            else:
                print("%s ok %.0fs" % (i, time.time() - t), flush=True)
    finally:
        shutil.rmtree(d)
        print(name, "NOT QUIET: " + " ".join(bad) if bad else "all quiet", flush=True)
main()
