#!/usr/bin/env python3
"""Makes the planted changes of /verif/seeded from tools/seeds/*.py and tries the checks on them.
  seed.py make ID...     write seeded/ID and confirm: builds, tests pass, demo 0 on clean tree, nonzero with the patch
  seed.py check ID...    run the property's check on a patched scratch copy (other properties: --with C01,C02)
  seed.py all            make + check everything not yet recorded in /tmp/seed.results
The specifications are files tools/seeds/<ID>.py defining: prop, needs, breaks, edits = {file: [(old, new), ...]},
demo (C text), mode ('core' or 'main'), leaks (0/1)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "tools", "seeds")

def load(i):
    d = {"mode": "core", "leaks": 0}
    exec(open(os.path.join(S, i + ".py")).read(), d)
    return d

def scratch(edits):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    for f, es in edits.items():
        p = os.path.join(d, f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        for old, new in es:
            if s.count(old) != 1:
                raise SystemExit("edit of %s matches %d times: %r" % (f, s.count(old), old))
            s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)
    return d

def run_demo(seeddir, repo):
    t = tempfile.mkdtemp(prefix="seeddemo.", dir="/tmp")
    try:
        for f in os.listdir(seeddir):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                continue
            src = os.path.join(seeddir, f)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(t, f))
        r = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=repo, capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(t)

def libmocks_tests(d):
    """The repository's tests, built in the scratch copy the way build.sh does."""
    out = tempfile.mkdtemp(prefix="seedt.", dir="/tmp")
    try:
        b = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + d)
        t = open("/opt/vp/test.sh").read().replace("/repo", d).replace("bash /opt/vp/build.sh", "bash %s/build.sh" % out)
        open(out + "/build.sh", "w").write(b)
        open(out + "/test.sh", "w").write(t)
        r = subprocess.run(["bash", out + "/test.sh", out + "/o.json"], capture_output=True, text=True)
        o = json.load(open(out + "/o.json"))
        return o["passed"], r.stdout[-500:] + r.stderr[-1500:]
    finally:
        shutil.rmtree(out)

def make(i):
    sp = load(i)
    dst = os.path.join(V, "seeded", i)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    d = scratch(sp["edits"])
    try:
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True).stdout
        open(os.path.join(dst, "patch.diff"), "wb").write(diff)
        sh = open(os.path.join(V, "tools", "demo", "demo.sh")).read().replace("@MODE@", sp["mode"]).replace("@LEAKS@", str(sp["leaks"]))
        open(os.path.join(dst, "demo.sh"), "w").write(sh)
        for f in ("demo.h", "stubs.c"):
            shutil.copy(os.path.join(V, "tools", "demo", f), dst)
        open(os.path.join(dst, "demo.c"), "w").write(sp["demo"])
        shutil.copytree(os.path.join(V, "model", "fakeroot"), os.path.join(dst, "stubs"))
        json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(dst, "patch.diff")]).returncode == 0
        # changed lines must be original lines
        base = "a7da419"
        orig = True
        for f in sp["edits"]:
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout.split("\n")
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", subprocess.run(["git", "-C", d, "diff", "-U0", f], capture_output=True, text=True).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    h = bl[k - 1].split()[0].lstrip("^")
                    if subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, base]).returncode != 0:
                        orig = False
        passed, log = libmocks_tests(d)
        want = json.load(open("/opt/vp/BASELINE.json"))
        want = want.get("stable") or want.get("passed") or want.get("tests") or []
        missing = [t for t in want if t not in passed]
        c, o1 = run_demo(dst, "/repo")
        b, o2 = run_demo(dst, d)
        good = ok and orig and len(passed) >= 16 and not missing and c == 0 and b not in (0, 70, 71, 77)
        print("%s %s: applies=%s original=%s tests=%d missing=%d demo clean=%d patched=%d %s" % ("OK " if good else "BAD", i, ok, orig, len(passed), len(missing), c, b, "" if good else "\n  clean:" + o1 + "\n  patched:" + o2 + "\n" + (log if missing or len(passed) < 16 else "")), flush=True)
        return good
    finally:
        shutil.rmtree(d)

def record(i, text):
    """tools/caught.txt feeds the table in DESIGN.md; no check reads it."""
    f = os.path.join(V, "tools", "caught.txt")
    rows = dict(l.rstrip("\n").split("\t") for l in open(f)) if os.path.exists(f) else {}
    rows[i] = text
    open(f, "w").write("".join("%s\t%s\n" % kv for kv in sorted(rows.items())))

def check(i, with_):
    sp = load(i)
    d = scratch(sp["edits"])
    try:
        out, rec = [], []
        for p in with_ or [sp["prop"]]:
            r = subprocess.run([sys.executable, os.path.join(V, "checks", "check.py"), p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join("/tmp", "seedev")))
            out.append("%s=%s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode)))
            first = [l for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("ANALYSIS")][:2]
            print(i, out[-1], "|", " || ".join(x.strip()[:200] for x in first), flush=True)
            if r.returncode != 1:
                rec.append(out[-1])
            else:
                es = sorted(set(re.findall(r"(?:entry|\[rule) (\w+)", r.stdout)))
                rec.append("%s (%s)" % (p, ", ".join(es)))
        if not with_ or sp["prop"] in with_:
            record(i, "; ".join(rec))
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    with_ = None
    for a in sys.argv[2:]:
        if a.startswith("--with="):
            with_ = a[7:].split(",")
    allids = sorted(f[:-3] for f in os.listdir(S) if f.endswith(".py"))
    if cmd == "make":
        for i in ids or allids:
            make(i)
    elif cmd == "check":
        for i in ids or allids:
            check(i, with_)
    elif cmd == "new":
        done = os.listdir(os.path.join(V, "seeded"))
        for i in [x for x in allids if x not in done]:
            try:
                if make(i):
                    check(i, None)
                else:
                    shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
            except SystemExit as e:
                print("BAD", i, e, flush=True)
                shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
