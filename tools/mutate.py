#!/usr/bin/env python3
"""Systematic small changes to every source file, each tried against the entries of the properties anchored there.
  mutate.py list | run OUT [WORKERS [FILTER]]      OUT gets one line per change; finished ones are skipped on a re-run
Changes whose object code equals the original's are dropped. No check reads this."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
L = "libCrashDebug/src/"
FILES = {
 L+"MemorySim.c": "C01 C02 C03 C04 C05 C06 C07 C08 C22",
 L+"ElfLoad.c": "C09 C10 C20 C22",
 L+"CrashCatcherDump.c": "C11 C12 C13 C14 C18 C21 C23 C22",
 L+"GdbLogParser.c": "C15 C16 C17 C18 C21 C23 C22",
 L+"CrashDebugCommandLine.c": "C19 C18 C20 C21 C22 C23",
 L+"StandardIComm.c": "C31 C25 C36",
 L+"mriPlatform.c": "C25 C26 C27 C28 C29 C30 C31",
 "libcommon/src/common.c": "C23 C21 C20",
 "libcommon/src/try_catch.c": "C24",
 "main/main.c": "C32",
 "main/MockDefaults.c": "C36",
 "libmocks/src/MallocFailureInject.c": "C33",
 "libmocks/src/FileFailureInject.c": "C34",
 "libmocks/src/printfSpy.c": "C35",
 "include/try_catch.h": "C24",
}
SUBS = [(r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
        (r"(?<![<\->=])<(?![<=])", ["<="]), (r"(?<![>\-=])>(?![>=])", [">="]),
        (r"(?<=[\w\)\]]) \+ (?=[\w\(])", [" - "]), (r"(?<=[\w\)\]]) - (?=[\w\(])", [" + "]),
        (r"<<", [">>"]), (r">>", ["<<"]), (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["="]),
        (r"(?<=[\(\s])!(?=[\w\(])", [""]), (r" & ", [" | "]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]),
        (r"\buint32_t\b", ["uint16_t", "int32_t"]), (r"\buint8_t\b", ["int8_t"]), (r"\bvolatile ", [""])]

def mutants(f, text):
    """(line number, new text of the line)"""
    lines = text.split("\n")
    comment = False
    for n, l in enumerate(lines):
        if "/*" in l and "*/" not in l:
            comment = True
        if comment:
            if "*/" in l:
                comment = False
            continue
        code = l.split("//")[0]
        if not code.strip() or code.startswith("#include") or code.strip().startswith("/*") or "extern" in code:
            continue
        mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' * len(m.group(0)), code)
        seen = set()
        for pat, reps in SUBS:
            for m in re.finditer(pat, mask):
                for r in reps:
                    seen.add(code[:m.start()] + r + code[m.end():])
        for m in re.finditer(r"(?<![\w\.\"'x])(0x[0-9a-fA-F]+|\d+)(?=[uU]?\b)", mask):
            v = int(m.group(1), 0)
            for w in ({v + 1, v - 1} if v else {1}):
                seen.add(code[:m.start()] + ("0x%x" % w if m.group(1).startswith("0x") else str(w)) + code[m.end():])
        s = code.strip()
        if re.match(r"^(\*?[\w\->\.\[\]\(\)\*]+ *(=|\+=|-=|\|=|&=)(?!=).*;|[\w]+\(.*\);|.*(\+\+|--);|goto .*;|return;|__\w+.*;|__rethrow;)$", s):
            seen.add(code[:len(code) - len(code.lstrip())] + ";")
        m = re.match(r"^(\s*)(else )?if \((.*)\)\s*$", code)
        if m:
            seen.add("%s%sif (0 && (%s))" % (m.group(1), m.group(2) or "", m.group(3)))
            seen.add("%s%sif (1 || (%s))" % (m.group(1), m.group(2) or "", m.group(3)))
        m = re.match(r"^(\s*)return (.+);$", code)
        if m and m.group(2) != "0":
            seen.add("%sreturn 0;" % m.group(1))
        seen.discard(code)
        for x in sorted(seen):
            yield n, x

def objhash(d, f):
    inc = ["-I%s/include" % d, "-I%s/libCrashDebug/src" % d, "-I%s/model/fakeroot/include" % V]
    src = f if f.endswith(".c") else L + "CrashDebugCommandLine.c"
    h = ""
    for s in ([src] if f.endswith(".c") else [L + "CrashDebugCommandLine.c", L + "MemorySim.c", "libcommon/src/try_catch.c"]):
        r = subprocess.run(["gcc", "-O2", "-w", "-S", "-o", "-", "-include", "stdlib.h", "-D_GNU_SOURCE"] + inc + [os.path.join(d, s)], capture_output=True)
        if r.returncode:
            return None
        h += hashlib.md5(re.sub(rb"\.file.*", b"", r.stdout)).hexdigest()
    return h

def plan():
    out = []
    for f in FILES:
        text = open(os.path.join("/repo", f), newline="").read().replace("\r\n", "\n")
        for n, x in mutants(f, text):
            out.append((f, n, x))
    return out

def entries_for(f):
    import check
    jobs = []
    for pid in FILES[f].split():
        h = os.path.join(check.HARN, pid + ".c")
        cfg = check.parse_header(h)
        wall = {}
        try:
            ev = json.load(open(os.path.join(V, "evidence", pid + ".json")))
            wall = {e["entry"]: e["wall_s"] for e in ev["coverage"]["entries"]}
        except OSError:
            pass
        for e, when in cfg["entries"]:
            if when != "thorough":
                jobs.append((wall.get(e, 20), pid, h, cfg, e))
    jobs.sort(key=lambda j: j[0])
    return jobs

def work(job):
    f, n, x, budget = job
    import check, rules
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for s in ("libCrashDebug", "libcommon", "libmocks", "main", "include"):
            shutil.copytree(os.path.join("/repo", s), os.path.join(d, s), ignore=shutil.ignore_patterns("tests", "*.o"))
        p = os.path.join(d, f)
        base = objhash(d, f)
        lines = open(p, newline="").read().replace("\r\n", "\n").split("\n")
        lines[n] = x + (" \\" if lines[n].rstrip().endswith("\\") and not x.rstrip().endswith("\\") else "")
        open(p, "w").write("\n".join(lines))
        h = objhash(d, f)
        if h is None:
            return job, "nocompile"
        if h == base:
            return job, "equal"
        check.REPO = d
        w = os.path.join(d, "work")
        os.makedirs(w)
        if f == "include/try_catch.h" or "try" in x or "volatile" in open(os.path.join("/repo", f), errors="replace").read().split("\n")[n]:
            rules._cache.clear()
            for r in ("BAL", "VOL"):
                i = rules.run_rule(r, d, V, os.path.join(V, "build", "rules.cmxs"), w)
                if i.get("error"):
                    return job, "error rules " + i["error"][:80].replace("\n", " ")
                if i["problems"]:
                    return job, "caught " + r
        for wall, pid, hn, cfg, e in entries_for(f):
            try:
                r = check.run_entry(os.path.join(V, "build", "lower.cmxs"), hn, cfg, e, w, budget)
            except check.EngineError as ex:
                return job, "error %s.%s %s" % (pid, e, str(ex)[:100].replace("\n", " "))
            known = [k for k in check.load_known() if k[0] == pid]
            if [q for q in r["problems"] if not any(k[1] == check.signature(pid, q, e) for k in known)]:
                return job, "caught %s.%s" % (pid, e)
        return job, "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ps = plan()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ps), Counter(f for f, _, _ in ps))
    else:
        out = sys.argv[2]
        workers = int(sys.argv[3]) if len(sys.argv) > 3 else 8
        filt = sys.argv[4] if len(sys.argv) > 4 else ""
        done = set()
        if os.path.exists(out):
            done = {tuple(l.split("\t")[1:4]) for l in open(out)}
        todo = [(f, n, x, 400) for f, n, x in ps if filt in f and (f, str(n + 1), x.strip()) not in done]
        import random
        random.Random(5).shuffle(todo)
        with mp.Pool(workers) as pool, open(out, "a") as o:
            for (f, n, x, _), r in pool.imap_unordered(work, todo):
                o.write("%s\t%s\t%d\t%s\n" % (r, f, n + 1, x.strip())); o.flush()
