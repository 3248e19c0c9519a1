#!/usr/bin/env python3
"""Static check driver: decides one property of /repo by abstract interpretation (Frama-C/Eva) of the
current sources under the harness entry points of harness/<ID>.c, plus the structural rules registered
for the property.  Usage: check.py ID [--tier quick|thorough] | check.py --debug FILE ENTRY"""
import csv, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
HARN = os.path.join(VERIF, "harness")
MODEL = os.path.join(VERIF, "model")

BASE_OPTS = ["-machdep", "gcc_x86_64", "-c11", "-no-warn-signed-overflow", "-no-warn-signed-downcast",
             "-eva", "-eva-slevel", "200000", "-eva-no-alloc-returns-null", "-eva-alloc-builtin", "fresh",
             "-eva-ilevel", "256", "-eva-plevel", "5000", "-eva-split-limit", "5000", "-eva-no-print",
             *([] if os.environ.get("EVA_PROGRESS") else ["-eva-no-show-progress"]), "-eva-msg-key=-initial-state,-malloc,-alloc",
             "-eva-warn-undefined-pointer-comparison", "none",
             "-eva-warn-key", "builtins:missing-spec=inactive",
             "-variadic-verbose", "0", "-eva-partition-value", "__lj_active", "-eva-interprocedural-splits"]

# kinds of Frama-C properties that are obligations when they appear as alarms
ALARM_KINDS = {"mem_access", "index_bound", "index_in_bound", "initialization", "dangling_pointer", "division_by_zero",
               "function_pointer", "shift", "user assertion", "assertion", "is_nan_or_infinite",
               "unclassified"}
IGNORED_KINDS = {"ptr_comparison", "pointer_comparison", "signed_overflow", "signed_downcast", "overflow",
                 "differing_blocks"}

class EngineError(Exception):
    pass
class Timeout(EngineError):
    pass

def build_plugin(work, name="lower"):
    p = os.path.join(VERIF, "build", name + ".cmxs")
    src = os.path.join(VERIF, "engine", name + ".ml")
    if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(src):
        return p
    d = os.path.join(work, "plugin")
    os.makedirs(d, exist_ok=True)
    shutil.copy(src, d)
    r = subprocess.run(["ocamlfind", "ocamlopt", "-I", "/usr/lib/frama-c", "-package",
                        "zarith,ocamlgraph,yojson,unix,str,dynlink", "-shared", "-linkall", "-o", name + ".cmxs",
                        name + ".ml"], cwd=d, capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineError("cannot build the %s plugin:\n%s" % (name, r.stdout + r.stderr))
    out = os.path.join(d, name + ".cmxs")
    if os.environ.get("VERIF_KEEP_PLUGIN"):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        shutil.copy(out, p)
    return out

def repo_sources(groups):
    out = []
    for g in groups:
        p = os.path.join(REPO, g)
        if os.path.isdir(p):
            out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".c"))
        elif os.path.exists(p):
            out.append(p)
        else:
            raise EngineError("anchor vanished: " + p)
    return out

def parse_header(path):
    """A harness declares its entries and options in '//! ' lines."""
    cfg = {"sources": ["libCrashDebug/src", "libcommon/src"], "models": ["mdl.c", "hooks.c"], "opts": [], "defs": [],
           "entry": {}, "env": {}}
    text = open(path).read()
    for m in re.finditer(r"^//!\s*(\w+):\s*(.*)$", text, re.M):
        k, v = m.group(1), m.group(2).split()
        if k == "opts":
            cfg[k] = cfg[k] + v
        elif k == "defs":
            cfg[k] = cfg[k] + v
        elif k in ("sources", "models"):
            cfg[k] = v
        elif k == "retsplit":
            cfg["defs"] = cfg["defs"] + ["-DRETSPLIT"]
            cfg["opts"] = cfg["opts"] + ["-eva-partition-value", "__lj_active,__ret_off,__num_count,__line_len"]
            cfg["env"]["LOWER_RETSPLIT"] = "1"
        elif k == "entry":
            cfg["entry"][v[0]] = v[1:]
    entries = []
    for m in re.finditer(r"^void (t_\w+)\(void\)\s*(//\s*(thorough|quick).*)?$", text, re.M):
        entries.append((m.group(1), m.group(3) or "both"))
    # marks of each entry, including marks of static helpers called "used by" (declared globally)
    cfg["entries"] = entries
    cfg["text"] = text
    return cfg

def function_bodies(text):
    """name -> body text, for the top-level functions of a harness file."""
    bodies = {}
    for m in re.finditer(r"^(?:static )?(?:inline )?[\w\* ]+?\b(\w+)\([^;{]*\)[^\n;{]*\n\{\n(.*?)^\}", text, re.M | re.S):
        bodies[m.group(1)] = m.group(2)
    return bodies

def expected_marks(cfg, entry):
    bodies = function_bodies(cfg["text"])
    seen, todo, marks = set(), [entry], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in bodies:
            continue
        seen.add(f)
        marks |= set(re.findall(r"\bMARK\((\w+)\)", bodies[f]))
        for g in bodies:
            if re.search(r"\b%s\b" % g, bodies[f]):
                todo.append(g)
    return marks | {"end"}

def run_entry(plugin, harness, cfg, entry, work, timeout):
    modes = cfg["entry"].get(entry, [])
    if "coarse" in modes:
        # histories of any length: only the obligations of the entry itself are decided here, with little precision;
        # an int that counts is taken not to reach 2^31
        return analyse_entry(plugin, harness, cfg, entry, work, timeout, ["-eva-alloc-builtin", "by_stack", "-eva-slevel", "30", "-warn-signed-overflow"])
    if "narrow" not in modes:
        return analyse_entry(plugin, harness, cfg, entry, work, timeout, [])
    # this entry only decides the rule "no lossy conversion to 8 or 16 bits": inputs of any size, little precision
    opts = ["-eva-alloc-builtin", "by_stack", "-warn-unsigned-downcast", "-warn-signed-downcast", "-eva-slevel"]
    try:
        return analyse_entry(plugin, harness, cfg, entry, work, min(timeout, 200), opts + ["30"])
    except Timeout:
        return analyse_entry(plugin, harness, cfg, entry, work, min(timeout, 200), opts + ["3"])

def analyse_entry(plugin, harness, cfg, entry, work, timeout, more):
    tag = os.path.basename(harness)[:-2] + "." + entry
    csvp = os.path.join(work, tag + ".csv")
    logp = os.path.join(work, tag + ".log")
    incs = ["-I%s/include" % REPO, "-I%s/libCrashDebug/src" % REPO, "-I%s/fakeroot/include" % MODEL, "-I" + MODEL, "-I" + HARN]
    cpp = " ".join(incs + ["-include %s/pre.h" % MODEL, "-D_GNU_SOURCE", "-DENTRY=" + entry] + cfg["defs"])
    eopts = cfg["entry"].get(entry, [])
    without = [o[8:] for o in eopts if o.startswith("without=")]
    narrow, coarse = "narrow" in eopts, "coarse" in eopts
    eopts = more + [o for o in eopts if not o.startswith("without=") and o not in ("narrow", "coarse")]
    srcs = [harness] + [os.path.join(MODEL, m) for m in cfg["models"]] + [x for x in repo_sources(cfg["sources"]) if os.path.basename(x) not in without]
    cmd = ["frama-c", "-load-module", plugin, "-cpp-extra-args=" + cpp] + srcs + ["-main", "mdl_entry"] + BASE_OPTS \
        + cfg["opts"] + eopts + ["-report-csv", csvp]
    t0 = time.time()
    with open(logp, "w") as log:
        try:
            rc = subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, stdout=log, stderr=subprocess.STDOUT,
                                cwd=work, env=dict(os.environ, TMPDIR=work, OCAMLRUNPARAM="s=8M,o=400", **cfg["env"], **({"LOWER_NARROW": "1"} if narrow else {}))).returncode
        except OSError as e:
            raise EngineError(str(e))
    wall = time.time() - t0
    log = open(logp, errors="replace").read()
    res = {"entry": entry, "wall": wall, "rc": rc, "cmd": cmd, "log": logp, "problems": [], "obligations": 0,
           "discharged": 0, "marks": [], "functions": 0, "statements": 0, "alarms": 0, "lower": ""}
    if rc in (124, 137):
        raise Timeout("%s: analysis did not finish in %ds" % (tag, timeout))
    if rc != 0 or not os.path.exists(csvp):
        raise EngineError("%s: frama-c failed (rc %d)\n%s" % (tag, rc, log[-3000:]))
    m = re.search(r"lower: (.*)", log)
    res["lower"] = m.group(1) if m else ""
    if not m:
        raise EngineError("%s: lowering did not run" % tag)
    m = re.search(r"(\d+) functions analyzed \(out of (\d+)\).*?(\d+) statements reached", log, re.S)
    if m:
        res["functions"], res["statements"] = int(m.group(1)), int(m.group(3))
    if re.search(r"Degeneration occurred|Eva not started|analysis aborted", log):
        raise EngineError("%s: analysis degenerated\n%s" % (tag, log[-3000:]))
    reached = set(re.findall(r"Frama_C_show_each_MARK_(\w+)", log))
    res["marks"] = sorted(reached)
    for mk in sorted(expected_marks(cfg, entry) - reached):
        res["problems"].append({"kind": "unreached", "file": harness, "line": 0, "function": entry,
                                "what": "no execution reaches mark '%s' (a call that must return, or an outcome that must be possible, never happens)" % mk})
    lines_cache = {}
    def srcline(f, n):
        if f not in lines_cache:
            try:
                lines_cache[f] = open(f, errors="replace").read().split("\n")
            except OSError:
                lines_cache[f] = []
        ls = lines_cache[f]
        return ls[n - 1].strip() if 0 < n <= len(ls) else ""
    seen = set()
    for row in csv.DictReader(open(csvp, errors="replace"), delimiter="\t"):
        kind, status = row["property kind"], row["status"]
        path = os.path.join(row["directory"], row["file"])
        if row["directory"].startswith("FRAMAC_SHARE"):
            path = path.replace("FRAMAC_SHARE", "/usr/share/frama-c")
        line = int(row["line"] or 0)
        oblige = "mdl_oblige" in row["property"] or (kind.startswith("precondition") and "obligation" in row["property"])
        if oblige and kind.startswith("precondition of"):
            if narrow or coarse and os.path.basename(path) != os.path.basename(harness) or status in ("Unreachable", "Considered valid", "Dead"):
                continue
            res["obligations"] += 1
            if status == "Valid":
                res["discharged"] += 1
                continue
        elif oblige:
            continue
        else:
            if kind in IGNORED_KINDS and not (narrow and kind == "signed_downcast") or status in ("Valid", "Considered valid", "Unreachable", "Dead"):
                continue
            if status not in ("Unknown", "Invalid", "Invalid or unreachable"):
                continue
            if coarse:
                continue
            if narrow and not ("downcast" in kind and path.startswith(REPO + "/")):
                continue
            if "downcast" in kind and not re.search(r"(≤|<=) (255|65535|127|32767)\b", row["property"]):
                continue            # only the loss of high bits in an 8 or 16-bit conversion counts
            if kind.startswith("precondition of") or kind in ALARM_KINDS or True:
                if kind in ("postcondition", "assigns clause", "from clause", "precondition", "behavior", "complete behaviors", "disjoint behaviors"):
                    continue
                res["alarms"] += 1
        key = (path, line, row["function"], kind, row["property"])
        if key in seen:
            continue
        seen.add(key)
        res["problems"].append({"kind": kind, "file": path, "line": line, "function": row["function"],
                                "status": status, "what": row["property"], "source": srcline(path, line)})
    return res

def describe(p, entry):
    f = os.path.relpath(p["file"], REPO) if p["file"].startswith(REPO + "/") else os.path.relpath(p["file"], VERIF) if p["file"].startswith(VERIF) else p["file"]
    s = "%s:%d in %s [%s, %s] entry %s: " % (f, p["line"], p["function"], p["kind"], p.get("status", "violated"), entry)
    if p["kind"].startswith("precondition of mdl_oblige"):
        return s + "obligation not established: " + p.get("source", "")
    return s + p["what"] + ("   | " + p["source"] if p.get("source") else "")

def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", l)
            if m:
                out.append(m.groups())
    return out

def signature(pid, p, entry):
    return "%s/%s/%s/%s" % (entry, os.path.basename(p["file"]), p["function"], p["kind"].replace(" ", "_"))

def main():
    t0 = time.time()
    args = sys.argv[1:]
    debug = args and args[0] == "--debug"
    work = tempfile.mkdtemp(prefix="vchk.", dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 2
    try:
        plugin = build_plugin(work)
        if args[0] == "--build":
            print("plugins", plugin, build_plugin(work, "rules"))
            return 0
        if debug:
            harness = os.path.abspath(args[1])
            cfg = parse_header(harness)
            ents = [e for e, _ in cfg["entries"] if len(args) < 3 or e in args[2:]]
            bad = 0
            with cf.ThreadPoolExecutor(8) as ex:
                futs = [ex.submit(run_entry, plugin, harness, cfg, e, work, 600) for e in ents]
                for f in futs:
                    try:
                        r = f.result()
                    except EngineError as e:
                        print("ENGINE", str(e)[:100], str(e)[-1500:]); bad = 1; continue
                    print("%-24s %.1fs oblig %d/%d stmts %d funcs %d marks %s" % (r["entry"], r["wall"], r["discharged"], r["obligations"], r["statements"], r["functions"], " ".join(r["marks"])))
                    for p in r["problems"]:
                        print("   ", describe(p, r["entry"])); bad = 1
                    shutil.copy(r["log"], "/tmp/w/") if os.path.isdir("/tmp/w") else None
            rc = bad
            return rc
        pid = args[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in args:
            tier = args[args.index("--tier") + 1]
        rc = decide(pid, tier, plugin, work, t0)
        return rc
    except EngineError as e:
        print("ANALYSIS-ERROR", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, plugin, work, t0):
    import rules
    spec = rules.PROPERTIES.get(pid, {})
    jobs = []
    results, problems = [], []
    for h in spec.get("harness", [pid + ".c"]):
        harness = os.path.join(HARN, h)
        if not os.path.exists(harness):
            if spec.get("rules"):
                continue
            raise EngineError("no harness " + harness)
        cfg = parse_header(harness)
        for e, when in cfg["entries"]:
            if when == "thorough" and tier != "thorough":
                continue
            jobs.append((harness, cfg, e))
    timeout = 840 if tier == "quick" else 3000
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [(j, ex.submit(run_entry, plugin, j[0], j[1], j[2], work, timeout)) for j in jobs]
        for j, f in futs:
            r = f.result()
            results.append(r)
            for p in r["problems"]:
                problems.append((p, r["entry"]))
    rule_info = []
    for name in spec.get("rules", []):
        info = rules.run_rule(name, REPO, VERIF, build_plugin(work, "rules"), work)
        if info.get("error"):
            raise EngineError(info["error"])
        rule_info.append({"rule": name, "instances": info["instances"], "text": info["text"]})
        for p in info["problems"]:
            problems.append((p, name))
    if not results and not rule_info:
        raise EngineError("nothing analysed")
    obligations = sum(r["obligations"] for r in results) + sum(i["instances"] for i in rule_info)
    if obligations == 0:
        raise EngineError("zero obligations: vacuous")
    known = load_known()
    fresh = []
    hit = {}
    for p, e in problems:
        sig = signature(pid, p, e)
        k = next((k for k in known if k[0] == pid and k[1] == sig), None)
        if k:
            hit[k] = True
        else:
            fresh.append((p, e, sig))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation (Frama-C/Eva, setjmp/longjmp lowered to explicit control flow) of the current /repo sources "
                           "from the entry points below with abstract inputs; every obligation call site is proved for all states that reach it, "
                           "or reported.  Undefined behaviour reachable in any analysed statement is also an open obligation.",
            "obligations": obligations,
            "discharged": obligations - len(problems) if problems else obligations,
            "entries": [{"entry": r["entry"], "obligation_sites": r["obligations"], "discharged": r["discharged"],
                         "functions_analysed": r["functions"], "statements_reached": r["statements"],
                         "outcomes_reached": r["marks"], "lowering": r["lower"], "wall_s": round(r["wall"], 2)} for r in results],
            "rules": rule_info,
            "sources": sorted({os.path.relpath(s, REPO) for j in jobs for s in repo_sources(j[1]["sources"])}),
            "trusted_base": ["Frama-C 25 Eva", "engine/lower.ml", "model/*.c", "compiler-independent C semantics, gcc_x86_64 data model"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d entries, %d obligation sites, %d problems, %.1fs" % (pid, len(results), obligations, len(problems), time.time() - t0))
    if fresh:
        rp = os.path.join(evdir, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("Property %s is not established on the current tree of %s.\n" % (pid, REPO))
            for p, e, sig in fresh:
                f.write(describe(p, e) + "\n    signature " + sig + "\n")
            f.write("\nRe-run: python3 %s %s\n" % (os.path.join(VERIF, "checks", "check.py"), pid))
        for p, e, sig in fresh[:40]:
            print("  " + describe(p, e))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
