"""Per-property registration: structural rules (engine/rules.ml), assumptions, technique."""
import os, re, subprocess

LOADERS = ("CrashDebugCommandLine.c", "CrashCatcherDump.c", "GdbLogParser.c", "ElfLoad.c", "MemorySim.c", "common.c")
TEXT = {
    "BAL": "no path returns from a function while g_pExceptionHandlers may hold the address of one of the function's own handlers",
    "VOL": "no non-volatile automatic variable is modified between setjmp and a call that may raise and then read after setjmp's second return",
}
PROPERTIES = {
    "C21": {"rules": ["VOL:loaders"]},
    "C22": {"rules": ["VOL:loaders"]},
    "C24": {"rules": ["BAL", "VOL"],
            "technique": "abstract interpretation (Frama-C/Eva, lowered exceptions) of generic and actual handler nestings; dataflow rules over every function's control-flow graph (handler balance, volatile discipline)"},
}
_cache = {}

def analyse(repo, verif, plugin, work):
    if "rows" in _cache:
        return _cache["rows"]
    out = os.path.join(work, "rules.txt")
    srcs = []
    for d in ("libCrashDebug/src", "libcommon/src", "main"):
        p = os.path.join(repo, d)
        srcs += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".c"))
    cpp = "-I%s/include -I%s/libCrashDebug/src -I%s/model/fakeroot/include -D_GNU_SOURCE -include %s/model/pre.h" % (repo, repo, verif, verif)
    cmd = ["frama-c", "-load-module", plugin, "-machdep", "gcc_x86_64", "-c11", "-cpp-extra-args=" + cpp] + srcs + ["-variadic-verbose", "0"]
    r = subprocess.run(["timeout", "300"] + cmd, cwd=work, env=dict(os.environ, VRULES=out), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return {"error": "rules: frama-c failed (rc %d)\n%s" % (r.returncode, (r.stdout + r.stderr)[-2000:])}
    rows = [l.rstrip("\n").split("\t") for l in open(out)]
    summ = next((x[1] for x in rows if x[0] == "SUMMARY"), None)
    if summ is None:
        return {"error": "rules: no summary"}
    counts = {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", summ)}
    if counts["installs"] == 0 or counts["setjmps"] == 0:
        return {"error": "rules: no protected block found (anchor vanished)"}
    _cache["rows"] = {"problems": [x for x in rows if x[0] == "PROBLEM"], "counts": counts, "sources": srcs}
    return _cache["rows"]

def run_rule(name, repo, verif, plugin, work):
    rule, _, scope = name.partition(":")
    a = analyse(repo, verif, plugin, work)
    if a.get("error"):
        return {"error": a["error"]}
    problems = []
    for _, r, f, line, fun, msg in a["problems"]:
        if r != rule or (scope == "loaders" and os.path.basename(f) not in LOADERS):
            continue
        src = ""
        try:
            src = open(f, errors="replace").read().split("\n")[int(line) - 1].strip()
        except (OSError, IndexError):
            pass
        problems.append({"kind": "rule " + rule, "file": f, "line": int(line), "function": fun, "status": "violated", "what": msg, "source": src})
    c = a["counts"]
    inst = c["returns"] + c["installs"] if rule == "BAL" else c["setjmps"] + c["modifications"]
    return {"instances": inst, "text": "%s (%s; %d source files)" % (TEXT[rule], ", ".join("%s %d" % kv for kv in c.items()), len(a["sources"])), "problems": problems, "error": None}
