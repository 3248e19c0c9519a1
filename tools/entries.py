"""Entry points of a harness with the comment that precedes each."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def entries(pid):
    p = os.path.join(V, "harness", pid + ".c")
    if not os.path.exists(p): return []
    lines = open(p).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        m = re.match(r"^void (t_\w+)\(void\)\s*(// thorough)?", l)
        if not m: continue
        j, c = i - 1, []
        while j >= 0 and not lines[j].startswith("}") and not re.match(r"^void ", lines[j]):
            if lines[j].rstrip().endswith("*/") and lines[j].lstrip().startswith("/*"):
                c = [re.sub(r"^/\*\s*|\s*\*/$", "", lines[j].strip())]; break
            if lines[j].strip() and not lines[j].startswith(("static", "#")) : break
            j -= 1
        out.append((m.group(1), bool(m.group(2)), c[0] if c else ""))
    return out
if __name__ == "__main__":
    for k in range(1, 37):
        for e in entries("C%02d" % k): print("C%02d" % k, e)
