"""Writes DESIGN.md from design_head.md, the specs, the planted bugs and the findings."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, V); sys.dont_write_bytecode = True
from specs_cpp import SPECS as C
from specs_py import SPECS as P
from specs_na import NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fixed = "\n".join("* **%s** (`%s`): %s" % (lambda w: (w[1].split("=")[1], w[2], " ".join(w[3:])))(l.split()) for l in open(V + "/known_findings.txt") if l.startswith("fixed:"))
seeded = "\n".join("* `%s` → %s: %s" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"]) for f in sorted(glob.glob(V + "/seeded/*/meta.json")) for d in [json.load(open(f))])
out = []
for p in props:
    i = p["id"]
    for e, s in (("A", C.get(i)), ("B", P.get(i))):
        if not s or s.get("wip"): continue
        out.append("**%s %s** (engine %s)\n" % (i, p["title"], e))
        out.append("- Code: %s" % ("; ".join(s["functions"]) if s.get("functions") else "; ".join(sorted(set(s["srcs"]))) + (" (%s)" % "; ".join(a["where"] for a in p["anchors"]["mechanism"]))))
        out.append("- Parts: " + ", ".join(n + ("*" if d.get("tier") == "thorough" else "") for n, d in s["parts"].items()))
        out.append("- Bounds: " + (s.get("bounds") or "-"))
        if s.get("assumptions"): out.append("- Assumptions: " + "; ".join(s["assumptions"]))
        out.append("")
na = "\n".join("* **%s** %s: %s." % (p["id"], p["title"], NA[p["id"]]) for p in props if p["id"] in NA and p["id"] not in C and p["id"] not in P)
t = open(HERE + "/design_head.md").read()
for k, v in (("FIXED", fixed), ("SEEDED", seeded), ("NA", na), ("TABLE", "\n".join(out))): t = t.replace("@%s@" % k, v)
open(V + "/DESIGN.md", "w").write(t)
