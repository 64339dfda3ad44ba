"""Writes MANIFEST.json from the specs: python3 tools/gen_manifest.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from specs_cpp import SPECS
try: from specs_py import SPECS as PY
except ImportError: PY = {}
try: from specs_na import NA
except ImportError: NA = {}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
TC = ("symbolic execution of the instrumented LLVM IR of the real C++ code with Z3 deciding every branch and every assertion over the path condition (bounded, exhaustive path exploration); counterexamples replayed on the uninstrumented build")
TP = ("symbolic execution of the real Python code (symbolic values inside the interpreter, path exploration by re-execution) with Z3 deciding every branch and assertion; counterexamples replayed on the unmodified interpreter")
for p in props:
    i = p["id"]
    s = SPECS.get(i) or PY.get(i)
    if s and not s.get("wip"):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=TC + "; the Python half: " + TP if i in SPECS and i in PY else TC if i in SPECS else TP, level="model_checking",
            level_note="Exhaustive over all paths and decided by the solver for all values within: " + (s.get("bounds") or "see DESIGN.md") + ("; Python: " + PY[i]["bounds"] if i in SPECS and i in PY else "")))
    else: na.append(dict(property=i, reason=NA.get(i, "no check has been built for this property (time)")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable:", [x["property"] for x in na])
