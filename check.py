#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] | --replay <PROPERTY> <part> <file>"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
def both(prop, tier, rc, py_check):
    """a property of native and Python code: both engines, one evidence file"""
    import json
    path = os.path.join(os.environ.get("VP_EVIDENCE", HERE + "/evidence"), prop + ".json"); one = json.load(open(path)); rp = py_check.run(prop, tier); two = json.load(open(path)); a, b = one["coverage"], two["coverage"]
    for k, v in a.items():
        if k not in b: b[k] = v
        elif isinstance(v, bool): b[k] = v and b[k]
        elif isinstance(v, (int, float)): b[k] = round(b[k] + v, 3)
        elif isinstance(v, list): b[k] = v + [x for x in b[k] if x not in v]
        elif isinstance(v, dict): b[k] = dict(v, **b[k])
        elif isinstance(v, str) and v != b[k]: b[k] = v + "; Python: " + b[k]
    two["assumptions"] = one.get("assumptions", []) + two.get("assumptions", []); two["wall_s"] = round(one["wall_s"] + two["wall_s"], 2); two["violations"] = one.get("violations", 0) + two.get("violations", 0)
    json.dump(two, open(path, "w"), indent=1)
    return 1 if 1 in (rc, rp) else max(rc, rp)
def main():
    a = sys.argv[1:]; tier = os.environ.get("VP_TIER_OVERRIDE", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    rep = "--replay" in a
    if rep: a.remove("--replay")
    prop = a[0]
    from specs_cpp import SPECS
    if prop in SPECS:
        from engine import cpp_check
        if rep and (a[1] in SPECS[prop]["parts"]): sys.exit(cpp_check.replay(prop, SPECS[prop], a[1], a[2]))
        if not rep: rc = cpp_check.run(prop, SPECS[prop], tier)
        try: from specs_py import SPECS as PY
        except ImportError: PY = {}
        if prop not in PY: sys.exit(rc)
        from engine import py_check
        if rep: sys.exit(py_check.replay(prop, a[1], a[2]))
        sys.exit(both(prop, tier, rc, py_check))
    from engine import py_check
    if rep: sys.exit(py_check.replay(prop, a[1], a[2]))
    sys.exit(py_check.run(prop, tier))
main()
