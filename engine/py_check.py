"""Engine B driver: symbolic execution of the real Python modules (engine/py/sym.py), one process per part and shard; counterexamples and path models are replayed on the unmodified interpreter."""
import json, os, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get("VP_REPO", "/repo"); PY = "/opt/venv/bin/python"
Z3DIRS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
sys.path.insert(0, VERIF)
def _env(scratch):
    e = dict(os.environ, PYTHONPATH=scratch + "/z3path:" + scratch + "/src", PYTHONDONTWRITEBYTECODE="1", PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION="python", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MPLCONFIGDIR=scratch)
    return e
def _z3(scratch):
    os.makedirs(scratch + "/z3path"); 
    for n in ("z3",): os.symlink(Z3DIRS[0] + "/" + n, scratch + "/z3path/" + n)
    protos(scratch)
def protos(scratch):
    """copy of the current Python sources with freshly generated protobuf modules"""
    src = REPO + "/src"; dst = scratch + "/src"
    for d, ds, fs in os.walk(src + "/waymo_open_dataset"):
        ds[:] = [x for x in ds if x != "__pycache__"]; t = dst + d[len(src):]
        for f in fs:
            if f.endswith(".py") and not f.endswith("_pb2.py"): os.makedirs(t, exist_ok=True); shutil.copy(d + "/" + f, t + "/" + f)
    pr = []
    for d, ds, fs in os.walk(src + "/waymo_open_dataset"): pr += [d + "/" + f for f in fs if f.endswith(".proto")]
    r = subprocess.run(["protoc", "-I" + src, "--python_out=" + dst] + sorted(pr), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise SystemExit("protoc failed: " + r.stdout[-1000:])
def native(prop, part, tier, assigns, scratch, show=False):
    env = _env(scratch); env["PYTHONPATH"] = scratch + "/src"
    if show: env["VP_SHOW"] = "1"
    try: p = subprocess.run([PY, VERIF + "/engine/py/run.py", "native", prop, part, tier], input="".join(json.dumps(a) + "\n" for a in assigns), stdout=subprocess.PIPE, stderr=None if show else subprocess.DEVNULL, text=True, env=env, timeout=200, cwd=scratch)
    except subprocess.TimeoutExpired: return []
    if show: print(p.stdout)
    return [l[3:] for l in p.stdout.splitlines() if l.startswith("VP_")]
def run(prop, tier):
    from specs_py import SPECS
    spec = SPECS[prop]; t0 = time.time(); ev_dir = os.environ.get("VP_EVIDENCE", VERIF + "/evidence"); os.makedirs(ev_dir, exist_ok=True)
    only = os.environ.get("VP_PART"); scratch = tempfile.mkdtemp(prefix="vp_py_", dir="/tmp"); seed = int(os.environ.get("VERIF_SEED", "1"))
    try: return _run(prop, tier, spec, t0, ev_dir, only, scratch, seed)
    finally: shutil.rmtree(scratch, ignore_errors=True)
def _run(prop, tier, spec, t0, ev_dir, only, scratch, seed):
    _z3(scratch); budget = float(os.environ.get("VP_BUDGET", 240 if tier == "quick" else 800))
    parts = {k: v for k, v in spec["parts"].items() if (not only or k in only.split(",")) and (tier == "thorough" or v.get("tier", "quick") == "quick")}
    jobs = []
    for k, v in parts.items():
        for i, sh in enumerate(v.get("shards_" + tier, v.get("shards", [{}]))): jobs.append((k, i, sh))
    def one(j):
        k, i, sh = j; out = "%s/%s_%d.json" % (scratch, k, i)
        p = subprocess.run([PY, VERIF + "/engine/py/run.py", "explore", prop, k, tier, str(budget), out, json.dumps(sh)], env=_env(scratch), cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if not os.environ.get("VP_TRACE") else None, text=True)
        return k, json.load(open(out)) if os.path.exists(out) else None, (p.stderr or "")[-2000:]
    with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex: res = list(ex.map(one, jobs))
    known = []
    for l in open(VERIF + "/known_findings.txt"):
        if l.startswith("known: property=%s " % prop):
            kv = l.split(" ", 3); known.append((kv[2].split("=", 1)[1], kv[3].strip()))
    problems, viol, knownout = [], [], []; agg = {}; tot = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    tots = {k: 0 for k in ("queries", "sat", "unsat", "unknown", "solver_s", "asserts", "assert_queries", "concretized", "pruned")}
    for k in parts:
        rs = [(r, e) for kk, r, e in res if kk == k]; part = parts[k]; reach = {}; allviol = []; samples = []
        a = agg.setdefault(k, {})
        for r, e in rs:
            if r is None: problems.append((2, "part %s: explorer died: %s" % (k, e))); continue
            if os.environ.get("VP_DEBUG"): print(k, {x: (y[:2] if isinstance(y, list) else round(y, 1) if isinstance(y, float) else y) for x, y in r.items() if x not in ("samples",) and y})
            for x in tots: tots[x] = round(tots[x] + r[x], 3); a[x] = round(a.get(x, 0) + r[x], 3)
            a["paths"] = a.get("paths", 0) + r["paths"]; tot["states"] += r["paths"]; tot["transitions"] += r["events"]; a["max_query_s"] = max(a.get("max_query_s", 0), r["max_query_s"])
            for l, n in r["reach"].items(): reach[l] = reach.get(l, 0) + n
            allviol += r["violations"]; samples += r["samples"]
            if r.get("timeout"): problems.append((0, "part %s: time budget exceeded" % k))
            if r["unknown"]: problems.append((0, "part %s: %d solver unknowns %s" % (k, r["unknown"], r["unknown_why"])))
            if r["lost"]: problems.append((0, "part %s: code left the encoding: %s" % (k, list(r["lost"].items())[:3])))
        got = native(prop, k, tier, [v["assign"] for v in allviol], scratch) if allviol else []
        nv = 0
        for i, v in enumerate(allviol):
            g = got[i] if i < len(got) else "no answer"
            if not g.startswith("fail:"): problems.append((0, "part %s: counterexample for %r did not reproduce natively (%s): %s" % (k, v["id"], g, v["assign"]))); continue
            nv += 1; key = g[5:].replace(" ", "_"); kf = next((d for kk, d in known if kk == key), None)
            path = "%s/replay_%s_%s_%d.json" % (ev_dir, prop, k, i); json.dump(dict(property=prop, part=k, violated=v["id"], assign=v["assign"]), open(path, "w"), indent=1)
            if kf: knownout.append((g[5:], kf))
            else: viol.append((path, v["id"], g, v["assign"]))
        step = max(1, len(samples) // 60); sel = samples[::step][:60]; got = native(prop, k, tier, sel, scratch) if sel else []
        for s, g in zip(sel, got):
            if g == "ok": tot["traces_validated_against_impl"] += 1
            elif g.startswith("fail:") and any(kk == g[5:].replace(" ", "_") for kk, _ in known): pass
            elif g.startswith("fail:") and not nv:
                # the concrete run fails where the path model passed (rounding or lost data flow): a concrete violation all the same
                path = "%s/replay_%s_%s_s.json" % (ev_dir, prop, k); json.dump(dict(property=prop, part=k, violated=g[5:], assign=s), open(path, "w"), indent=1); viol.append((path, g[5:], g, s)); nv += 1
            elif not nv: problems.append((0, "part %s: path model did not replay (%s)" % (k, g)))
        if len(got) < len(sel): problems.append((0, "part %s: replay stopped early" % k))
        for l in part.get("reach", ["end"]):
            if not reach.get(l) and not nv and not problems: problems.append((2, "part %s: witness %r never reached (vacuous)" % (k, l)))
        a["reach"] = reach; a["bounds"] = part.get("bounds_" + tier, part.get("bounds", "")); tot["samples"] += [json.dumps(s)[:300] for s in sel[:3]]
    cov = dict(tot, **tots, parts=agg, functions_encoded=spec.get("functions", []), bounds=spec.get("bounds", ""), exhaustive_within_bounds=not problems and not viol, known_findings_seen=sorted({k for k, _ in knownout}), problems=[x for _, x in problems[:10]])
    json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol)), open("%s/%s.json" % (ev_dir, prop), "w"), indent=1)
    for k, d in sorted(set(knownout)): print("KNOWN-FINDING: property=%s %s (%s)" % (prop, d, k))
    if viol:
        seen = set()
        for path, i, g, a in viol:
            if g in seen: continue
            seen.add(g); print("counterexample: %s -> %s\n  inputs: %s" % (i, g, json.dumps(a)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0])); return 1
    for c, x in problems[:8]: print("%s property=%s %s" % ("INCONCLUSIVE" if c else "PARTIAL", prop, x))
    if any(c for c, _ in problems): return 2
    print("%s property=%s paths=%d queries=%d solver_s=%.1f validated=%d wall_s=%.1f" % ("PARTIAL" if problems else "OK", prop, tot["states"], tots["queries"], tots["solver_s"], tot["traces_validated_against_impl"], time.time() - t0))
    return 0
def replay(prop, part, path):
    scratch = tempfile.mkdtemp(prefix="vp_py_", dir="/tmp")
    try: protos(scratch); native(prop, part, "quick", [json.load(open(path))["assign"]], scratch, True); return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)
