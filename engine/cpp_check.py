"""Build (from /repo's working tree) and run one solver-based C++ check.  See DESIGN.md, "Engine A"."""
import bisect, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo"); SRC = REPO + "/src"; PKG = "waymo_open_dataset"
PYENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
TF = "/opt/wod/tf/tensorflow"
CXX = "clang++-18"
BASE = ("-std=c++17 -DNDEBUG -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_USE_CXX11_ABI=1 -DEIGEN_MAX_ALIGN_BYTES=64 "
        "-w -fPIC -pthread").split()
SYM = "-O1 -fno-vectorize -fno-slp-vectorize".split()
class Inconclusive(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p

class Builder:
    def __init__(self, scratch):
        self.d = scratch; os.makedirs(self.d + "/gen", exist_ok=True); self.pool = ThreadPoolExecutor(8); self.overlay()
    def overlay(self):
        """absl hash tables with a reproducible iteration order that the harness chooses (vp_hash_salt)"""
        for h, old, new in (("absl/container/internal/raw_hash_set.h", "return reinterpret_cast<uintptr_t>(ctrl) >> 12;", "return vp_hash_salt + 0 * reinterpret_cast<uintptr_t>(ctrl);"),
                            ("google/protobuf/map.h", "size_type s = reinterpret_cast<uintptr_t>(this) >> 4;", "if (true) return 1; size_type s = 0;"),
                            ("absl/hash/internal/hash.h", "reinterpret_cast<uintptr_t>(&kSeed)", "0x9E3779B97F4A7C15ull")):
            s = open(TF + "/include/" + h).read(); t = s.replace(old, new).replace("extern template FindInfo find_first_non_full(const CommonFields&, size_t);", "")
            if s == t: raise Inconclusive("hash overlay does not apply to " + h)
            o = self.d + "/ovl/" + h; os.makedirs(os.path.dirname(o), exist_ok=True)
            i = t.index("namespace google {" if "protobuf" in h else "namespace absl {"); open(o, "w").write(t[:i] + 'extern "C" unsigned long vp_hash_salt;\n' + t[i:])
    def inc(self):
        return ["-I" + HERE + "/cpp", "-I" + VERIF + "/harness/cpp", "-I" + SRC, "-I" + self.d + "/gen", "-isystem", self.d + "/ovl", "-isystem", TF + "/include", "-isystem", "/usr/include/android"]
    def must(self, cmd, what):
        p = sh(cmd)
        if p.returncode: raise Inconclusive("build failed (%s): %s" % (what, p.stderr[-3000:]))
    def plugin(self):
        fl = [f for f in sh(["llvm-config-18", "--cxxflags"]).stdout.split() if not f.startswith("-std") and f != "-fno-exceptions"]
        self.must([CXX, "-shared", "-fPIC", "-O1", "-std=c++17"] + fl + [HERE + "/cpp/pass.cpp", "-o", self.d + "/vpsym.so"], "pass plugin")
    def runtime(self):
        self.must(["g++", "-std=c++17", "-O2", "-w", "-c", HERE + "/cpp/runtime.cc", "-I" + PYENV + "/include", "-o", self.d + "/runtime.o"], "runtime")
    def replayobj(self):
        self.must(["g++", "-std=c++17", "-O1", "-w", "-c", HERE + "/cpp/replay.cc", "-o", self.d + "/replay.o"], "replay")
    def protos(self, names):
        """names: proto files relative to the package; dependencies are followed"""
        seen, todo = [], [n if n.startswith("tensorflow/") else "%s/%s" % (PKG, n) for n in names]
        while todo:
            p = todo.pop()
            if p in seen: continue
            seen.append(p)
            if p.startswith("tensorflow/"): continue
            for m in re.findall(r'^import (?:public )?"(waymo_open_dataset/[^"]+)"', open(SRC + "/" + p).read(), re.M): todo.append(m)
        self.must(["protoc", "-I" + SRC, "-I" + TF + "/include", "--cpp_out=" + self.d + "/gen"] + seen, "protoc")
        return [self.d + "/gen/" + p[:-6] + ".pb.cc" for p in seen]
    def obj(self, src, sym, defs=()):
        key = hashlib.sha1((src + str(sym) + " ".join(defs)).encode()).hexdigest()[:12]
        out = "%s/%s_%s.o" % (self.d, os.path.basename(src), key)
        cmd = [CXX] + BASE + (SYM + ["-fpass-plugin=" + self.d + "/vpsym.so"] if sym else ["-O1"]) + list(defs) + self.inc() + ["-c", src, "-o", out]
        return cmd, out
    def link(self, objs, out, sym, extra=()):
        libs = ["-L" + TF, "-Wl,-rpath," + TF, "-l:libtensorflow_framework.so.2", "-lglog", "-lz", "-lpthread", "-ldl"] + list(extra)
        if sym: libs = ["-L" + PYENV + "/lib", "-Wl,-rpath," + PYENV + "/lib", "-lz3"] + libs
        self.must([CXX] + objs + ["-o", out] + libs, "link")

def build(spec, scratch, defs=()):
    """returns {part: (sym_exe, native_exe)}"""
    b = Builder(scratch); parts = spec["parts"]
    f_plug = b.pool.submit(b.plugin); f_rt = b.pool.submit(b.runtime); f_rp = b.pool.submit(b.replayobj)
    pbs = b.protos(spec["protos"]) if spec.get("protos") else []
    common = [SRC + "/" + PKG + "/" + s for s in spec.get("srcs", [])] + [VERIF + "/harness/cpp/" + s for s in spec.get("common", [])] + pbs
    jobs = []; natj = []
    def plan(sym):
        co = []
        for s in common: cmd, o = b.obj(s, sym, spec.get("defs", [])); (jobs if sym else natj).append((cmd, s)); co.append(o)
        res = {}
        for name, part in parts.items():
            d = list(defs) + list(part.get("defs", [])) + list(spec.get("defs", []))
            cmd, o = b.obj(VERIF + "/harness/cpp/" + part["harness"], sym, d); (jobs if sym else natj).append((cmd, part["harness"]))
            extra = []
            for s in part.get("srcs", []): cmd, o2 = b.obj(SRC + "/" + PKG + "/" + s, sym, spec.get("defs", [])); (jobs if sym else natj).append((cmd, s)); extra.append(o2)
            res[name] = [o] + extra + co
        return res
    so, no = plan(True), plan(False)
    uniq = {}
    futs = [b.pool.submit(b.must, c, s) for c, s in {tuple(c): (c, s) for c, s in natj}.values()]
    f_plug.result()
    futs = [b.pool.submit(b.must, c, s) for c, s in {tuple(c): (c, s) for c, s in jobs}.values()] + futs
    f_rt.result(); f_rp.result()
    for f in futs: f.result()
    out = {}; lf = []
    for name in parts:
        se, ne = scratch + "/sym_" + name, scratch + "/nat_" + name
        lf.append(b.pool.submit(b.link, so[name] + [scratch + "/runtime.o"], se, True, spec.get("libs", [])))
        lf.append(b.pool.submit(b.link, no[name] + [scratch + "/replay.o"], ne, False, spec.get("libs", [])))
        out[name] = (se, ne)
    for f in lf: f.result()
    b.pool.shutdown()
    return out

def functions(exe, sites):
    p = sh(["nm", "-nC", "--defined-only", exe]); addrs, names = [], []
    for l in p.stdout.splitlines():
        m = re.match(r"([0-9a-f]+) [tTwWuV] (.*)", l)
        if m: addrs.append(int(m.group(1), 16)); names.append(m.group(2))
    s = set()
    for a in sites:
        i = bisect.bisect_right(addrs, a) - 1
        if i >= 0: s.add(names[i])
    s = {re.sub(r"\(.*", "", x) for x in s}
    return sorted(x for x in s if "waymo::open_dataset" in x and not re.match(r"^(std::|void std::|bool std::|google::)", x))[:200]

def load_known(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def run_native(exe, path):
    try: p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=30, env=dict(os.environ, TF_ENABLE_ONEDNN_OPTS="0"))
    except subprocess.TimeoutExpired: return "timeout", ""
    m = re.search(r"^VP_FAIL (.*)$", p.stdout, re.M)
    if m: return "fail:" + m.group(1), p.stderr
    if p.returncode < 0: return "crash:%d" % -p.returncode, p.stderr
    if "VP_ASSUME" in p.stdout: return "assume", p.stderr
    return "ok", p.stderr

def run(prop, spec, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir="/tmp"); ev_dir = VERIF + "/evidence"; os.makedirs(ev_dir, exist_ok=True)
    keep = os.environ.get("VP_KEEP")
    try:
        return _run(prop, spec, tier, seed, scratch, ev_dir, t0)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e)); return 2
    finally:
        if not keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print("kept", scratch)

def _run(prop, spec, tier, seed, scratch, ev_dir, t0):
    defs = ["-DVP_THOROUGH=1"] if tier == "thorough" else ["-DVP_THOROUGH=0"]
    only = os.environ.get("VP_PART")
    if only: spec = dict(spec, parts={k: v for k, v in spec["parts"].items() if k in only.split(",")})
    spec = dict(spec, parts={k: v for k, v in spec["parts"].items() if v.get("tier", tier) == tier})
    exes = build(spec, scratch, defs); tb = time.time() - t0
    known = load_known(prop); cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    agg = dict(parts={}, queries=0, sat=0, unsat=0, solver_s=0.0, assertions=0, assertion_queries=0, alternate_models_ok=0, boundary_paths=0)
    funcs = set(); problems = []; fatal = []; viol_out = []; known_out = []
    total_budget = float(os.environ.get("VP_BUDGET", "0")) or (700.0 if tier == "quick" else 3.0 * 3600)
    for name, part in spec["parts"].items():
        se, ne = exes[name]; left = total_budget - (time.time() - t0)
        env = dict(os.environ, VP_TIME="%d" % max(5, left), VP_ALT=str(part.get("alt", 25)), TF_ENABLE_ONEDNN_OPTS="0", TF_CPP_MIN_LOG_LEVEL="3", VERIF_SEED=str(seed), VP_JOBS=os.environ.get("VP_JOBS", "8"), VP_GRACE="0" if known else "200")  # with a counterexample at hand, 200 s more for others
        env.update(part.get("env", {}))
        jf = scratch + "/out_%s.json" % name
        p = subprocess.run([se, jf], env=env, stdout=subprocess.DEVNULL, stderr=None if os.environ.get("VP_SLOW") else subprocess.DEVNULL)
        if not os.path.exists(jf): raise Inconclusive("part %s: explorer died (%s)" % (name, p.returncode))
        r = json.load(open(jf))
        if os.environ.get("VP_DEBUG"): print(name, {k: v for k, v in r.items() if k not in ("samples", "sites", "violations")}); [print("  V", v) for v in r["violations"]]
        cov["states"] += r["paths"]; cov["transitions"] += r["events"]
        for a, k in (("queries", "queries"), ("sat", "sat"), ("unsat", "unsat"), ("solver_s", "solver_s"), ("assertions", "asserts"), ("assertion_queries", "assert_queries"), ("alternate_models_ok", "alt_ok"), ("boundary_paths", "boundary")): agg[a] = round(agg[a] + r[k], 3)
        funcs |= set(functions(se, r["sites"]))
        # violations: replay each against the uninstrumented build
        nviol = 0
        for i, v in enumerate(r["violations"]):
            key = v["id"] + ("|" + v["notes"] if v["notes"] else "")
            path = "%s/replay_%s_%s_%d.txt" % (ev_dir, prop, name, i)
            with open(path, "w") as f: f.write("# property %s part %s\n# violated: %s\n# to replay: python3 check.py --replay %s %s %s\n%s\n" % (prop, name, key, prop, name, path, v["assign"]))
            got, err = run_native(ne, path)
            if got in ("ok", "assume", "timeout"):
                problems.append("part %s: counterexample for %s did not reproduce natively (%s): %s" % (name, key, got, v["assign"][:300])); continue
            nviol += 1
            kk = next((d for k, d in known if k == key.replace(" ", "_") or k == ("*crash*" if got.startswith("crash") else None)), None)
            if kk is not None: known_out.append((key, kk))
            else: viol_out.append((path, key, got, v["assign"][:400], err[-400:]))
        if r["timeout"]: problems.append("part %s: time budget exceeded with %d pending paths" % (name, r["pending"]))
        elif r["pending"] and not nviol: problems.append("part %s: %d pending paths" % (name, r["pending"]))
        if r["unknown"]: problems.append("part %s: %d solver unknowns %s" % (name, r["unknown"], list(r["unknown_why"])[:3]))
        if r["diverged"]: problems.append("part %s: %d diverged paths %s" % (name, r["diverged"], r["diverged_samples"][:1]))
        lost = {k: v for k, v in r["lost"].items() if not any(re.search(x, k) for x in part.get("ok_lost", spec.get("ok_lost", [])))}
        if lost: problems.append("part %s: data flow left the encoding: %s" % (name, list(lost.items())[:4]))
        if r["alt_bad"] and not part.get("alt_ok"): problems.append("part %s: %d alternate models left their path (lost data flow), e.g. %s" % (name, r["alt_bad"], r["alt_bad_samples"][:1]))
        for lab in part.get("reach", ["end"]):
            if not r["reach"].get(lab) and not nviol: fatal.append("part %s: witness %r never reached (vacuous)" % (name, lab))
        # validate path models natively
        smp = r["samples"]; step = max(1, len(smp) // 60); sel = smp[::step][:60]
        inp = "".join(s.split(" ", 1)[0] + "\n" for s in sel)
        try: q = subprocess.run([ne, "-batch"], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, env=dict(os.environ, TF_ENABLE_ONEDNN_OPTS="0")).stdout.splitlines()
        except subprocess.TimeoutExpired: q = []
        q = [l for l in q if l.startswith("VP_")]; okv = 0
        for s, l in zip(sel, q):
            o = s.split(" ", 1)[1] if " " in s else ""
            if l.startswith("VP_END") and l[7:].strip() == o.strip(): okv += 1
            elif not nviol: problems.append("part %s: native replay of path model differs: %s vs %s for %s" % (name, l[:200], o[:200], s[:200]))
        cov["traces_validated_against_impl"] += okv
        cov["samples"] += [s.strip()[:300] for s in sel[:3]]
        agg["parts"][name] = dict(paths=r["paths"], pruned_by_assumption=r["assume_pruned"], branch_decisions=r["events"], max_branch_decisions_on_a_path=r["max_events"], queries=r["queries"], sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"], integer_real_queries=r["e1"], bitvector_queries=r["e2"], solver_s=r["solver_s"], max_query_s=r["max_query_s"], wall_s=r["wall_s"], reach=r["reach"], violations=len(r["violations"]), bounds=part.get("bounds_" + tier, part.get("bounds", "")), exhausted=not r["timeout"] and r["pending"] == 0)
        if viol_out: break
    cov.update(agg); cov["functions_encoded"] = sorted(funcs); cov["bounds"] = spec.get("bounds", ""); cov["build_s"] = round(tb, 1)
    cov["exhaustive_within_bounds"] = not problems and not fatal and not viol_out
    cov["known_findings_seen"] = sorted({k for k, _ in known_out}); cov["problems"] = (fatal + problems)[:10]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol_out))
    json.dump(ev, open("%s/%s.json" % (ev_dir, prop), "w"), indent=1)
    for k, d in sorted(set(known_out)): print("KNOWN-FINDING: property=%s %s (%s)" % (prop, d, k))
    if viol_out:
        seen = set()
        for path, key, got, asg, err in viol_out:
            if key in seen: continue
            seen.add(key); print("counterexample: %s -> %s\n  inputs: %s\n  %s" % (key, got, asg, err.strip().replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, viol_out[0][0])); return 1
    if fatal:
        for x in fatal + problems: print("INCONCLUSIVE property=%s %s" % (prop, x))
        return 2
    # the property held on everything explored; what could not be decided is reported and recorded (exhaustive_within_bounds is false)
    for x in problems: print("PARTIAL property=%s %s" % (prop, x))
    print(("OK" if not problems else "PARTIAL") + " property=%s paths=%d queries=%d solver_s=%.1f validated=%d wall_s=%.1f (build %.1f)" % (prop, cov["states"], cov["queries"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0, tb))
    return 0

def replay(prop, spec, part, path):
    scratch = tempfile.mkdtemp(prefix="vp_replay_", dir="/tmp")
    try:
        b = Builder(scratch); pt = spec["parts"][part]; pbs = b.protos(spec["protos"]) if spec.get("protos") else []
        b.replayobj(); objs = []
        jobs = [b.obj(s, False, spec.get("defs", [])) for s in [SRC + "/" + PKG + "/" + s for s in list(spec.get("srcs", [])) + list(pt.get("srcs", []))] + [VERIF + "/harness/cpp/" + s for s in spec.get("common", [])] + pbs] + [b.obj(VERIF + "/harness/cpp/" + pt["harness"], False, list(pt.get("defs", [])) + list(spec.get("defs", [])) + ["-DVP_THOROUGH=0"])]
        list(b.pool.map(lambda j: b.must(j[0], "obj"), jobs)); b.link([j[1] for j in jobs] + [scratch + "/replay.o"], scratch + "/r", False, spec.get("libs", []))
        os.environ["VP_SHOW"] = "1"; p = subprocess.run([scratch + "/r", path]); print("exit", p.returncode); return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)
