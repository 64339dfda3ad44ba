"""run.py explore PROP PART TIER BUDGET OUT | run.py native PROP PART TIER  (assignments as JSON lines on stdin; one result line each)"""
import importlib, importlib.util, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True; sys.path.insert(0, HERE); sys.path.insert(0, VERIF + "/harness/py")
sys.setrecursionlimit(20000)
def fresh(name):
    for m in [m for m in sys.modules if m == name]: del sys.modules[m]
    return importlib.import_module(name)
class VP:
    """what a harness sees; the same harness runs on symbolic values and, to replay, on concrete ones"""
    def __init__(self, core): self.__dict__["core"] = core
    def __getattr__(self, n): return getattr(self.core, n)
    def check(self, c, what): self.core.check_(c, what)
    @property
    def symbolic(self): return self.core.symbolic
    def arr(self, a, kind="f"):
        import numpy as np
        if self.core.symbolic:
            import sym
            r = sym.SA(np.array(a, dtype=object)); el = sym._el(sym._mk1(sym._cast(kind)))(r.view(np.ndarray)); return sym.wrap(el, kind) if isinstance(el, np.ndarray) else sym.SA(el, kind)
        return np.array(a, dtype={"f": float, "i": np.int64, "b": bool, "f4": np.float32}[kind])
    def and_(self, *x):
        if self.core.symbolic: import sym; return sym.land(*x)
        return all(x)
    def or_(self, *x):
        if self.core.symbolic: import sym; return sym.lor(*x)
        return any(x)
    def not_(self, x):
        if self.core.symbolic: import sym; return sym.lnot(x)
        return not x
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def ite(self, c, a, b):
        if self.core.symbolic: import sym; return sym.ite(c, a, b)
        return a if c else b
    def max(self, *x):
        r = x[0]
        for y in x[1:]: r = self.ite(y > r, y, r)
        return r
    def min(self, *x):
        r = x[0]
        for y in x[1:]: r = self.ite(y < r, y, r)
        return r
    def abs(self, x): return abs(x)
    def pow(self, b, x): return b ** x
    def raises(self, f):
        """(exception or None, result)"""
        try: return None, f()
        except Exception as x: return x, None
    def conc(self, x):
        """a plain number for a symbolic one (every feasible value is explored)"""
        if self.core.symbolic:
            import sym
            if isinstance(x, sym.SN): return self.core.concretize(x)
            if isinstance(x, sym.SB): return bool(x)
        return x
    def load(self, name, **inject):
        """the module under test; in symbolic runs np and some builtins are replaced by versions that accept symbolic values"""
        m = fresh(name)
        if self.core.symbolic:
            import sym
            if hasattr(m, "np"): m.np = sym.Np()
            for k, v in sym.BUILTINS.items(): setattr(m, k, v)
            for k, v in inject.items():
                if hasattr(m, k) or k in ("int", "float", "isinstance", "bool", "print"): setattr(m, k, v)
        return m
def load(prop, part):
    os.environ.setdefault("PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", "python")
    import warnings; warnings.filterwarnings("ignore")
    sys.path.insert(0, VERIF)
    from specs_py import SPECS
    sp = SPECS[prop]; h = importlib.import_module(sp["module"]); pt = sp["parts"][part]
    f = getattr(h, pt.get("fn", part)); args = pt.get("args", {})
    return h, pt, lambda core: f(VP(core), **args)
def main():
    mode, prop, part, tier = sys.argv[1:5]
    os.environ["VP_PYTIER"] = tier
    if mode == "explore":
        budget, out = float(sys.argv[5]), sys.argv[6]; shard = json.loads(sys.argv[7]) if len(sys.argv) > 7 else {}
        import sym
        h, pt, f = load(prop, part); e = sym.Engine(budget, shard, tier == "thorough")
        import numpy as np; np.seterr(all="ignore")
        try:
            if hasattr(h, "setup"): h.setup(VP(e))
            e.run(f)
        except sym.OutOfTime: e.st["timeout"] = True
        r = dict(e.st, reach=e.reached, violations=e.violations, samples=e.samples, lost=e.losts, unknown_why=e.unknowns[:5], lastexc=getattr(e, "lastexc", ""))
        json.dump(r, open(out, "w"))
    else:
        class Off:
            Pruned = None
        # symbolic support is not loaded: the code under test runs on the plain interpreter
        import types; sym = types.ModuleType("sym_off")
        class Control(BaseException): pass
        class Pruned(Control): pass
        class Fail(BaseException): pass
        class Native:
            symbolic = False
            def __init__(self, a, th): self.a = a; self.names = {}; self.reached = {}; self.thorough = th
            def _name(self, n): k = self.names.get(n, 0); self.names[n] = k + 1; return n if k == 0 else "%s_%d" % (n, k)
            def _get(self, n, d): return self.a.get(self._name(n), d)
            def choice(self, n, k): return self._get(n, 0)
            def int(self, n, lo, hi): return self._get(n, lo)
            def grid(self, n, lo, hi, b): return self._get(n, lo) / 2.0 ** b
            def bool(self, n): return self._get(n, 0) == 1
            def assume(self, c):
                if not c: raise Pruned()
            def check_(self, c, what):
                if not c: raise Fail(what)
            def reach(self, l): self.reached[l] = 1
            def lost(self, why): raise Pruned()
            def observe(self, *x): pass
        h, pt, f = load(prop, part)
        import numpy as np; np.seterr(all="ignore")
        if hasattr(h, "setup"): h.setup(VP(Native({}, tier == "thorough")))
        for line in sys.stdin:
            a = json.loads(line)
            n = Native(a, tier == "thorough")
            try: f(n); res = "ok"
            except Pruned: res = "assume"
            except Fail as x: res = "fail:%s" % x
            except (KeyboardInterrupt, SystemExit): raise
            except BaseException as x:
                res = "fail:raises %s" % type(x).__name__
                if os.environ.get("VP_SHOW"): traceback.print_exc()
            if os.environ.get("VP_SHOW"): print("inputs:", a)
            print("VP_" + res, flush=True)
main()
