"""Symbolic values inside the interpreter: numbers and booleans that carry Z3 terms, numpy arrays of them, and a path explorer by re-execution."""
import math, operator, os, sys, time
from fractions import Fraction
import numpy as np
import z3

class Control(BaseException): pass
class Pruned(Control): pass      # assumption not satisfiable on this path
class Lost(Control): pass        # the code left the supported fragment
class Failed(Control): pass      # a check failed for every remaining value
class OutOfTime(Control): pass

ENG = None

def _const(x):
    """python/numpy number -> Fraction or int (None: not a plain finite number)"""
    if isinstance(x, (bool, np.bool_)): return int(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, Fraction): return x
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return Fraction(f) if math.isfinite(f) else None
    if isinstance(x, np.ndarray) and x.ndim == 0: return _const(x.item())
    return None

def _lit(c, real):
    if real or isinstance(c, Fraction) and c.denominator != 1: return z3.RealVal(str(Fraction(c)))
    return z3.IntVal(int(c))

def _isint(e): return e.sort() == z3.IntSort()
def _real(e): return z3.ToReal(e) if _isint(e) else e

class SB:
    """symbolic truth value"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __bool__(self): return ENG.fork(self.e)
    def __and__(self, o): o = sb(o); return mkb(z3.And(self.e, o.e)) if isinstance(o, SB) else (self if o else False)
    def __or__(self, o): o = sb(o); return mkb(z3.Or(self.e, o.e)) if isinstance(o, SB) else (True if o else self)
    def __xor__(self, o): o = sb(o); return mkb(z3.Xor(self.e, o.e)) if isinstance(o, SB) else (~self if o else self)
    __rand__ = __and__; __ror__ = __or__; __rxor__ = __xor__
    def __invert__(self): return mkb(z3.Not(self.e))
    def logical_not(self): return mkb(z3.Not(self.e))
    def logical_and(self, o): return self & o
    def logical_or(self, o): return self | o
    def num(self): return SN(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __eq__(self, o):
        if isinstance(o, SB): return mkb(self.e == o.e)
        if isinstance(o, (bool, np.bool_)): return self if o else ~self
        return self.num() == o
    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SB) else not r
    def __hash__(self): return 12345
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return self.num() + o
    def __sub__(self, o): return self.num() - o
    def __mul__(self, o): return self.num() * o
    def __radd__(self, o): return o + self.num()
    def __rsub__(self, o): return o - self.num()
    def __rmul__(self, o): return o * self.num()
    def __truediv__(self, o): return self.num() / o
    def __repr__(self): return "SB(%s)" % self.e

def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SB(e)
def sb(x):
    if isinstance(x, SB): return x
    if isinstance(x, SN): return mkb(x.e != 0)
    return bool(x)
def be(x):
    x = sb(x)
    return x.e if isinstance(x, SB) else z3.BoolVal(bool(x))

def mkn(e):
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        d = f.denominator
        if d & (d - 1) == 0 and Fraction(float(f)) == f: return float(f)
    return SN(e)
def sn(x):
    """SN, or None if not a number"""
    if isinstance(x, SN): return x
    if isinstance(x, SB): return x.num()
    c = _const(x)
    if c is None: return None
    return c

class SN:
    """symbolic number (Z3 integer or real term)"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    @property
    def is_int(self): return _isint(self.e)
    def _bin(self, o, f, real=False):
        if isinstance(o, np.ndarray): return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(float(o)): raise Lost("arithmetic with %s" % o)
        o2 = sn(o)
        if o2 is None: return NotImplemented
        if not isinstance(o2, SN):
            fl = isinstance(o, (float, np.floating, Fraction))
            a, b = self.e, _lit(o2, fl or real or not self.is_int)
        else: a, b = self.e, o2.e
        if real or _isint(a) != _isint(b): a, b = _real(a), _real(b)
        return f(a, b)
    def _num(self, o, f, real=False):
        r = self._bin(o, f, real)
        return r if r is NotImplemented else mkn(z3.simplify(r))
    def __add__(self, o): return self._num(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._num(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._num(o, lambda a, b: b - a)
    def __mul__(self, o): return self._num(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        z = o == 0
        if isinstance(z, SB): z = bool(z)
        if z:
            if isinstance(o, (np.floating, SN)) or isinstance(o, np.integer):
                if bool(self > 0): return math.inf
                return -math.inf if bool(self < 0) else math.nan
            raise ZeroDivisionError("division by zero")
        return self._num(o, lambda a, b: a / b, True)
    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        if bool(self == 0):
            if isinstance(o, np.generic) or isinstance(o, SN): return math.inf * float(np.sign(o)) if not isinstance(o, SN) else math.nan
            raise ZeroDivisionError("division by zero")
        return self._num(o, lambda a, b: b / a, True)
    def __floordiv__(self, o):
        z = o == 0
        if bool(z): raise ZeroDivisionError("integer division or modulo by zero")
        def f(a, b):
            if _isint(a): # z3 div is euclidean
                return z3.If(b > 0, a / b, (-a) / (-b))
            return z3.ToInt(a / b)
        return self._num(o, f)
    def __rfloordiv__(self, o): return SN(_lit(_const(o), False)) // self
    def __mod__(self, o):
        q = self // o
        return self - q * o
    def __rmod__(self, o): return SN(_lit(_const(o), False)) % self
    def __divmod__(self, o): return self // o, self % o
    def __neg__(self): return mkn(z3.simplify(-self.e))
    def __pos__(self): return self
    def __abs__(self): return mkn(z3.simplify(z3.If(self.e < 0, -self.e, self.e)))
    fabs = __abs__; absolute = __abs__
    def _cmp(self, o, f, inf):
        if isinstance(o, np.ndarray): return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(float(o)):
            return False if math.isnan(o) else inf(float(o))
        r = self._bin(o, f)
        return r if r is NotImplemented else mkb(r)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        if isinstance(o, (float, np.floating)) and math.isnan(o): return True
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r
    def __hash__(self): return 12345
    def __bool__(self): return ENG.fork(self.e != 0)
    def logical_not(self): return mkb(self.e == 0)
    def __invert__(self): return -self - 1 if self.is_int else ENG.lost("~ on a real")
    def trunc(self):
        if self.is_int: return self
        return mkn(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))
    __trunc__ = trunc
    def floor(self): return self if self.is_int else mkn(z3.simplify(z3.ToInt(self.e)))
    def ceil(self): return self if self.is_int else mkn(z3.simplify(-z3.ToInt(-self.e)))
    __floor__ = floor; __ceil__ = ceil
    def rint(self):
        if self.is_int: return self
        f = z3.ToInt(self.e); d = self.e - z3.ToReal(f); h = z3.RealVal("1/2")
        return mkn(z3.simplify(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))))
    def __round__(self, n=None):
        if n in (None, 0): return self.rint()
        return (self * 10 ** n).rint() / 10 ** n
    def round(self, n=0): return self.__round__(n)
    def sqrt(self):
        r = ENG.fresh(z3.RealSort()); ENG.axiom(z3.And(r >= 0, z3.Or(_real(self.e) < 0, r * r == _real(self.e)))); return SN(r)
    def __pow__(self, o):
        c = _const(o)
        if c is not None and c == 0.5: return self.sqrt()
        if isinstance(c, int) or isinstance(c, Fraction) and c.denominator == 1:
            c = int(c); r = 1
            for _ in range(abs(c)): r = r * self
            return r if c >= 0 else 1 / r
        return ENG.lost("power")
    def __rpow__(self, o):
        c = _const(o)
        if c is None or not 0 < c < 1: return ENG.lost("power")
        return ENG.power(Fraction(c), self)
    def square(self): return self * self
    def conjugate(self): return self
    def sign(self): return SN(z3.If(self.e > 0, z3.IntVal(1), z3.If(self.e < 0, z3.IntVal(-1), z3.IntVal(0))))
    def isnan(self): return False
    def isfinite(self): return True
    def isinf(self): return False
    def item(self): return self
    def is_integer(self): return mkb(_real(self.e) == z3.ToReal(z3.ToInt(_real(self.e))))
    def __int__(self):
        t = self.trunc()
        return t if isinstance(t, int) else int(ENG.concretize(t))
    def __index__(self):
        if not self.is_int: raise TypeError("'float' object cannot be interpreted as an integer")
        return int(ENG.concretize(self))
    def __float__(self): return float(ENG.concretize(self))
    def __repr__(self): return "SN(%s)" % self.e
    def __format__(self, spec): return "?" if ENG.opaque_text else format(ENG.concretize(self), spec)
    def __str__(self): return str(ENG.concretize(self))

def ite(c, a, b):
    c = sb(c)
    if not isinstance(c, SB): return a if c else b
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return mkb(z3.If(c.e, be(a), be(b)))
    x, y = sn(a), sn(b)
    if x is None or y is None: return a if bool(c) else b
    fl = any(isinstance(v, (float, np.floating, Fraction)) for v in (a, b))
    x = x.e if isinstance(x, SN) else _lit(x, fl); y = y.e if isinstance(y, SN) else _lit(y, fl)
    if _isint(x) != _isint(y): x, y = _real(x), _real(y)
    return mkn(z3.simplify(z3.If(c.e, x, y)))
def maximum(a, b):
    if not issym(a) and not issym(b): return a if a >= b else b
    return ite(a >= b if isinstance(a, SN) else b <= a, a, b)
def minimum(a, b):
    if not issym(a) and not issym(b): return a if a <= b else b
    return ite(a <= b if isinstance(a, SN) else b >= a, a, b)
def issym(x): return isinstance(x, (SN, SB))
def land(*xs):
    r = [sb(x) for x in xs]
    if any(x is False for x in r): return False
    r = [x.e for x in r if isinstance(x, SB)]
    return mkb(z3.And(r)) if r else True
def lor(*xs):
    r = [sb(x) for x in xs]
    if any(x is True for x in r): return True
    r = [x.e for x in r if isinstance(x, SB)]
    return mkb(z3.Or(r)) if r else False
def lnot(x):
    x = sb(x)
    return ~x if isinstance(x, SB) else not x

# ---------------------------------------------------------------- arrays
def _el(f): return np.frompyfunc(f, f.__code__.co_argcount, 1)
_CMP = {np.less: operator.lt, np.less_equal: operator.le, np.greater: operator.gt, np.greater_equal: operator.ge, np.equal: operator.eq, np.not_equal: operator.ne}
def _cast(kind):
    def f(x):
        if kind == "i":
            if isinstance(x, SB): return x.num()
            if isinstance(x, SN): return x.trunc()
            return int(x)
        if kind == "b": return sb(x)
        if isinstance(x, SB): x = x.num()
        if isinstance(x, SN): return SN(_real(x.e))
        return float(x)
    return f
def kindof(dtype):
    k = np.dtype(dtype).kind
    return {"i": "i", "u": "i", "b": "b", "f": "f"}.get(k)

class SA(np.ndarray):
    """numpy array of symbolic values; comparisons, minimum/maximum, where, any/all keep the cases in one term"""
    def __new__(cls, a, kind=None):
        r = np.asarray(a, dtype=object).view(cls); r.kind = kind; return r
    def __array_finalize__(self, o): self.kind = getattr(o, "kind", None)
    def astype(self, dtype, *a, **k):
        if dtype is object or np.dtype(dtype).kind == "O": return self.copy()
        kd = kindof(dtype)
        if kd is None: raise Lost("astype %s" % dtype)
        return wrap(_el(_mk1(_cast(kd)))(self.view(np.ndarray)), kd)
    def __setitem__(self, i, v):
        if isinstance(i, SA) and i.shape == self.shape and np.ndim(v) == 0 and (i.kind == "b" or any(isinstance(x, SB) for x in i.view(np.ndarray).reshape(-1))):
            c = _cast(self.kind)(v) if self.kind else v; me = self.view(np.ndarray); m = i.view(np.ndarray)
            for k in np.ndindex(*me.shape): np.ndarray.__setitem__(me, k, ite(m[k], c, me[k]))
            return
        if self.kind and (isinstance(v, np.ndarray) or isinstance(v, (list, tuple))):
            v = _el(_mk1(_cast(self.kind)))(np.asarray(v, dtype=object))
        elif self.kind: v = _cast(self.kind)(v)
        np.ndarray.__setitem__(self.view(np.ndarray), _idx(i), v)
    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self.view(np.ndarray), _idx(i))
        return wrap(r, self.kind) if isinstance(r, np.ndarray) else r
    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        ins = [x.view(np.ndarray) if isinstance(x, SA) else x for x in inputs]
        kw.pop("dtype", None); where = kw.pop("where", True)
        if where is not True: raise Lost("ufunc where")
        kind = None
        if uf in _CMP: g = _el(_mk2(_CMP[uf])); kind = "b"
        elif uf in (np.logical_and, np.bitwise_and) and (uf is np.logical_and or _boolish(ins)): g = _el(_mk2(land)); kind = "b"
        elif uf in (np.logical_or, np.bitwise_or) and (uf is np.logical_or or _boolish(ins)): g = _el(_mk2(lor)); kind = "b"
        elif uf is np.logical_not or uf is np.invert and _boolish(ins): g = _el(_mk1(lnot)); kind = "b"
        elif uf in (np.maximum, np.fmax): g = _el(_mk2(maximum))
        elif uf in (np.minimum, np.fmin): g = _el(_mk2(minimum))
        elif uf is np.hypot: g = _el(_mk2(lambda a, b: _sqrt(a * a + b * b)))
        elif uf is np.sqrt: g = _el(_mk1(_sqrt))
        elif uf is np.isnan: g = _el(_mk1(lambda x: False if issym(x) else math.isnan(x))); kind = "b"
        elif uf is np.isfinite: g = _el(_mk1(lambda x: True if issym(x) else math.isfinite(x))); kind = "b"
        elif uf in (np.power, np.float_power): g = _el(_mk2(operator.pow))
        elif uf is np.true_divide: g = _el(_mk2(_div))
        elif uf is np.divmod and method == "__call__" and out is None: return np.floor_divide(*inputs), np.remainder(*inputs)
        elif uf in (np.floor_divide, np.remainder): g = _el(_mk2(operator.floordiv if uf is np.floor_divide else operator.mod))
        elif uf in (np.floor, np.ceil, np.rint, np.trunc): nm = uf.__name__; g = _el(_mk1(lambda x: getattr(x, nm)() if issym(x) else getattr(np, nm)(x)))
        elif uf in (np.absolute, np.fabs): g = _el(_mk1(abs))
        elif uf is np.sign: g = _el(_mk1(lambda x: x.sign() if issym(x) else np.sign(x)))
        elif uf is np.square: g = _el(_mk1(lambda x: x * x))
        elif uf in (np.sin, np.cos, np.tan, np.exp, np.log, np.arctan2, np.arctan, np.degrees, np.radians, np.rad2deg, np.deg2rad):
            if any(has(x) for x in ins):
                if uf in (np.degrees, np.rad2deg): g = _el(_mk1(lambda x: x * (180 / math.pi)))
                elif uf in (np.radians, np.deg2rad): g = _el(_mk1(lambda x: x * (math.pi / 180)))
                else: raise Lost("ufunc " + uf.__name__)
            else: return SA(uf(*[np.asarray(x, dtype=float) for x in ins]).astype(object), "f")
        else: g = uf
        try:
            if method == "__call__": r = g(*ins)
            elif method == "reduce":
                a = ins[0]; ax = kw.get("axis", 0); keep = kw.get("keepdims", False); init = kw.get("initial", np._NoValue)
                r = reduce_(g, a, ax, keep, init, uf)
            elif method == "accumulate": r = g.accumulate(ins[0], **kw)
            elif method == "outer": r = g.outer(*ins)
            elif method == "at": g.at(*ins); return None
            else: raise Lost("ufunc method " + method)
        except AttributeError as x: raise Lost("%s: %s" % (uf, x))
        if out is not None:
            o = out[0]
            if isinstance(o, SA): o[...] = r; return o
            np.copyto(o, r); return o
        return wrap(r, kind) if isinstance(r, np.ndarray) else r
    def __array_function__(self, func, types, args, kw):
        h = _FUNC.get(func)
        if h: return h(*args, **kw)
        r = super().__array_function__(func, types, args, kw)
        return wrap(r, getattr(r, "kind", None)) if isinstance(r, np.ndarray) else r
    def any(self, axis=None, out=None, keepdims=False): return _any(self, axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False): return _all(self, axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return np.maximum.reduce(self, axis=axis, keepdims=keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return np.minimum.reduce(self, axis=axis, keepdims=keepdims)
    def round(self, decimals=0, out=None):
        if decimals: raise Lost("round decimals")
        return np.rint(self)
    def clip(self, lo=None, hi=None, out=None): return _clip(self, lo, hi)
    def tolist(self): return self.view(np.ndarray).tolist()
    def item(self, *a): return self.view(np.ndarray).item(*a)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = self.size if axis is None else int(np.prod([self.shape[a] for a in (axis if isinstance(axis, tuple) else (axis,))]))
        return np.add.reduce(self, axis=axis if axis is not None else tuple(range(self.ndim)), keepdims=keepdims) / n
    def argmax(self, axis=None, out=None, **k): return _arg(self, axis, lambda a, b: a > b)
    def argmin(self, axis=None, out=None, **k): return _arg(self, axis, lambda a, b: a < b)
    def nonzero(self): return np.nonzero(_bools(self))
    def __bool__(self):
        if self.size != 1: raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.item())
    def __contains__(self, x): return any(bool(y == x) for y in self.ravel().tolist())

def _mk1(f):
    def g(x): return f(x)
    return g
def _mk2(f):
    def g(x, y): return f(x, y)
    return g
def _sqrt(x): return x.sqrt() if isinstance(x, SN) else math.sqrt(x) if x >= 0 else math.nan
def _div(a, b):
    if not issym(b) and not issym(a):
        with np.errstate(all="ignore"): return np.float64(a) / np.float64(b)
    if issym(b): return a / b
    if b == 0: return a / np.float64(0)
    return a / b
def _boolish(ins): return all(all(isinstance(v, (SB, bool, np.bool_)) for v in np.asarray(x, dtype=object).ravel().tolist()) for x in ins)
def _bools(a): return np.array([bool(v) for v in np.asarray(a, dtype=object).view(np.ndarray).ravel().tolist()], dtype=bool).reshape(np.shape(a))
def _idx1(i):
    if isinstance(i, SA):
        v = i.ravel().tolist()
        if i.kind == "b" or any(isinstance(x, (SB, bool, np.bool_)) for x in v): return _bools(i)
        return np.array([int(x) for x in v], dtype=int).reshape(i.shape)
    if isinstance(i, SB): return bool(i)
    if isinstance(i, SN): return int(i)
    return i
def _idx(i): return tuple(_idx1(x) for x in i) if isinstance(i, tuple) else _idx1(i)
def wrap(r, kind=None):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            r = r.view(SA); r.kind = kind
        return r
    return r
def reduce_(g, a, axis, keep, init, uf):
    a = np.asarray(a, dtype=object)
    if axis is None: axes = tuple(range(a.ndim))
    else: axes = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    ident = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False}.get(uf)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        v = b[i].tolist(); r = init if init is not np._NoValue and init is not None else None
        if r is None:
            if not v:
                if ident is None: raise ValueError("zero-size array to reduction operation %s which has no identity" % uf.__name__)
                r = ident
            else:
                r = v[0]; v = v[1:]
                if uf in (np.logical_and, np.logical_or): r = sb(r)
        for x in v: r = g(r, x)
        out[i] = r
    if keep: out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out if out.ndim else out.item()

_FUNC = {}
def impl(*fs):
    def d(g):
        for f in fs: _FUNC[f] = g
        return g
    return d
def _arr(x): return np.asarray(x, dtype=object).view(np.ndarray) if not (isinstance(x, np.ndarray) and x.dtype != object) else x
@impl(np.where)
def _where(c, *ab):
    c = _arr(c)
    if not ab: return np.nonzero(_bools(c))
    return wrap(_el(_mk3(ite))(c, _arr(ab[0]), _arr(ab[1])))
def _mk3(f):
    def g(x, y, z): return f(x, y, z)
    return g
@impl(np.any, np.sometrue)
def _any(a, axis=None, out=None, keepdims=False, where=None): return np.logical_or.reduce(SA(a), axis=axis, keepdims=keepdims or False)
@impl(np.all, np.alltrue)
def _all(a, axis=None, out=None, keepdims=False, where=None): return np.logical_and.reduce(SA(a), axis=axis, keepdims=keepdims or False)
@impl(np.amax, np.max)
def _amax(a, axis=None, out=None, keepdims=False, **k): return np.maximum.reduce(SA(a), axis=axis, keepdims=keepdims or False)
@impl(np.amin, np.min)
def _amin(a, axis=None, out=None, keepdims=False, **k): return np.minimum.reduce(SA(a), axis=axis, keepdims=keepdims or False)
@impl(np.mean, np.average)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k): return SA(a).mean(axis=axis, keepdims=keepdims or False)
@impl(np.clip)
def _clip(a, lo=None, hi=None, out=None, **k):
    a = SA(a)
    if lo is not None: a = np.maximum(a, lo)
    if hi is not None: a = np.minimum(a, hi)
    return a
@impl(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2): raise Lost("norm")
    x = SA(x); s = np.add.reduce(x * x, axis=axis if axis is not None else tuple(range(x.ndim)), keepdims=keepdims)
    return np.sqrt(s) if isinstance(s, np.ndarray) else _sqrt(s)
@impl(np.nonzero)
def _nonzero(a): return np.nonzero(_bools(a))
@impl(np.flatnonzero)
def _flatnonzero(a): return np.flatnonzero(_bools(a))
@impl(np.count_nonzero)
def _count_nonzero(a, axis=None, keepdims=False): return np.count_nonzero(_bools(a), axis=axis, keepdims=keepdims)
@impl(np.argwhere)
def _argwhere(a): return np.argwhere(_bools(a))
@impl(np.array_equal)
def _array_equal(a, b, equal_nan=False): a, b = _arr(a), _arr(b); return a.shape == b.shape and bool(_all(SA(a) == SA(b)))
@impl(np.allclose)
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False): return bool(_all(np.abs(SA(a) - SA(b)) <= atol + rtol * np.abs(SA(b))))
@impl(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if axis is not None: raise Lost("unique axis")
    v = SA(a).ravel().tolist(); u = []
    for x in v:
        if not any(bool(x == y) for y in u): u.append(x)
    import functools
    u.sort(key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else 1))
    res = [SA(u)]
    if return_index: res.append(np.array([next(i for i, x in enumerate(v) if bool(x == y)) for y in u], int))
    if return_inverse: res.append(np.array([next(i for i, y in enumerate(u) if bool(x == y)) for x in v], int))
    if return_counts: res.append(np.array([sum(bool(x == y) for x in v) for y in u], int))
    return res[0] if len(res) == 1 else tuple(res)
@impl(np.isin, np.in1d)
def _isin(a, b, **k): bl = _arr(b).ravel().tolist(); return wrap(_el(_mk1(lambda x: lor(False, *[x == y for y in bl])))(_arr(a)), "b")
@impl(np.sort)
def _sort(a, axis=-1, **k):
    a = _arr(a)
    if a.ndim != 1: raise Lost("sort")
    import functools
    return SA(sorted(a.tolist(), key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else 1 if bool(p > q) else 0)))
@impl(np.argsort)
def _argsort(a, axis=-1, **k):
    a = _arr(a)
    if a.ndim != 1: raise Lost("argsort")
    import functools
    v = a.tolist(); return np.array(sorted(range(len(v)), key=functools.cmp_to_key(lambda p, q: -1 if bool(v[p] < v[q]) else 1 if bool(v[p] > v[q]) else 0)), int)
def _arg(a, axis, better):
    a = a.view(np.ndarray)
    def one(v):
        b = 0
        for i in range(1, len(v)):
            if bool(better(v[i], v[b])): b = i
        return b
    if axis is None: return one(a.ravel().tolist())
    m = np.moveaxis(a, axis, -1); o = np.empty(m.shape[:-1], dtype=int)
    for i in np.ndindex(*m.shape[:-1]): o[i] = one(m[i].tolist())
    return o if o.ndim else int(o)
@impl(np.argmax)
def _argmax(a, axis=None, out=None, **k): return _arg(SA(a), axis, lambda x, y: x > y)
@impl(np.argmin)
def _argmin(a, axis=None, out=None, **k): return _arg(SA(a), axis, lambda x, y: x < y)

def has(x):
    if issym(x) or isinstance(x, SA): return True
    if isinstance(x, (list, tuple)): return any(has(v) for v in x)
    return isinstance(x, np.ndarray) and x.dtype == object and any(issym(v) for v in x.ravel().tolist())

class Np:
    """the numpy module as seen by the code under test: array construction keeps symbolic elements"""
    def __getattr__(self, n): return getattr(np, n)
    def _mk(self, a, dtype):
        if dtype is not None and np.dtype(dtype).kind not in "iufb": return np.array(a, dtype=dtype)
        if not has(a):
            p = np.array(a)
            if p.dtype.kind not in "iufb": return p if dtype is None else p.astype(dtype)
            r = SA(p.astype(object), kindof(p.dtype))
        else:
            r = SA(np.array(_plain(a), dtype=object))
            fl = r.ravel().tolist()
            r.kind = a.kind if isinstance(a, SA) else None if not fl else "b" if all(isinstance(v, (SB, bool, np.bool_)) for v in fl) else "i" if all(isinstance(v, (int, np.integer)) or isinstance(v, SN) and v.is_int for v in fl) else "f"
        if dtype is not None: r = r.astype(dtype)
        return r
    def array(self, a, dtype=None, copy=True, **k): return self._mk(a, dtype)
    def asarray(self, a, dtype=None, **k):
        if isinstance(a, SA) and dtype is None: return a
        return self._mk(a, dtype)
    asanyarray = asarray
    def ascontiguousarray(self, a, dtype=None): return self._mk(a, dtype)
    def zeros(self, shape, dtype=float, **k): return self.full(shape, 0, dtype)
    def empty(self, shape, dtype=float, **k): return self.full(shape, 0, dtype)
    def ones(self, shape, dtype=float, **k): return self.full(shape, 1, dtype)
    def full(self, shape, v, dtype=None, **k):
        if dtype is None and not issym(v): dtype = np.asarray(v).dtype
        kd = kindof(dtype) if dtype is not None else None
        if dtype is not None and kd is None: return np.full(shape, v, dtype)
        o = np.empty(_shape(shape), dtype=object); o[...] = _cast(kd)(v) if kd else v
        return SA(o, kd)
    def zeros_like(self, a, dtype=None, **k): return self._like(a, 0, dtype)
    def empty_like(self, a, dtype=None, **k): return self._like(a, 0, dtype)
    def ones_like(self, a, dtype=None, **k): return self._like(a, 1, dtype)
    def full_like(self, a, v, dtype=None, **k): return self._like(a, v, dtype)
    def _like(self, a, v, dtype):
        a2 = np.asarray(a)
        if dtype is None:
            if isinstance(a, SA): o = np.empty(a.shape, dtype=object); o[...] = v; return SA(o, a.kind)
            dtype = a2.dtype
        return self.full(a2.shape, v, dtype)
    def round(self, a, decimals=0, out=None):
        if issym(a): return a.__round__(decimals)
        return np.round(a, decimals)
    around = round
    def maximum(self, a, b, **k): return maximum(a, b) if (issym(a) or issym(b)) and np.ndim(a) == 0 and np.ndim(b) == 0 else np.maximum(self.asarray(a) if has(a) else a, self.asarray(b) if has(b) else b)
    def minimum(self, a, b, **k): return minimum(a, b) if (issym(a) or issym(b)) and np.ndim(a) == 0 and np.ndim(b) == 0 else np.minimum(self.asarray(a) if has(a) else a, self.asarray(b) if has(b) else b)
    def where(self, c, *ab): return _where(c, *ab) if has(c) or any(has(x) for x in ab) else np.where(c, *ab)
    def _l(name):
        f = getattr(np, name)
        def g(self, a, *r, **k): return f(SA(a) if has(a) or isinstance(a, np.ndarray) and a.dtype == object and type(a) is np.ndarray else a, *[SA(x) if isinstance(x, np.ndarray) and x.dtype == object and type(x) is np.ndarray else x for x in r], **k)
        return g
    for _n in ("any all amax amin max min mean sum sort argsort argmax argmin unique isin in1d clip abs absolute sqrt square sign cumsum diff prod count_nonzero nonzero flatnonzero argwhere floor ceil rint isnan isfinite logical_not not_equal equal less less_equal greater greater_equal logical_and logical_or array_equal allclose reshape transpose sin cos tan exp log arctan2 degrees radians add subtract multiply divide true_divide floor_divide remainder mod divmod power hypot".split()): locals()[_n] = _l(_n)
    def sqrt(self, x, *a, **k): return _sqrt(x) if issym(x) else np.sqrt(self.asarray(x) if has(x) else x, *a, **k)
    def concatenate(self, xs, axis=0, **k): r = np.concatenate([_plainarr(x) for x in xs], axis=axis); return wrap(r) if has(r) else r
    def stack(self, xs, axis=0, **k): r = np.stack([_plainarr(x) for x in xs], axis=axis); return wrap(r) if has(r) else r
    def vstack(self, xs): return wrap(np.vstack([_plainarr(x) for x in xs]))
    def hstack(self, xs): return wrap(np.hstack([_plainarr(x) for x in xs]))
    def append(self, a, v, axis=None): r = np.append(_plainarr(a), _plainarr(v), axis=axis); return wrap(r)
    class _R:
        def __init__(self, f): self.f = f
        def __getitem__(self, k):
            if isinstance(k, tuple) and any(has(x) for x in k): k = tuple(_plainarr(x) if has(x) else x for x in k)
            return wrap(self.f[k])
    r_ = _R(np.r_); c_ = _R(np.c_)
    class _Lin:
        def __getattr__(self, n): return getattr(np.linalg, n)
        def norm(self, x, *a, **k): return _norm(x, *a, **k) if has(x) or np.asarray(x).dtype == object else np.linalg.norm(x, *a, **k)
    linalg = _Lin()
def _shape(s): return tuple(int(x) for x in s) if isinstance(s, (tuple, list, np.ndarray)) else int(s)
def _plainarr(x): return np.asarray(x, dtype=object).view(np.ndarray) if has(x) else np.asarray(x)
def _plain(a): return a.tolist() if isinstance(a, SA) else [_plain(x) for x in a] if isinstance(a, (list, tuple)) else a.tolist() if isinstance(a, np.ndarray) else a

# ---------------------------------------------------------------- builtins that need help
def s_len(x):
    n = getattr(x, "sym_len", None)
    return n if n is not None else len(x)
def s_int(x=0, *a):
    if isinstance(x, SN): return x.trunc()
    if isinstance(x, SB): return x.num()
    return int(x, *a)
def s_float(x=0.0):
    if isinstance(x, SN): return SN(_real(x.e))
    return float(x)
def s_bool(x=False): return sb(x) if issym(x) else bool(x)
def s_round(x, n=None): return x.__round__(n) if issym(x) else round(x, n) if n is not None else round(x)
def s_max(*a, **k):
    v = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(issym(x) for x in v): return max(*a, **k)
    r = v[0]
    for x in v[1:]: r = maximum(r, x)
    return r
def s_min(*a, **k):
    v = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(issym(x) for x in v): return min(*a, **k)
    r = v[0]
    for x in v[1:]: r = minimum(r, x)
    return r
class IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, int) or isinstance(x, SN) and x.is_int
def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SN): return any(c in ((int,) if x.is_int else (float,)) or c is SN or c is object or getattr(c, "__name__", "") in ("Number", "Real", "Integral" if x.is_int else "Real", "integer" if x.is_int else "floating", "number") for c in ts) or isinstance(x, t) if all(isinstance(c, type) for c in ts) else False
    if isinstance(x, SB): return any(c in (bool, int, SB) for c in ts)
    if isinstance(x, SA) and np.ndarray in ts: return True
    return isinstance(x, tuple(c.real if isinstance(c, _Ty) else c for c in ts))
class _Ty:
    """int/float/bool as seen by the code: callable on symbolic values"""
    def __init__(self, real, f): self.real = real; self.f = f; self.__name__ = real.__name__
    def __call__(self, *a): return self.f(*a)
    def __getattr__(self, n): return getattr(self.real, n)
BUILTINS = dict(len=s_len, round=s_round, max=s_max, min=s_min)

# ---------------------------------------------------------------- explorer
class Engine:
    symbolic = True; opaque_text = False  # opaque_text: the text of messages is not judged, so formatting a value does not split on it
    def __init__(self, budget=300, choices=None, thorough=False, qtimeout=20000):
        self.t0 = time.time(); self.budget = budget; self.thorough = thorough; self.preset = choices or {}
        self.stack = []      # decisions on the current path: [taken, data, has_alternative, expr]
        self.solver = z3.Solver(); self.solver.set("timeout", qtimeout)
        self.st = dict(paths=0, pruned=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0, events=0, asserts=0, assert_queries=0, concretized=0)
        self.reached = {}; self.violations = []; self.seenv = set(); self.samples = []; self.losts = {}; self.unknowns = []
    # queries
    def check(self, *extra):
        if time.time() - self.t0 > self.budget: raise OutOfTime()
        t = time.time(); r = self.solver.check(*extra); d = time.time() - t
        if r == z3.unknown and d < 15:  # try once more from scratch
            s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver(); s.set("timeout", 20000); s.add(self.solver.assertions()); s.add(*extra); r = s.check()
            if r == z3.sat: self._m = s.model()
            d = time.time() - t
        elif r == z3.sat: self._m = self.solver.model()
        self.st["queries"] += 1; self.st["solver_s"] += d; self.st["max_query_s"] = max(self.st["max_query_s"], d)
        self.st["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unknown: self.unknowns.append(self.solver.reason_unknown())
        return r
    def _push(self, taken, e, alt, data=None):
        self.stack.append([taken, data, alt]); self.solver.push()
        if e is not None: self.solver.add(e)
        self.pos += 1
    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        self.st["events"] += 1
        if self.pos < len(self.stack):
            d = self.stack[self.pos]; self.pos += 1
            if d[1] == "flip":  # first time on the other side
                self.solver.add(e if d[0] else z3.Not(e)); d[1] = None; self.model = None
            return d[0]
        v = z3.is_true(self._model().eval(e, model_completion=True))
        r = self.check(z3.Not(e) if v else e)
        if r == z3.unsat: self._push(v, None, False); return v
        self._push(v, e if v else z3.Not(e), r == z3.sat or r == z3.unknown)
        return v
    def _model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat: raise Pruned()
            if r == z3.unknown: raise Lost("solver gave no model")
            self.model = self._m
        return self.model
    def choice(self, name, n):
        name = self._name(name)
        if name in self.preset:
            v = self.preset[name]
            if v >= n: raise Pruned()
            self.assign[name] = v; return v
        if self.pos < len(self.stack):
            d = self.stack[self.pos]; self.pos += 1
            if isinstance(d[1], tuple) and d[1][0] == "next": d[0] += 1; d[2] = d[0] + 1 < n; d[1] = "choice"
            v = d[0]
        else: self._push(0, None, n > 1, "choice"); v = 0
        self.assign[name] = v; return v
    def _name(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        return name if k == 0 else "%s_%d" % (name, k)
    def assume(self, c):
        c = sb(c)
        if c is True: return
        if c is False: raise Pruned()
        if self.pos < len(self.stack): self.pos += 1; return
        if not z3.is_true(self._model().eval(c.e, model_completion=True)):
            r = self.check(c.e)
            if r == z3.unsat: raise Pruned()
            self.model = self._m if r == z3.sat else None
        self._push(True, c.e, False)
    def axiom(self, e):
        """definition of a fresh symbol: always satisfiable"""
        if self.pos < len(self.stack): self.pos += 1; return
        self._push(True, e, False); self.model = None
    def fresh(self, sort): self.nfresh += 1; return z3.Const("fresh!%d" % self.nfresh, sort)
    def power(self, base, x):
        for b, o, ot in self.powterms:
            if b == base and o.eq(_real(x.e)): return SN(ot)
        f = self.pows.setdefault(base, z3.Function("pow_%s" % str(base).replace("/", "_"), z3.RealSort(), z3.RealSort())); e = _real(x.e); t = f(e)
        ax = [t > 0, z3.Implies(e == 0, t == 1), z3.Implies(e > 0, t < 1), z3.Implies(e < 0, t > 1)]
        for b, o, ot in self.powterms:
            # falling, and no steeper than at 0 (for exponents that are not negative)
            L = z3.RealVal(str(Fraction(math.ceil(-math.log(base) * 100), 100)))
            if b == base: ax += [z3.Implies(o < e, z3.And(ot > t, z3.Implies(o >= 0, ot - t <= L * (e - o)))), z3.Implies(o > e, z3.And(ot < t, z3.Implies(e >= 0, t - ot <= L * (o - e)))), z3.Implies(o == e, ot == t)]
        self.powterms.append((base, e, t)); self.axiom(z3.And(ax)); return SN(t)
    def concretize(self, x):
        self.st["concretized"] += 1
        for i in range(400):
            if self.pos < len(self.stack):
                d = self.stack[self.pos]; v = d[3] if len(d) > 3 else None
                if self.fork(x.e == v): return _pyval(v)
                continue
            v = self._model().eval(x.e, model_completion=True)
            if z3.is_algebraic_value(v): raise Lost("irrational value used as a concrete number")
            n = len(self.stack); taken = self.fork(x.e == v)
            if len(self.stack) > n: self.stack[n].append(v)
            if taken: return _pyval(v)
        raise Lost("more than 400 values of a symbolic number used as a concrete one")
    def lost(self, why): raise Lost(why)
    # inputs
    def var(self, name, lo, hi, bits, flt):
        name = self._name(name); k = z3.Int(name)
        if self.pos < len(self.stack): self.pos += 1
        else:
            self._push(True, z3.And(k >= lo, k <= hi), False)
            if self.model is not None and not z3.is_true(self.model.eval(z3.And(k >= lo, k <= hi), model_completion=True)): self.model = None
        self.ins[name] = (k, bits)
        return SN(z3.ToReal(k) / z3.RealVal(2 ** bits) if bits or flt else k)
    def int(self, name, lo, hi): return self.var(name, lo, hi, 0, False)
    def grid(self, name, lo, hi, bits): return self.var(name, lo, hi, bits, True)
    def bool(self, name): return self.int(name, 0, 1) == 1
    # outcome
    def check_(self, c, what):
        self.st["asserts"] += 1
        c = sb(c)
        if c is True: return
        ce = z3.BoolVal(False) if c is False else c.e
        if self.pos < len(self.stack): # decided when first met
            self.pos += 1
            return
        self.st["assert_queries"] += 1
        if c is False: self._violate(self._model(), what); raise Failed()
        r = self.check(z3.Not(ce))
        if r == z3.sat:
            self._violate(self._m, what)
            if self.check(ce) != z3.sat: raise Failed()
            self.model = None; self._push(True, ce, False)
        else: self._push(True, None, False)
    def _violate(self, m, what):
        key = what
        if (key, len([1 for v in self.violations if v["id"] == what]) >= 3) in self.seenv: return
        self.violations.append(dict(id=what, assign=self.inputs(m)))
        if len([1 for v in self.violations if v["id"] == what]) >= 3: self.seenv.add((key, True))
    def inputs(self, m):
        r = dict(self.assign)
        for n, (k, b) in self.ins.items(): r[n] = m.eval(k, model_completion=True).as_long()
        return r
    def reach(self, label): self.reached[label] = self.reached.get(label, 0) + 1
    def observe(self, *x): pass
    def run(self, harness):
        global ENG
        ENG = self; done = False
        while True:
            self.pos = 0; self.model = None; self.assign = {}; self.names = {}; self.ins = {}; self.nfresh = 0; self.powterms = []; self.pows = getattr(self, "pows", {}); r0 = dict(self.reached)
            end = "ok"
            try:
                harness(self)
            except Pruned: end = "pruned"; self.st["pruned"] += 1
            except Failed: end = "failed"
            except Lost as x: end = "lost"; self.losts[str(x)] = self.losts.get(str(x), 0) + 1
            except OutOfTime: self.st["timeout"] = True; return
            except Control: raise
            except (KeyboardInterrupt, SystemExit): raise
            except BaseException as x:
                import traceback
                tb = traceback.extract_tb(x.__traceback__)
                where = next(("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb) if "/repo" in f.filename or "waymo_open_dataset" in f.filename), "")
                end = "exc"
                if os.environ.get("VP_TRACE"): traceback.print_exc()
                try: self._violate(self._model(), "raises " + type(x).__name__)
                except Control: pass
                self.lastexc = "%s %s %s" % (type(x).__name__, x, where)
            self.st["paths"] += 1
            if end in ("ok", "lost"):
                try: self.samples.append(self.inputs(self._model()))
                except Control: pass
            # next path
            while self.stack and not self.stack[-1][2]: self.stack.pop(); self.solver.pop()
            if not self.stack: return
            d = self.stack[-1]
            if len(self.violations) >= 12: self.st["stopped"] = True; return
            self.solver.pop(); self.solver.push()
            if d[1] == "choice": d[1] = ("next",)
            else: d[0] = not d[0]; d[1] = "flip"; d[2] = False
def _pyval(v):
    if z3.is_int_value(v): return v.as_long()
    return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))

# ---------------------------------------------------------------- concrete replay
class Native:
    symbolic = False
    class Fail(BaseException): pass
    def __init__(self, assign, thorough=False): self.a = assign; self.names = {}; self.reached = {}; self.thorough = thorough; self.missing = False
    def _name(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        return name if k == 0 else "%s_%d" % (name, k)
    def _get(self, name, d):
        n = self._name(name)
        if n not in self.a: self.missing = True
        return self.a.get(n, d)
    def choice(self, name, n): return self._get(name, 0)
    def int(self, name, lo, hi): return self._get(name, lo)
    def grid(self, name, lo, hi, bits): return self._get(name, lo) / 2.0 ** bits
    def bool(self, name): return self._get(name, 0) == 1
    def assume(self, c):
        if not c: raise Pruned()
    def check_(self, c, what):
        if not c: raise Native.Fail(what)
    def reach(self, label): self.reached[label] = 1
    def observe(self, *x): pass
