"""P11: components as flat columns and back."""
import dataclasses, importlib, sys, types, typing
class Stub(types.ModuleType):
    """a module whose attributes are opaque, hashable descriptions of how they were made"""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Made(self.__name__ + "." + n)
class Made:
    def __init__(self, d): self.d = d
    def __call__(self, *a, **k): return Made((self.d, tuple(x.d if isinstance(x, Made) else repr(x) for x in a), tuple(sorted((n, repr(v)) for n, v in k.items()))))
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Made(str(self.d) + "." + n)
    def __eq__(self, o): return isinstance(o, Made) and o.d == self.d
    def __hash__(self): return hash(self.d)
    def __or__(self, o): return typing.Any
    def __ror__(self, o): return typing.Any
NAMES = "base box camera_image context keypoints lidar object_asset pose segmentation".split()
CACHE = {}
def mods():
    if CACHE: return CACHE
    for n in ("pyarrow", "tensorflow"):
        if n not in sys.modules: sys.modules[n] = Stub(n); sys.modules[n].__path__ = []
    # the package's own __init__ pulls in readers for uninstalled libraries
    w = importlib.import_module("waymo_open_dataset"); v2 = types.ModuleType("waymo_open_dataset.v2"); v2.__path__ = [p + "/v2" for p in w.__path__]; sys.modules.setdefault(v2.__name__, v2)
    sys.modules["pyarrow"].schema = lambda items: list(items)
    c = importlib.import_module("waymo_open_dataset.v2.component"); CACHE["c"] = c
    for n in NAMES: CACHE[n] = importlib.import_module("waymo_open_dataset.v2.perception." + n)
    CACHE["all"] = sorted({v for n in NAMES for v in vars(CACHE[n]).values() if isinstance(v, type) and issubclass(v, c.Component) and dataclasses.is_dataclass(v)}, key=lambda t: (t.__module__, t.__name__))
    def col(t=None, **k): return c.create_column(arrow_type=t, **k)
    I = Made("int"); dc = dataclasses.dataclass(frozen=True)
    @dc
    class Leaf:
        x: int = col(I)
        y: typing.Optional[int] = col(I, default=None)
    @dc
    class Node:  # a nested record before a value of the same name, and the other way round
        leaf: Leaf
        x: int = col(I)
        more: typing.Optional[Leaf] = None
    @dc
    class Many:
        node: Node = col(is_repeated=False)
        name: list[str] = col(I)
    @dc
    class SomeKey(c.Key):
        name: str = col(I)
        x: int = col(I)
    @dc
    class First(c.Component):
        key: SomeKey
        node: Node
        many: Many = col(is_repeated=True)
        x: int = col(I)
        leaf: typing.Optional[Leaf] = None
        xs: typing.Optional[list[int]] = col(I, is_repeated=True, default=None)
    @dc
    class Second(c.Component):
        key: SomeKey
        x: int = col(I)
        node: Node
    CACHE["own"] = [First, Second]
    return CACHE
def under(t):
    if typing.get_origin(t) is typing.Union: return typing.get_args(t)[0], True
    return t, False
def leaves(c, cls):
    """(path, column name, optional steps, repeated) of every value, from the declarations"""
    out = []
    def walk(t, path, names, opts):
        for f in dataclasses.fields(t):
            u, o = under(f.type); n = f.name + ("[*]" if f.metadata.get("is_repeated") else "")
            if issubclass(t, c.Component) and not (isinstance(u, type) and not isinstance(u, types.GenericAlias) and issubclass(u, c.Key)): n = "[%s].%s" % (t.__name__, n)
            p = path + (f.name,); q = opts + ((p,) if o else ())
            if dataclasses.is_dataclass(u): walk(u, p, names + [n], q)
            else: out.append((p, ".".join(names + [n]), q, f.metadata.get("arrow_type")))
    walk(cls, (), [], ())
    return out
def make(cls, vals, absent, path=()):
    """an instance with the given leaf values"""
    kw = {}
    for f in dataclasses.fields(cls):
        u, o = under(f.type); p = path + (f.name,)
        kw[f.name] = None if p in absent else make(u, vals, absent, p) if dataclasses.is_dataclass(u) else vals[p]
    return cls(**kw)
def get(o, p):
    for n in p:
        if o is None: return None
        o = getattr(o, n)
    return o
def same(a, b): return a is b if a is None or b is None else a == b
def rows(vp, cls, others, patterns):
    c = mods()["c"]; lv = leaves(c, cls); opts = sorted({o for l in lv for o in l[2]}); absent = set()
    if patterns:
        for o in opts:
            if vp.bool("absent"): absent.add(o)
    else:
        k = vp.choice("absent", len(opts) + 2)
        if k == len(opts) + 1: absent = set(opts)
        elif k: absent = {opts[k - 1]}
    vals = {l[0]: vp.int("value", -2**40, 2**40) for l in lv}; obj = make(cls, vals, absent)
    cols = obj.to_flatten_dict(); want = {}
    for p, n, _, _ in lv: want[n] = get(obj, p)
    vp.check(len(want) == len(lv), "no two fields share a column"); vp.check(list(cols) == [l[1] for l in lv], "columns are named by path, with the component's name except in the key")
    vp.check(vp.and_(True, *[same(cols[n], want[n]) for n in want if n in cols]), "a column holds the field's value")
    sch = cls.schema(); vp.check([(n, t) for n, t in sch] == [(l[1], l[3]) for l in lv], "the schema declares the columns in the same order")
    # the row of a joined table: the columns of other components around them, in some order
    row = {}; order = vp.choice("order", 3); extra = {}
    for o in others:
        for p, n, _, _ in leaves(c, o):
            if n not in cols: extra[n] = vp.int("other", -2**40, 2**40)
    mine = list(cols.items()); mine = mine[::-1] if order == 1 else mine
    for n, v in (list(extra.items()) + mine if order < 2 else mine + list(extra.items())): row[n] = v
    back = cls.from_dict(row); vp.check(type(back) is cls, "the same kind of component")
    vp.check(vp.and_(True, *[same(get(back, p), get(obj, p)) for p, _, _, _ in lv]), "every value comes back in its field")
    if absent: vp.reach("absent")
    vp.reach("end")
def own(vp):
    a, b = mods()["own"]; k = vp.choice("which", 2); rows(vp, [a, b][k], [[b, a][k]], True)
def declared(vp):
    m = mods(); al = m["all"]; k = vp.choice("component", len(al)); key = lambda t: under(next(f.type for f in dataclasses.fields(t) if f.name == "key"))[0]
    vp.check(len({t.__name__ for t in al}) == len(al), "no two components share a name")
    others = [t for t in al if t is not al[k] and key(t) is key(al[k])]; rows(vp, al[k], others[:2], False)
def keys(vp):
    """components with a common key field use the same column for it"""
    m = mods(); c = m["c"]; al = m["all"] + m["own"]; a = al[vp.choice("first", len(al))]; b = al[vp.choice("second", len(al))]
    ka, kb = [{n: p for p, n, _, _ in leaves(c, t) if p[0] == "key"} for t in (a, b)]; v = vp.int("value", 0, 9)
    for t, k in ((a, ka), (b, kb)):
        cols = make(t, {l[0]: v for l in leaves(c, t)}, set()).to_flatten_dict(); got = [n for n in cols if n.startswith("key.")]
        vp.check(sorted(got) == sorted(k), "key columns carry no component name"); vp.check(all(n.startswith("[%s]." % t.__name__) for n in cols if n not in k), "other columns carry the component's name")
    vp.reach("end")
