"""P03: map plots."""
import types
class Pt:
    def __init__(self, x, y, z): self.x, self.y, self.z = x, y, z
class Body: pass
class Feature:
    """stands for a MapFeature message whose coordinates and id may be symbolic"""
    def __init__(self, id, kind): self.id = id; self.kind = kind
    def HasField(self, n): return n == self.kind
    def WhichOneof(self, n): return self.kind
KINDS = ["lane", "road_line", "road_edge", "stop_sign", "crosswalk", "speed_bump", "driveway"]
# documented style of every kind and type: (colour, dash, name of the type)
LINE = [("black", "solid", "UNKNOWN_FEATURE"), ("lightgray", "dash", "BROKEN_SINGLE_WHITE_BOUNDARY"), ("lightgray", "solid", "SOLID_SINGLE_WHITE_BOUNDARY"), ("lightgray", "solid", "SOLID_DOUBLE_WHITE_BOUNDARY"), ("yellow", "dash", "BROKEN_SINGLE_YELLOW_BOUNDARY"), ("yellow", "dash", "BROKEN_DOUBLE_YELLOW_BOUNDARY"), ("yellow", "solid", "SOLID_SINGLE_YELLOW_BOUNDARY"), ("yellow", "solid", "SOLID_DOUBLE_YELLOW_BOUNDARY"), ("yellow", "dash", "PASSING_DOUBLE_YELLOW_BOUNDARY")]
STYLE = {"lane": [("black", "solid", "UNKNOWN_FEATURE"), ("white", "solid", "FREEWAY_LANE"), ("royalblue", "solid", "SURFACE_STREET_LANE"), ("magenta", "solid", "BIKE_LANE")],
    "road_line": LINE, "road_edge": [("black", "solid", "UNKNOWN_FEATURE"), ("green", "solid", "ROAD_EDGE_BOUNDARY"), ("green", "solid", "ROAD_EDGE_MEDIAN")],
    "stop_sign": [("red", "solid", "STOP_SIGN")], "crosswalk": [("orange", "solid", "CROSSWALK")], "speed_bump": [("cyan", "solid", "SPEED_BUMP")], "driveway": [("blue", "solid", "DRIVEWAY")]}
def module(vp):
    m = vp.load("waymo_open_dataset.utils.plot_maps")
    if vp.symbolic:
        class Trace:
            def __init__(self, **k): self.__dict__.update(k)
        class Fig:
            def __init__(self): self.data = []
            def add_trace(self, t): self.data.append(t)
            def __getattr__(self, n): return lambda *a, **k: None
        class Go: Scatter3d = Trace; Figure = Fig
        def scatter_3d(df, x, y, z, color, color_discrete_map=None, **k):
            f = Fig(); groups = {}
            for i in range(len(df["x"])): groups.setdefault(df[color][i], []).append(i)
            for g, ix in groups.items(): f.data.append(Trace(mode="markers", name=g, x=[df[x][i] for i in ix], y=[df[y][i] for i in ix], z=[df[z][i] for i in ix], marker=dict(color=(color_discrete_map or {}).get(g))))
            return f
        m.go = Go; m.px = types.SimpleNamespace(scatter_3d=scatter_3d); m.pd = types.SimpleNamespace(DataFrame=lambda d: d)
    return m
def get(o, *names):
    for n in names:
        o = o.get(n) if isinstance(o, dict) else (o[n] if not hasattr(o, "__dict__") or n not in o.__dict__ and hasattr(o, "__getitem__") else getattr(o, n))
        if o is None: return None
    return o
def feature(vp, id, kind, tp, n, real):
    pts = [tuple(vp.grid(c, -65536, 65536, 4) for c in "xyz") for _ in range(n)]
    if real:
        f = real.MapFeature(id=id); b = getattr(f, kind); b.SetInParent()
        if kind in ("lane", "road_line", "road_edge"): b.type = tp
        if kind == "stop_sign": b.position.x, b.position.y, b.position.z = pts[0]
        else:
            l = b.polyline if kind in ("lane", "road_line", "road_edge") else b.polygon
            for p in pts: q = l.add(); q.x, q.y, q.z = p
    else:
        f = Feature(id, kind); b = Body(); b.type = tp; setattr(f, kind, b); l = [Pt(*p) for p in pts]
        if kind == "stop_sign": b.position = l[0]
        else: b.polyline = b.polygon = l
    return f, pts
def plot(vp, first, others):
    m = module(vp); real = None
    if not vp.symbolic: from waymo_open_dataset.protos import map_pb2 as real
    spec = [(KINDS[vp.choice("kind", len(KINDS))] if first is None else first)]
    spec += [("road_line", "crosswalk", "lane", "stop_sign")[vp.choice("kind", 4)] for _ in range(vp.choice("others", others + 1))]
    order = vp.choice("first", 2); feats = []; ids = []
    for i, k in enumerate(spec):
        tp = vp.conc(vp.int("type", 0, len(STYLE[k]) - 1 if i == 0 or k != "road_line" else 2)); n = 1 if k == "stop_sign" else vp.choice("points", 4) if i == 0 else 2
        id = vp.int("id", -2**40, 2**40)
        for o in ids: vp.assume(id != o)
        ids.append(id); f, pts = feature(vp, id, k, tp, n, real); feats.append((f, k, tp, pts))
    if order: feats.reverse()
    e, fig = vp.raises(lambda: m.plot_map_features([f[0] for f in feats])); vp.check(e is None, "every map is plotted")
    shown = [f for f in feats if f[3]]; closed = lambda k, p: list(p) + ([p[0]] if k in ("crosswalk", "speed_bump", "driveway") else [])
    marks = [t for t in fig.data if getattr(t, "name", None)]; lines = [t for t in fig.data if not getattr(t, "name", None) and len(t.x if t.x is not None else [])]
    vp.check(len(lines) == len(shown), "one line per feature")
    eq = lambda t, pts: vp.and_(len(t.x) == len(pts), *[vp.and_(a == p[0], b == p[1], c == p[2]) for a, b, c, p in zip(t.x, t.y, t.z, pts)])
    for t, (f, k, tp, pts) in zip(lines, shown):
        vp.check(eq(t, closed(k, pts)), "all points of the feature in order, closed where it is an area")
        col = get(t, "line", "color") if t.mode == "lines" else get(t, "marker", "color"); vp.check(col == STYLE[k][tp][0], "colour of its type")
        if t.mode == "lines": vp.check(get(t, "line", "dash") == STYLE[k][tp][1], "dash of its type")
    want = {}
    for f, k, tp, pts in shown: want.setdefault("FeatureType." + STYLE[k][tp][2], (STYLE[k][tp][0], []))[1].extend(closed(k, pts))
    vp.check(sorted(t.name for t in marks) == sorted(want), "points of every type")
    for t in marks: vp.check(get(t, "marker", "color") == want[t.name][0], "colour of the points"); vp.check(eq(t, want[t.name][1]), "every point is marked once")
    if len(shown) > 1: vp.reach("many")
    vp.reach("end")
