"""P10: sets of object trajectories: selection by id, slices in time, conversion of scenarios."""
import sys, types
import tfx
import numpy as np
SERIES = "x y z heading length width height valid".split()
def load_(vp):
    A = lambda x: x if isinstance(x, np.ndarray) else tensor(vp, x)
    def rank(x, r, *a, **k):
        if A(x).ndim != r: raise ValueError("rank")
    def gather(x, i, axis=0, **k):
        x = A(x); idx = [vp.conc(v) for v in A(i).reshape(-1)]; n = x.shape[axis]
        if not all(0 <= v < n for v in idx): raise IndexError("index out of range")
        return x[(slice(None),) * (axis % x.ndim) + (np.array(idx, dtype=int),)]
    def any_(x, axis=None, **k):
        x = A(x)
        return vp.or_(False, *x.reshape(-1)) if axis is None else m.np_.any(x, axis=axis)
    def matmul(a, b):
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]): out[i, j] = sum(a[i, k] * b[k, j] for k in range(a.shape[1]))
        return vp.arr(out, "i")
    t = tfx.TF(vp, assert_rank=rank, gather=gather, reduce_sum=lambda x, axis=None, **k: A(x).sum(axis=axis), reduce_any=any_, reduce_all=lambda x, **k: vp.and_(True, *A(x).reshape(-1)), cast=lambda x, d: A(x).astype(d), matmul=matmul,
        range=lambda a, b=None, dtype=None, **k: vp.arr(list(range(a) if b is None else range(a, b)), "i"), convert_to_tensor=lambda x, *a, **k: tensor(vp, x), constant=lambda x, *a, **k: tensor(vp, x), argmax=lambda x, axis=0, **k: np.argmax(A(x).astype(int), axis=axis), identity=lambda x: x, debugging=tfx.Sub(vp, assert_rank=rank))
    m = types.SimpleNamespace(np_=np); sys.modules["tensorflow"] = t
    r = vp.load("waymo_open_dataset.utils.trajectory_utils"); r.tf = t; return r
def tensor(vp, x):
    a = np.array(x, dtype=object); k = a.reshape(-1)[0] if a.size else 0.0
    return vp.arr(a, "b" if isinstance(k, (bool, np.bool_)) or type(k).__name__ == "SB" else "f" if isinstance(k, (float, np.floating)) or type(k).__name__ == "SN" and not k.is_int else "i")
def build(vp, m, n, steps, ids):
    v = {f: [[vp.bool("valid") if f == "valid" else vp.grid(f, -4096, 4096, 4) for _ in range(steps)] for _ in range(n)] for f in SERIES}
    v["object_id"] = ids; v["object_type"] = [vp.int("type", 0, 4) for _ in range(n)]
    return v, m.ObjectTrajectories(**{f: vp.arr(a, "b" if f == "valid" else "i" if f.startswith("object") else "f") for f, a in v.items()})
def same(vp, got, want):
    """every field of got has the wanted values, in shape and place"""
    ok = []
    for f, w in want.items():
        g = np.asarray(getattr(got, f), dtype=object); w = np.array(w, dtype=object) if len(w) and (not isinstance(w[0], list) or w[0]) else np.empty((len(w), 0) if f in SERIES else (len(w),), dtype=object)
        if g.shape != w.shape: return False
        ok += [a == b for a, b in zip(g.reshape(-1), w.reshape(-1))]
    return vp.and_(True, *ok)
def pick(vp, n, k, steps):
    m = load_(vp); N = 1 + vp.choice("objects", n); ids = [vp.int("id", -3, 50) for _ in range(N)]; v, o = build(vp, m, N, steps, ids); K = 1 + vp.choice("asked", k); ask = [vp.int("ask", -3, 50) for _ in range(K)]
    err, r = vp.raises(lambda: o.gather_objects_by_id(vp.arr(ask, "i"))); cnt = [sum(vp.ite(i == a, 1, 0) for i in ids) for a in ask]
    bad = vp.or_(*[vp.or_(c < 1, c > 1) for c in cnt]); vp.check(err is None or isinstance(err, ValueError), "raises something else"); vp.check(vp.and_(vp.implies(bad, err is not None), vp.implies(err is not None, bad)), "rejected exactly when an id is missing or ambiguous")
    if err is not None: vp.reach("rejected"); return
    where = [[i for i in range(N) if bool(ids[i] == a)][0] for a in ask]
    vp.check(same(vp, r, {f: [x[i] for i in where] for f, x in v.items()}), "the objects come in the order asked for, all fields of one object"); vp.check(same(vp, o, v), "the original is left alone"); vp.reach("end")
def places(vp, n, k, steps):
    m = load_(vp); N = 1 + vp.choice("objects", n); v, o = build(vp, m, N, steps, [vp.int("id", -3, 50) for _ in range(N)]); K = vp.choice("asked", k + 1); i = [vp.choice("index", N) for _ in range(K)]
    if not K: vp.assume(False)
    vp.check(same(vp, o.gather_objects(vp.arr(i, "i")), {f: [x[j] for j in i] for f, x in v.items()}), "objects at the given places, all fields of one object"); vp.reach("end")
def cut(vp, n, steps):
    m = load_(vp); N = 1 + vp.choice("objects", n); S = 1 + vp.choice("steps", steps); v, o = build(vp, m, N, S, [vp.int("id", -3, 50) for _ in range(N)]); a = vp.choice("start", 2 * S + 2) - S; b = vp.choice("end", 2 * S + 3) - S; b = None if b > S + 1 else b
    w = {f: [y[a:b] for y in x] if f in SERIES else x for f, x in v.items()}
    vp.check(same(vp, o.slice_time(start_index=a, end_index=b), w), "all series are cut alike, ids and types stay")
    if a == 0: vp.check(same(vp, o.slice_time(end_index=b), w), "cutting starts at the beginning by default")
    if b is None: vp.check(same(vp, o.slice_time(a), w), "cutting goes to the end by default")
    vp.reach("end")
def scene(vp, n, steps):
    m = load_(vp); N = 1 + vp.choice("objects", n); S = 1 + vp.choice("steps", steps); P = dict(x="center_x", y="center_y", z="center_z"); tracks = []; v = {f: [] for f in SERIES + ["object_id", "object_type"]}
    for _ in range(N):
        st = []
        for f in SERIES: v[f].append([])
        for _ in range(S):
            d = {f: vp.bool("valid") if f == "valid" else vp.grid(f, -4096, 4096, 4) for f in SERIES}; st.append(types.SimpleNamespace(**{P.get(f, f): x for f, x in d.items()}))
            for f in SERIES: v[f][-1].append(d[f])
        t = types.SimpleNamespace(states=st, id=vp.int("id", -3, 50), object_type=vp.int("type", 0, 4)); tracks.append(t); v["object_id"].append(t.id); v["object_type"].append(t.object_type)
    o = m.ObjectTrajectories.from_scenario(types.SimpleNamespace(tracks=tracks)); vp.check(same(vp, o, v), "every state of every track at its place, invalid ones marked"); vp.reach("end")
