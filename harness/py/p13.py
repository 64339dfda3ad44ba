"""P13: boxes, frames and poses."""
import contextlib, math, sys
import numpy as np
import tfx
def obj(x): return np.asarray(x, dtype=object).view(np.ndarray) if not isinstance(x, np.ndarray) else x.view(np.ndarray)
def make_tf(vp):
    S = vp.symbolic
    def out(a):
        if not S: return a
        return vp.arr(obj(a), "f")
    A = lambda x: x if isinstance(x, np.ndarray) else out(np.array(x, dtype=object if S else None))
    def el(f):
        def g(*xs, **k):
            def h(*v):
                v = [vp.conc(x) if type(x).__name__ in ("SN", "SB") and False else x for x in v]
                if any(type(x).__name__ in ("SN", "SB") for x in v): vp.lost("angle of a symbolic value")
                return f(*[float(x) for x in v])
            return out(np.frompyfunc(h, len(xs), 1)(*[obj(x) for x in xs])) if S else np.vectorize(h, otypes=[float])(*xs)
        return g
    def contract(eq, a, b, **k):
        if not S: return np.einsum(eq, np.asarray(a), np.asarray(b))
        a, b = obj(a), obj(b); (ia, ib), o = eq.split("->")[0].split(","), eq.split("->")[1]
        if "..." in eq:
            na, nb = a.ndim - len(ia.replace("...", "")), b.ndim - len(ib.replace("...", ""))
            if na != nb: vp.lost("einsum with different batches")
            L = "XYZ"[:na]; ia, ib, o = ia.replace("...", L), ib.replace("...", L), o.replace("...", L)
        dim = {}
        for i, x in ((ia, a), (ib, b)):
            if len(i) != x.ndim: raise ValueError("einsum rank")
            for c, n in zip(i, x.shape):
                if dim.setdefault(c, n) != n: raise ValueError("einsum dimensions")
        s = [c for c in dim if c not in o]; r = np.empty([dim[c] for c in o], dtype=object)
        for p in np.ndindex(*r.shape):
            d = dict(zip(o, p)); t = 0
            for q in np.ndindex(*[dim[c] for c in s]): d.update(zip(s, q)); t = t + a[tuple(d[c] for c in ia)] * b[tuple(d[c] for c in ib)]
            r[p] = t
        return out(r)
    def mul(a, b, **k):
        if k.get("transpose_a"): a = np.swapaxes(a, -1, -2)
        if k.get("transpose_b"): b = np.swapaxes(b, -1, -2)
        return contract("...ij,...jk->...ik", a, b) if S else np.matmul(a, b)
    def inv1(m):
        n = len(m); w = [[*m[i], *[float(i == j) for j in range(n)]] for i in range(n)]; num = lambda x: None if type(x).__name__ == "SN" else abs(float(x))
        for c in range(n):
            best = [(num(w[r][c]), -r) for r in range(c, n) if num(w[r][c]) is not None]
            if len(best) != n - c: vp.lost("inverse of a matrix with symbolic rotation")
            v, r = max(best); r = -r
            if v < 1e-9: raise ValueError("not invertible")
            w[c], w[r] = w[r], w[c]; p = w[c][c]; w[c] = [x / p for x in w[c]]
            for r in range(n):
                if r != c and not (num(w[r][c]) == 0): f = w[r][c]; w[r] = [x - f * y for x, y in zip(w[r], w[c])]
        return [x[n:] for x in w]
    def inv(a, **k):
        if not S: return np.linalg.inv(a)
        a = obj(a); r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]): r[i] = np.array(inv1(a[i].tolist()), dtype=object)
        return out(r)
    scope = lambda *a, **k: contextlib.nullcontext()
    red = lambda f: lambda x=None, axis=None, keepdims=False, input_tensor=None, **k: red1(f, x if x is not None else input_tensor, axis, keepdims)
    def red1(f, x, axis, keep):
        if not S: return {"all": np.all, "any": np.any, "prod": np.prod, "sum": np.sum}[f](x, axis=axis, keepdims=keep)
        x = obj(x); ax = axis % x.ndim if axis is not None else vp.lost("reduction over everything"); y = np.moveaxis(x, ax, -1); r = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(*r.shape):
            v = list(y[i]); B = lambda q: q if isinstance(q, bool) or type(q).__name__ == "SB" else q != 0
            if f == "all": r[i] = vp.and_(True, *[B(q) for q in v])
            elif f == "any": r[i] = vp.or_(False, *[B(q) for q in v])
            else:
                t = 1 if f == "prod" else 0
                for q in v: q = vp.ite(q, 1, 0) if isinstance(q, bool) or type(q).__name__ == "SB" else q; t = t * q if f == "prod" else t + q
                r[i] = t
        r = np.expand_dims(r, ax) if keep else r
        return vp.arr(r, "b" if f in ("all", "any") else "i")
    sh = lambda f: lambda x, axis=0, **k: f([obj(y) if S else y for y in x], axis)
    stack, cat = (lambda l, axis: out(np.stack(np.broadcast_arrays(*l), axis=axis)) if S else np.stack(l, axis=axis)), (lambda l, axis: out(np.concatenate(l, axis=axis)) if S else np.concatenate(l, axis=axis))
    ew = lambda o, f: lambda a, b, **k: vp.arr(np.frompyfunc(o, 2, 1)(obj(a), obj(b)), "b") if S else f(a, b)
    return tfx.TF(vp, cos=el(math.cos), sin=el(math.sin), tan=el(math.tan), atan2=el(math.atan2), math=tfx.Sub(vp, cos=el(math.cos), sin=el(math.sin), atan2=el(math.atan2)), einsum=contract, matmul=mul, linalg=tfx.Sub(vp, inv=inv, matmul=mul), name_scope=scope,
        compat=tfx.Sub(vp, v1=tfx.Sub(vp, name_scope=scope)), reduce_all=red("all"), reduce_any=red("any"), reduce_prod=red("prod"), reduce_sum=red("sum"), stack=sh(stack), concat=lambda x, axis=0, **k: sh(cat)(x, axis=axis), logical_and=ew(vp.and_, np.logical_and), logical_or=ew(vp.or_, np.logical_or),
        not_equal=ew(lambda a, b: a != b, np.not_equal), ones_like=lambda x, **k: out(np.ones(np.shape(x))), zeros_like=lambda x, **k: out(np.zeros(np.shape(x))), cast=lambda x, dtype=None, **k: x if S else np.asarray(x).astype(dtype), unstack=lambda x, axis=0, **k: [np.take(x, i, axis=axis) for i in range(x.shape[axis])] if not S else [out(np.take(obj(x), i, axis=axis)) for i in range(x.shape[axis])],
        reshape=lambda x, s, **k: np.reshape(x, tuple(s)), expand_dims=lambda x, axis, **k: np.expand_dims(x, axis), constant=lambda x, *a, **k: A(x), convert_to_tensor=lambda x, *a, **k: A(x), transpose=lambda x, perm=None, **k: np.transpose(x, perm), identity=lambda x: x)
def load_(vp):
    t = make_tf(vp); sys.modules["tensorflow"] = t; u = vp.load("waymo_open_dataset.utils.transform_utils"); u.tf = t; b = vp.load("waymo_open_dataset.utils.box_utils"); b.tf = t; b.transform_utils = u
    return b, u
YAW = [0.0, math.atan2(3, 4), math.pi / 2, -math.atan2(12, 5), 3.0]
def num(a): return [x for x in obj(a).reshape(-1)]
def near(vp, a, b, e=1e-6): return vp.abs(a - b) <= e
def sized(vp, x, s): return tuple(np.shape(x)) == tuple(s)
def pos(vp, n): return [vp.grid("at", -8192, 8192, 4) for _ in range(n)]
def arr(vp, x): return vp.arr(x, "f")
def inside(vp, n, m):
    b, u = load_(vp); d3 = bool(vp.choice("flat", 2) == 0); D = 3 if d3 else 2; pts = [pos(vp, D) for _ in range(n)]; box = []; want = []
    for _ in range(m): box.append((pos(vp, D), [vp.grid("size", 0, 256, 3) for _ in range(D)], YAW[vp.choice("heading", len(YAW))]))
    t = arr(vp, [c + s + [h] for c, s, h in box]); r = (b.is_within_box_3d if d3 else b.is_within_box_2d)(arr(vp, pts), t); vp.check(sized(vp, r, (n, m)), "one answer per point and box"); ok = []; cnt = []
    for j, (c, s, h) in enumerate(box):
        k = 0
        for i, p in enumerate(pts):
            d = [x - y for x, y in zip(p, c)]; q = [d[0] * math.cos(h) + d[1] * math.sin(h), d[1] * math.cos(h) - d[0] * math.sin(h)] + d[2:]
            sure = vp.and_(*[vp.and_(vp.abs(x) <= z / 2 - 1e-6, z > 0) for x, z in zip(q, s)]); no = vp.or_(*[vp.or_(vp.abs(x) > z / 2 + 1e-6, z == 0) for x, z in zip(q, s)])
            g = num(r)[i * m + j]; g = g if isinstance(g, (bool, np.bool_)) or type(g).__name__ == "SB" else g != 0
            ok += [vp.implies(sure, g), vp.implies(no, vp.not_(g))]; k = k + vp.ite(g, 1, 0)
        cnt.append(k)
    vp.check(vp.and_(*ok), "a point is inside exactly when it lies between the faces in the box's frame")
    if d3: vp.check(vp.and_(*[x == k for x, k in zip(num(b.compute_num_points_in_box_3d(arr(vp, pts), t)), cnt)]), "the number of points in a box is that of the points inside")
    vp.reach("end")
def corners(vp, m):
    b, u = load_(vp); box = []
    for _ in range(m): box.append((pos(vp, 3), [vp.grid("size", 0, 256, 3) for _ in range(3)], YAW[vp.choice("heading", len(YAW))]))
    r = b.get_upright_3d_box_corners(arr(vp, [c + s + [h] for c, s, h in box])); vp.check(sized(vp, r, (m, 8, 3)), "eight corners per box"); ok = []; v = num(r)
    for j, (c, s, h) in enumerate(box):
        for k in range(8):
            x, y, z = s[0] / 2 * (1, -1, -1, 1)[k % 4], s[1] / 2 * (1, 1, -1, -1)[k % 4], s[2] / 2 * (-1 if k < 4 else 1)
            w = [c[0] + x * math.cos(h) - y * math.sin(h), c[1] + x * math.sin(h) + y * math.cos(h), c[2] + z]; ok += [near(vp, v[(j * 8 + k) * 3 + i], w[i]) for i in range(3)]
    vp.check(vp.and_(*ok), "corners go counter-clockwise around the bottom, then the top"); vp.reach("end")
def rot(r, p, y):
    c, s = math.cos, math.sin; X = np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]]); Y = np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]]); Z = np.array([[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]]); return Z @ Y @ X
ANG = [(0.0, 0.0, 0.0), (0.0, 0.0, YAW[1]), (0.0, 0.0, -2.5), (0.3, -0.4, 1.1), (-0.2, 0.5, 3.0)]
def pose(vp, u, name, flat):
    k = vp.choice(name, 3 if flat else len(ANG)); a = ANG[k]; t = pos(vp, 3); R = u.get_rotation_matrix(*[arr(vp, [x]) for x in a]); W = rot(*a)
    vp.check(sized(vp, R, (1, 3, 3)) and vp.and_(*[near(vp, x, y) for x, y in zip(num(R), W.reshape(-1).tolist())]), "roll, then pitch, then yaw")
    T = u.get_transform(R, arr(vp, [t])); vp.check(sized(vp, T, (1, 4, 4)), "shape")
    vp.check(vp.and_(*[near(vp, x, y) for x, y in zip(num(T), sum([W[i].tolist() + [t[i]] for i in range(3)], []) + [0, 0, 0, 1])]), "a pose is rotation and translation")
    return T, W, t, a[2]
def up(W, t, p): return [sum(float(W[i][j]) * p[j] for j in range(3)) + t[i] for i in range(3)]
def points(vp):
    b, u = load_(vp); A, B = pose(vp, u, "from", False), pose(vp, u, "to", False); p = [pos(vp, 3), pos(vp, 3)]; P = arr(vp, [p]); Q = b.transform_point(P, A[0], B[0]); vp.check(sized(vp, Q, (1, 2, 3)), "shape"); q = [num(Q)[:3], num(Q)[3:]]
    vp.check(vp.and_(*[near(vp, x, y) for i in range(2) for x, y in zip(up(B[1], B[2], q[i]), up(A[1], A[2], p[i]))]), "a point stays where it is in the world")
    vp.check(vp.and_(*[near(vp, x, y) for x, y in zip(num(b.transform_point(Q, B[0], A[0])), p[0] + p[1])]), "there and back is the identity"); vp.reach("end")
def chain(vp):
    b, u = load_(vp); A, B, C = pose(vp, u, "first", True), pose(vp, u, "second", True), pose(vp, u, "third", True); P = arr(vp, [[pos(vp, 3)]])
    vp.check(vp.and_(*[near(vp, x, y) for x, y in zip(num(b.transform_point(b.transform_point(P, A[0], B[0]), B[0], C[0])), num(b.transform_point(P, A[0], C[0])))]), "two steps are the composed step"); vp.reach("end")
def boxes(vp):
    b, u = load_(vp); A, B = pose(vp, u, "from", True), pose(vp, u, "to", True); c, s, h = pos(vp, 3), [vp.grid("size", 0, 256, 3) for _ in range(3)], vp.grid("heading", -200, 200, 6); X = arr(vp, [[c + s + [h]]])
    Y = b.transform_box(X, A[0], B[0]); vp.check(sized(vp, Y, (1, 1, 7)), "shape"); y = num(Y); full = lambda d: vp.or_(*[near(vp, d, k * 2 * math.pi) for k in (-2, -1, 0, 1, 2)])
    vp.check(vp.and_(*[near(vp, p, q) for p, q in zip(up(B[1], B[2], y[:3]), up(A[1], A[2], c))]), "the centre stays where it is in the world")
    vp.check(vp.and_(*[p == q for p, q in zip(y[3:6], s)]), "sizes stay"); vp.check(full(y[6] + B[3] - h - A[3]), "the heading in the world stays")
    z = num(b.transform_box(Y, B[0], A[0])); vp.check(vp.and_(full(z[6] - h), *[near(vp, p, q) for p, q in zip(z[:6], c + s)]), "there and back is the identity"); vp.reach("end")
def yaw(vp):
    b, u = load_(vp); k = vp.choice("heading", len(YAW)); h = YAW[k]; t = arr(vp, [h]); W = rot(0, 0, h); R, F = u.get_yaw_rotation(t), u.get_yaw_rotation_2d(t)
    vp.check(sized(vp, R, (1, 3, 3)) and sized(vp, F, (1, 2, 2)) and all(abs(x - y) < 1e-9 for x, y in zip(num(R), W.reshape(-1))) and all(abs(x - y) < 1e-9 for x, y in zip(num(F), W[:2, :2].reshape(-1))), "rotation by the heading"); vp.reach("end")
def batch(vp):
    b, u = load_(vp); n = 2; K = [vp.choice("from", 3), vp.choice("to", 3)]; A, B = [ANG[K[0]], ANG[0]], [ANG[K[1]], ANG[K[0]]]; pa, pb, p = [pos(vp, 3) for _ in range(n)], [pos(vp, 3) for _ in range(n)], [pos(vp, 3) for _ in range(n)]; sz = [[vp.grid("size", 0, 256, 3) for _ in range(3)] for _ in range(n)]; h = [vp.grid("heading", -200, 200, 6) for _ in range(n)]
    T = lambda an, t: u.get_transform(u.get_rotation_matrix(*[arr(vp, [a[i] for a in an]) for i in range(3)]), arr(vp, t)); X, Y = T(A, pa), T(B, pb); vp.check(sized(vp, X, (n, 4, 4)), "shape")
    q = b.transform_point(arr(vp, [[x] for x in p]), X, Y); r = b.transform_box(arr(vp, [[x + s + [g]] for x, s, g in zip(p, sz, h)]), X, Y); vp.check(sized(vp, q, (n, 1, 3)) and sized(vp, r, (n, 1, 7)), "shape"); q, r = num(q), num(r); ok = []
    for i in range(n):
        W, V = rot(*A[i]), rot(*B[i]); w = up(W, pa[i], p[i]); d = r[7 * i + 6] + B[i][2] - h[i] - A[i][2]
        ok += [near(vp, x, y) for x, y in zip(up(V, pb[i], q[3 * i:3 * i + 3]), w)] + [near(vp, x, y) for x, y in zip(up(V, pb[i], r[7 * i:7 * i + 3]), w)] + [x == y for x, y in zip(r[7 * i + 3:7 * i + 6], sz[i])] + [vp.or_(*[near(vp, d, k * 2 * math.pi) for k in (-2, -1, 0, 1, 2)])]
    vp.check(vp.and_(*ok), "each frame of a batch uses its own poses"); vp.reach("end")
