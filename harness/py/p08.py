"""P08: panoptic labels, and instance ids made consistent between images."""
import importlib, sys, types
import numpy as np
import fp, tfx
class Box:
    def __init__(self, a): self.a = a
    def numpy(self): return self.a
PNG = {}
def flat(a): return list(np.asarray(a).reshape(-1))
class Ids:
    def __init__(self, a, b): self.in_values, self.out_values = a, b
def relabel(vp, a):
    """what scikit-image's relabel_sequential does: positive labels in ascending order become 1, 2, ...; zero stays"""
    shape = np.asarray(a).shape; vals = flat(a); ids = []
    for v in vals:
        if v == 0 or any(v == w for w in ids): continue
        k = 0
        while k < len(ids) and ids[k] < v: k += 1
        ids.insert(k, v)
    def new(v):
        r = 0
        for k, w in enumerate(ids): r = vp.ite(v == w, k + 1, r)
        return r
    out = vp.arr([new(v) for v in vals], "i"); n = list(range(len(ids) + 1))
    return out, Ids([0] + ids, n), Ids(n, [0] + ids)
def load_(vp, w=None):
    def png(a, **k): n = b"png%d" % len(PNG); PNG[n] = a; return Box(n)
    t = tfx.TF(vp, io=tfx.Sub(vp, decode_png=lambda n, *a, **k: Box(PNG[n]), encode_png=png), reshape=lambda x, s: x.reshape(tuple(s)), reduce_max=lambda x, **k: m.np.max(x), cast=lambda x, d: x if vp.symbolic else np.asarray(x).astype(d), convert_to_tensor=lambda x, *a, **k: x, constant=lambda x, *a, **k: x)
    t.__dict__["image"] = t.io
    s = types.ModuleType("skimage"); s.segmentation = tfx.Sub(vp, relabel_sequential=lambda a, offset=1: relabel(vp, a)); sys.modules["skimage"] = s
    import p11; p11.mods(); sys.modules["tensorflow"] = t
    def isi(x, t):
        if isinstance(t, tuple): return any(isi(x, u) for u in t)
        if isinstance(t, fp.Cls): return isinstance(x, fp.Msg) and x._d is t._real.DESCRIPTOR
        return __import__("sym").BUILTINS.get("isinstance", isinstance)(x, t)
    m = vp.load("waymo_open_dataset.utils.camera_segmentation_utils", isinstance=isi, **(w or {})); m.tf = t; m.segmentation = s.segmentation
    if w and vp.symbolic and hasattr(m, "InstanceIDToGlobalIDMapping"): m.InstanceIDToGlobalIDMapping = w["dataset_pb2"].CameraSegmentationLabel.InstanceIDToGlobalIDMapping
    m.warnings = types.SimpleNamespace(warn=lambda *a, **k: None)
    return m
def words(vp, a, t): return vp.arr(a, "i") if vp.symbolic else np.array(a, dtype=t)
DIV = [1, 2, 7, 1000, 65536, 10**6]
def code(vp, n):
    m = load_(vp); d = DIV[vp.choice("divisor", len(DIV))]; sem = [vp.int("class", 0, 65535) for _ in range(n)]; ins = [vp.int("instance", 0, 10**6 - 1) for _ in range(n)]
    vp.assume(vp.and_(*[vp.and_(i < d, s * d + i < 2**32) for s, i in zip(sem, ins)]))
    p = m.encode_semantic_and_instance_labels_to_panoptic_label(words(vp, [sem], np.uint16), words(vp, [ins], np.uint32), d)
    vp.check(vp.and_(*[x == s * d + i for x, s, i in zip(flat(p), sem, ins)]), "a panoptic label is class * divisor + instance")
    s2, i2 = m.decode_semantic_and_instance_labels_from_panoptic_label(p, d); vp.check(s2.shape == (1, n) and i2.shape == (1, n), "shape")
    vp.check(vp.and_(*[vp.and_(a == b, c == e) for a, b, c, e in zip(flat(s2), sem, flat(i2), ins)]), "decoding gives both maps back")
    bad = vp.int("bad divisor", -3, 0); err, _ = vp.raises(lambda: m.decode_semantic_and_instance_labels_from_panoptic_label(p, bad)); vp.check(isinstance(err, ValueError), "a divisor below one is rejected")
    vp.reach("end")
def label(vp, m, w, v2, d, pix, seq, ids, cams=None):
    """pix: (class, instance) per pixel; ids: (local, global, tracked)"""
    img = words(vp, [[[s * d + i] for s, i in pix]], np.uint16); n = b"png%d" % len(PNG); PNG[n] = img; c = b""
    if cams is not None: c = b"png%d" % len(PNG); PNG[c] = words(vp, [[[x] for x in cams]], np.uint8)
    if v2:
        S = m.v2; return S.CameraSegmentationLabelComponent(key=None, panoptic_label_divisor=d, panoptic_label=n, sequence_id=seq, num_cameras_covered=c or None,
            instance_id_to_global_id_mapping=S.InstanceIdToGlobalIDMapping(*[list(x) for x in (zip(*ids) if ids else [(), (), ()])]) if hasattr(S, "InstanceIdToGlobalIDMapping") else S.InstanceIdToGlobalIdMapping(*[list(x) for x in (zip(*ids) if ids else [(), (), ()])]))
    l = w["dataset_pb2"].CameraSegmentationLabel(); l.panoptic_label_divisor = d; l.panoptic_label = n; l.sequence_id = seq
    if c: l.num_cameras_covered = c
    for a, b, t in ids:
        e = l.instance_id_to_global_id_mapping.add(); e.local_instance_id = a; e.global_instance_id = b; e.is_tracked = t
    return l
def setup2(vp):
    from waymo_open_dataset import dataset_pb2
    w = dict(dataset_pb2=fp.mod(vp, dataset_pb2)) if vp.symbolic else dict(dataset_pb2=dataset_pb2)
    return w, load_(vp, w)
def frames(vp, n, pixels, top, v2, remap=True, divs=(10,)):
    PNG.clear(); w, m = setup2(vp); fr = []; N = 1 + vp.choice("images", n)
    for f in range(N):
        d = divs[vp.choice("divisor", len(divs))]; seq = "ab"[vp.choice("sequence", 2)] if f else "a"; k = vp.choice("mapped", 3)
        g = [vp.int("global", 1, top) for _ in range(k)]; tr = [j == 0 for j in range(k)]
        if k == 2: vp.assume(g[0] != g[1])
        pix = [(vp.int("class", 0, 28), vp.int("instance", 0, k if remap else d - 1)) for _ in range(pixels)]; cams = [1 + j for j in range(pixels)] if f else None
        fr.append((d, seq, g, tr, pix, cams, label(vp, m, w, v2, d, pix, seq, [(j + 1, g[j], tr[j]) for j in range(k)], cams)))
    nd = [None, 7, 12, 40][vp.choice("new divisor", 4)]; sq = bool(vp.choice("consecutive", 2)) if remap else False
    f = m.decode_multi_frame_panoptic_labels_from_segmentation_labels if vp.choice("name", 2) == 0 or v2 else m.decode_multi_frame_panoptic_labels_from_protos
    err, r = vp.raises(lambda: f([x[-1] for x in fr], remap_to_global=remap, remap_to_sequential=sq, new_panoptic_label_divisor=nd))
    if err is not None:
        vp.check(isinstance(err, ValueError), "raises something else than an overflow"); vp.reach("overflow")
        if nd is None: vp.check(len(set(x[0] for x in fr)) > 1, "labels that fit their own divisor are rejected")
        elif not remap: vp.check(vp.or_(*[p[1] >= nd for x in fr for p in x[4]]), "instances below the new divisor are rejected")
        return
    pan, trk, cov, D = r; vp.check(len(pan) == N and len(trk) == N and len(cov) == N, "one result per image")
    if nd is not None: vp.check(D == nd, "the divisor is the requested one")
    ins = []; ok = []
    for (d, seq, g, tr, pix, cams, _), p, t, c in zip(fr, pan, trk, cov):
        vp.check(p.shape == (1, pixels, 1) and t.shape == p.shape and c.shape == p.shape, "shape"); row = []
        for (s, i), x, y, z, j in zip(pix, flat(p), flat(t), flat(c), range(pixels)):
            new = x - s * D; row.append(new); ok += [new >= 0, new < D]
            if not remap: ok += [new == i, y == 0]
            else:
                ok += [vp.implies(i == 0, new == 0), vp.implies(i > 0, new > 0)]; want = 0
                for q, tt in enumerate(tr): want = vp.ite(i == q + 1, int(tt), want)
                ok.append(y == want)
            ok.append(z == (cams[j] if cams else 1))
        ins.append(row)
    vp.check(vp.and_(*ok), "classes, coverage and tracked pixels stay, and the instance stays below the divisor")
    if remap:
        ok = []
        def gid(f, i):
            r = 0
            for q, v in enumerate(fr[f][2]): r = vp.ite(i == q + 1, v, r)
            return r
        P = [(f, j) for f in range(N) for j in range(pixels)]
        for a in P:
            for b in P:
                if a >= b: continue
                ia, ib = fr[a[0]][4][a[1]][1], fr[b[0]][4][b[1]][1]; same = vp.and_(fr[a[0]][1] == fr[b[0]][1], gid(a[0], ia) == gid(b[0], ib))
                ok.append(vp.implies(vp.and_(ia > 0, ib > 0), vp.or_(vp.and_(same, ins[a[0]][a[1]] == ins[b[0]][b[1]]), vp.and_(vp.not_(same), ins[a[0]][a[1]] != ins[b[0]][b[1]]))))
        vp.check(vp.and_(True, *ok), "two pixels get the same id exactly when they show the same object")
    vp.reach("end")
def save(vp, pixels):
    """a prediction stored in a message: compact instances, and the way back to the original ones"""
    PNG.clear(); w, m = setup2(vp); d = [10, 1000, 60000][vp.choice("divisor", 3)]; nd = [2, 5, 1000][vp.choice("new divisor", 3)]
    pix = [(vp.int("class", 0, 99), vp.int("instance", 0, d - 1)) for _ in range(pixels)]
    err, l = vp.raises(lambda: m.save_panoptic_label_to_proto(words(vp, [[[s * d + i] for s, i in pix]], np.uint32), d, "seq", nd))
    if err is not None:
        vp.check(isinstance(err, ValueError), "raises something else than an overflow"); vp.check(vp.or_(*[s * nd + pixels >= 65535 for s, _ in pix]), "labels that fit are rejected"); vp.reach("overflow"); return
    D = l.panoptic_label_divisor; vp.check(l.sequence_id == "seq" and D >= nd, "sequence and divisor"); img = PNG[l.panoptic_label]; vp.check(img.shape == (1, pixels, 1), "shape")
    ids = [(e.local_instance_id, e.global_instance_id) for e in l.instance_id_to_global_id_mapping]; ok = []
    for (s, i), x in zip(pix, flat(img)):
        new = x - s * D; orig = 0
        for a, b in ids: orig = vp.ite(new == a, b, orig)
        ok += [0 <= new, new < D, x < 65536, vp.implies(i == 0, new == 0), vp.implies(i > 0, new > 0), orig == i]
    for a, _ in enumerate(ids):
        for b in range(a): ok += [ids[a][0] != ids[b][0], ids[a][1] != ids[b][1]]
    vp.check(vp.and_(*ok), "the stored label and its id table give back class and instance"); vp.reach("end")
class Plain:
    """plain numpy values of the real widths, one of a few for every input"""
    symbolic = False; FEW = {"global": (2, 65535, 70001), "class": (0, 28), "instance": (0, 1, 2)}
    def __init__(self, vp): self.vp = vp
    def __getattr__(self, n): return getattr(self.vp, n)
    def int(self, n, lo, hi): v = [x for x in self.FEW[n] if lo <= x <= hi]; return v[self.vp.choice(n, len(v))]
    def arr(self, a, k="i"): return np.array(a, dtype=np.int64)
    def load(self, name, **k): sys.modules.pop(name, None); return importlib.import_module(name)
def wide(vp, **k): frames(Plain(vp), **k)
