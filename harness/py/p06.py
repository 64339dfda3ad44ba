"""P06: objects built from latency results."""
import os, shutil, tempfile
import numpy as np
import fp
CAMS = ["FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT"]
def setup_(vp):
    from waymo_open_dataset import dataset_pb2, label_pb2
    from waymo_open_dataset.protos import metrics_pb2
    w = {k: fp.mod(vp, v) for k, v in dict(dataset_pb2=dataset_pb2, label_pb2=label_pb2, metrics_pb2=metrics_pb2).items()}
    return w, vp.load("waymo_open_dataset.latency.make_objects_file_from_latency_results", print=lambda *a: None, **w)
def run(vp, m, arrays, fields, ctx, ts):
    d = tempfile.mkdtemp(prefix="vp_p06_", dir=os.getcwd())
    try:
        if fields is not None:
            with open(d + "/input_fields.txt", "w") as f: f.write("\n".join(fields))
        if vp.symbolic:
            real = m.np.__class__
            class P(real):
                def load(self, p, *a, **k):
                    if os.path.dirname(p) != d: raise FileNotFoundError(p)
                    return arrays[os.path.basename(p)[:-4]]
            m.np = P()
        else:
            for k, a in arrays.items(): np.save("%s/%s.npy" % (d, k), a)
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()): return vp.raises(lambda: m.make_object_list_from_subdir(d, ctx, ts))
    finally: shutil.rmtree(d, ignore_errors=True)
def arrays(vp, n, cols):
    sc = [vp.grid("score", 0, 1024, 10) for _ in range(n)]; cl = [vp.int("class", 0, 4) for _ in range(n)]
    bx = [[vp.grid("box%d" % c, 0 if 2 <= c - (cols == 7) <= 4 and not (cols == 4 and c > 3) else -2048, 2048, 9) for c in range(cols)] for _ in range(n)]
    f = "f" if vp.symbolic else "f4"
    B = vp.arr(bx, f) if n else (vp.arr([[0.0] * cols], f)[:0]); S = vp.arr(sc, f); C = vp.arr(cl, "i")
    return sc, cl, bx, dict(boxes=B, classes=C, scores=S)
def same(vp, got, want, w, ctx, ts, cam):
    """got is the list of wanted objects, in order and field by field"""
    if len(got) != len(want): return False
    cs = []
    for g, (sc, cl, bx) in zip(got, want):
        o = w["metrics_pb2"].Object(); o.context_name = ctx; o.frame_timestamp_micros = ts; o.score = sc; o.object.type = cl; b = o.object.box
        for k, v in zip(("center_x", "center_y", "center_z", "length", "width", "height", "heading") if len(bx) == 7 else ("center_x", "center_y", "length", "width"), bx): setattr(b, k, v)
        if cam is not None: o.camera_name = cam
        cs.append(fp.same_msg(g, o))
    return vp.and_(True, *cs)
def frame(vp, n, cols):
    w, m = setup_(vp); k = vp.conc(vp.int("detections", 0, n)); sc, cl, bx, arr = arrays(vp, k, cols)
    ctx, ts = "ctx-%d" % vp.choice("context", 2), vp.int("timestamp", 0, 2**40); cam = None; fields = [None, ["TOP_RANGE_IMAGE_FIRST_RETURN", "FRONT_IMAGE"]][vp.choice("fields", 2)] if cols == 7 else None
    if cols == 4: c = vp.choice("camera", 5); fields = [CAMS[c] + "_IMAGE"]; cam = w["dataset_pb2"].CameraName.Name.Value(CAMS[c])
    e, got = run(vp, m, arr, fields, ctx, vp.conc(ts) if not vp.symbolic else ts); vp.check(e is None, "well-formed results are converted")
    want = []
    for i in range(k):
        real = [sc[i] >= 0.03] + ([bx[i][3] >= 0.01, bx[i][4] >= 0.01, bx[i][5] >= 0.01] if cols == 7 else [bx[i][2] >= 0.01, bx[i][3] >= 0.01])
        if vp.conc(vp.and_(*real)): want.append((sc[i], cl[i], bx[i]))
    vp.check(same(vp, got, want, w, ctx, ts, cam), "one object per real detection in order with its own values")
    if want: vp.reach("kept")
    vp.reach("end")
def fields(vp):
    """image detections need exactly one camera image as input"""
    w, m = setup_(vp); sc, cl, bx, arr = arrays(vp, 1, 4)
    vp.assume(vp.and_(sc[0] >= 0.5, bx[0][2] >= 1, bx[0][3] >= 1))
    k = vp.choice("case", 9); fs = [None, [], ["FRONT_IMAGE", "SIDE_LEFT_IMAGE"], ["FRONT_POSE"], ["NOWHERE_IMAGE"], ["TOP_RANGE_IMAGE_FIRST_RETURN"], ["SIDE_RIGHT_IMAGE"], ["FRONT_IMAGE", "FRONT_POSE"], ["FRONT_IMAGE", "FRONT_IMAGE"]][k]
    e, got = run(vp, m, arr, fs, "c", 1); vp.check((e is None) == (k == 6), "accepted exactly with one camera image as input"); vp.check(e is None or isinstance(e, ValueError), "reported as an error"); vp.reach("end")
def sizes(vp):
    """arrays of different lengths are not silently combined"""
    w, m = setup_(vp); ns = [vp.choice(x, 3) for x in ("nb", "ns", "nc")]; _, _, _, a = arrays(vp, ns[0], 7); _, _, _, b = arrays(vp, ns[1], 7); _, _, _, c = arrays(vp, ns[2], 7)
    for i in range(0): pass
    e, got = run(vp, m, dict(boxes=a["boxes"], scores=b["scores"], classes=c["classes"]), None, "c", 1); vp.check((e is None) == (len(set(ns)) == 1), "arrays of different lengths are rejected"); vp.reach("end")
