"""P04: breakdown names of the Python package against the table the native library is checked against (m09.cc)."""
import fp
T = ["VEHICLE", "PEDESTRIAN", "SIGN", "CYCLIST"]
V = ["STATIONARY", "SLOW", "MEDIUM", "FAST", "VERY_FAST"]; R = ["[0, 30)", "[30, 50)", "[50, +inf)"]; C = ["FRONT", "FRONT-LEFT", "FRONT-RIGHT", "SIDE-LEFT", "SIDE-RIGHT"]; Z = ["small", "large"]
def per(pre, parts): return [pre + "_TYPE_" + t + "_" + x for t in T for x in parts]
def table(B): return {B.ONE_SHARD: ["ONE_SHARD"], B.OBJECT_TYPE: ["OBJECT_TYPE_TYPE_" + t for t in T], B.RANGE: per("RANGE", R), B.VELOCITY: per("VELOCITY", V), B.ALL_BUT_SIGN: ["ALL_BUT_SIGN", "SIGN"], B.SIZE: per("SIZE", Z), B.CAMERA: per("CAMERA", C)}
def mods(vp):
    from waymo_open_dataset import label_pb2
    from waymo_open_dataset.protos import breakdown_pb2, scenario_pb2, metrics_pb2, motion_metrics_pb2
    w = {k: fp.mod(vp, v) for k, v in dict(label_pb2=label_pb2, breakdown_pb2=breakdown_pb2, scenario_pb2=scenario_pb2, metrics_pb2=metrics_pb2, motion_metrics_pb2=motion_metrics_pb2).items()}
    return w, vp.load("waymo_open_dataset.metrics.python.config_util_py", **w)
def names(vp, gens, levels):
    w, m = mods(vp); t = table(w["breakdown_pb2"].Breakdown); c = w["metrics_pb2"].Config(); want = []
    n = vp.int("generators", 0, gens); n = vp.conc(n); ks = sorted(t)
    for _ in range(n):
        g = vp.int("generator", ks[0], ks[-1]); vp.assume(vp.or_(*[g == k for k in ks])); c.breakdown_generator_ids.append(g)
        d = c.difficulties.add(); ls = []
        for _ in range(vp.conc(vp.int("levels", 0, levels))): ls.append(vp.int("level", 0, 2)); d.levels.append(ls[-1])
        for s in t[vp.conc(g)]: want += [s + "_" + "LEVEL_2"] if not ls else [s + "_" + ["UNKNOWN", "LEVEL_1", "LEVEL_2"][vp.conc(l)] for l in ls]
    e, got = vp.raises(lambda: m.get_breakdown_names_from_config(c))
    vp.check(e is None, "every configuration is named"); vp.check(list(got) == want, "one name per shard and level in the order of the native library")
    if n > 1: vp.reach("many")
    vp.reach("end")
def motion(vp, n):
    w, m = mods(vp); c = w["motion_metrics_pb2"].MotionMetricsConfig(); st = []
    for _ in range(vp.conc(vp.int("steps", 0, n))): st.append(vp.int("step", 0, 20)); c.step_configurations.add().measurement_step = st[-1]
    e, got = vp.raises(lambda: m.get_breakdown_names_from_motion_config(c)); vp.check(e is None, "every motion configuration is named")
    vp.check(list(got) == ["TYPE_%s_%d" % (t, vp.conc(s)) for t in ("VEHICLE", "PEDESTRIAN", "CYCLIST") for s in st], "motion names in the order of the native library"); vp.reach("end")
def unsupported(vp):
    """identifiers without a generator are rejected rather than named"""
    w, m = mods(vp); t = table(w["breakdown_pb2"].Breakdown); c = w["metrics_pb2"].Config()
    ids = sorted(w["breakdown_pb2"].Breakdown.GeneratorId.values()); bad = [i for i in ids if i not in t]
    g = vp.int("generator", min(ids), max(ids)); vp.assume(vp.or_(*[g == k for k in bad])); c.breakdown_generator_ids.append(g); c.difficulties.add()
    e, got = vp.raises(lambda: m.get_breakdown_names_from_config(c)); vp.check(isinstance(e, ValueError), "unsupported breakdown is rejected"); vp.reach("end")
