"""P16: simulation scores, combined per scenario, per group and over scenarios."""
import glob, sys
import numpy as np
import fp, tfx
from p11 import Stub
NAMES = dict(kinematic="linear_speed linear_acceleration angular_speed angular_acceleration".split(), interactive="distance_to_nearest_object collision_indication time_to_collision".split(), map_based="distance_to_road_edge offroad_indication traffic_light_violation".split())
ALL = [n for g in NAMES.values() for n in g]
RATES = "average_displacement_error min_average_displacement_error simulated_collision_rate simulated_offroad_rate simulated_traffic_light_violation_rate".split()
def load_(vp):
    from waymo_open_dataset.protos import sim_agents_metrics_pb2 as p
    for n in ("tensorflow", "tensorflow_probability", "tensorflow_graphics", "sklearn", "sklearn.neighbors", "scipy", "scipy.stats"):
        if n not in sys.modules: sys.modules[n] = Stub(n); sys.modules[n].__path__ = []
    w = dict(sim_agents_metrics_pb2=fp.mod(vp, p)); m = vp.load("waymo_open_dataset.wdl_limited.sim_agents_metrics.metrics", **w); m.tf = tfx.Sub(vp); return w["sim_agents_metrics_pb2"], m
def near(vp, a, b): return vp.abs(a - b) <= 1e-5 * (1 + vp.abs(b))
def metrics(vp, p, lo=0):
    m = p.SimAgentMetrics(); v = {}
    for n in ALL: v[n + "_likelihood"] = vp.grid("score", lo, 1024, 10)
    for n in RATES: v[n] = vp.grid("rate", 0, 2**16, 10)
    v["metametric"] = vp.grid("overall", 0, 1024, 10)
    for n, x in v.items(): setattr(m, n, x)
    return m, v
W = [[0.05, 0.05, 0.05, 0.05, 0.1, 0.25, 0.1, 0.25, 0.1, 0.0], [0.1] * 10, [0.0, 0.5, 0, 0, 0.25, 0, 0, 0, 0, 0.25], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [0, 0, 0, 0, 1, 0, 0, 0, 1, 0], [0, 0, 1, 0, 0, 0, 0, 0, 2, 0], [1, 0, 0, 0, 3, 0, 0, 0, 0, 0]]
def overall(vp):
    p, m = load_(vp); k = vp.choice("weights", len(W)); w = dict(zip(ALL, W[k])); c = p.SimAgentMetricsConfig()
    for n, x in w.items(): getattr(c, n).metametric_weight = x
    s, v = metrics(vp, p); got = m._compute_metametric(c, s) if hasattr(m, "_compute_metametric") else vp.lost("the function for the overall score is elsewhere"); vp.check(near(vp, got, sum(x * v[n + "_likelihood"] for n, x in w.items())), "the score is the weighted sum of the likelihoods")
    if k < 3: vp.check(vp.and_(got >= 0, got <= 1 + 1e-5), "the score lies in [0, 1]")
    err, b = vp.raises(lambda: m.aggregate_metrics_to_buckets(c, s)); tot = {g: sum(w[n] for n in ns) for g, ns in NAMES.items()}
    vp.check(isinstance(err, ValueError) if min(tot.values()) == 0 else err is None, "a group without weight is an error, and nothing else is")
    if err is not None: vp.reach("no weight"); return
    ok = []
    for g, ns in NAMES.items():
        x = getattr(b, g + "_metrics"); ok += [near(vp, x * tot[g], sum(w[n] * v[n + "_likelihood"] for n in ns)), x >= 0, x <= 1 + 1e-5]
    vp.check(vp.and_(*ok), "a group's score is the weighted mean of its likelihoods")
    vp.check(vp.and_(*[near(vp, getattr(b, q), v[r]) for q, r in dict(realism_meta_metric="metametric", min_ade="min_average_displacement_error", simulated_collision_rate="simulated_collision_rate", simulated_offroad_rate="simulated_offroad_rate", simulated_traffic_light_violation_rate="simulated_traffic_light_violation_rate").items()]), "the other figures are passed on")
    vp.reach("end")
def dataset(vp, n):
    p, m = load_(vp); N = 1 + vp.choice("scenarios", n); l = []; first = {}
    for i in range(N):
        s, v = metrics(vp, p); s.scenario_id = "s%d" % i; l.append((s, v))
    for r in range(N):
        a = m.aggregate_scenario_metrics([x[0] for x in l[r:] + l[:r]]); vp.check(not a.HasField("scenario_id"), "no scenario id")
        vp.check(vp.and_(*[near(vp, getattr(a, f) * N, sum(v[f] for _, v in l)) for f in l[0][1]]), "every figure is the mean over the scenarios")
    vp.check(all(s.scenario_id == "s%d" % i for i, (s, _) in enumerate(l)), "the inputs are left alone"); vp.reach("end")
def configs(vp):
    """the configurations of the challenges: weights that make a mean"""
    from google.protobuf import text_format
    p, m = load_(vp); from waymo_open_dataset.protos import sim_agents_metrics_pb2 as real; from waymo_open_dataset.utils.sim_agents import submission_specs as s
    c = [x for x in s.ChallengeType]; k = vp.choice("challenge", len(c)); m.sim_agents_metrics_pb2 = real; import os; root = os.environ.get("VP_REPO", "/repo") + "/src"
    m.open = lambda f, *a, **kw: open(f if os.path.isabs(f) else root + "/" + f, *a, **kw); err, q = vp.raises(lambda: m.load_metrics_config(c[k]))
    if isinstance(err, OSError): vp.lost("the configuration is read from elsewhere")
    vp.check(err is None, "loading raises"); w = [getattr(q, n).metametric_weight for n in ALL]
    vp.check(abs(sum(w) - 1) < 1e-6 and min(w) >= 0, "weights of a challenge are non-negative and sum to one"); vp.reach("end")
