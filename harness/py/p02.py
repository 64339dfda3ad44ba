"""P02: rater feedback score."""
import numpy as np
N = 20
def line(dx, dy, n=N): return [(dx * (t + 1), dy * (t + 1)) for t in range(n)]
# rater trajectories (any length) and their directions at 3 s and 5 s
def raters():
    still = [(0.0, 0.0)] * N
    stop = [(0.0, 0.5 * min(t + 1, 6)) for t in range(N)]
    turn = [(0.5 * min(t + 1, 13), 0.75 * max(0, t - 12)) for t in range(N)]
    return [
        (line(1.0, 0.0), [(1, 0), (1, 0)]), (line(0.75, 1.0), [(0.6, 0.8), (0.6, 0.8)]), (still, [(1, 0), (1, 0)]), (stop, [(0, 1), (0, 1)]), (turn, [(1, 0), (0, 1)]),
        (line(0.0, -0.25, 15), [(0, -1), (0, -1)]), (line(-0.5, 0.0, 26), [(-1, 0), (-1, 0)]), ([(0.0, 0.0)] * 2 + line(0.0, 1.0, 8), [(0, 1), (0, 1)]),
    ]
SETS = [([0, 1, 2], [8.0, 3.0, 10.0]), ([3], [6.5]), ([4, 5], [2.0, 9.0]), ([6, 2, 0, 1], [5.0, 5.0, 0.0, 10.0]), ([7, 1], [0.0, 7.0])]
MULT = [(1.0, 4.0), (2.0, 1.0)]
def at(tr, t): return tr[min(t, len(tr) - 1)]
def thresholds(v, mult):
    sc = 0.5 + 0.5 * (v - 1.4) / (11 - 1.4)
    return sc, [(b * mult[0], b * mult[1]) for b in (1.0, 1.8)]
def oracle(vp, points, sc, mult, R, lab, decay, floor):
    """score of one predicted trajectory given its places at 3 s and 5 s"""
    best = []; inside = []
    nd = [[None, None] for _ in R]
    for p, (tr, d) in enumerate(R):
        for k in (0, 1):
            c = at(tr, 11 if k == 0 else 19); b = 1.0 if k == 0 else 1.8
            vx, vy = points[k][0] - c[0], points[k][1] - c[1]; ux, uy = d[k]
            lon = vp.abs(ux * vx + uy * vy); lat = vp.abs(ux * vy - uy * vx)
            nd[p][k] = vp.max(lon / (sc * (b * mult[1])), lat / (sc * (b * mult[0])))
        inside.append(vp.and_(nd[p][0] <= 1, nd[p][1] <= 1))
    for k in (0, 1): best.append(vp.max(*[lab[p] * vp.pow(decay, vp.max(nd[p][k] - 1, 0.0)) for p in range(len(R))]))
    s = (best[0] + best[1]) / 2; ins = vp.or_(*inside)
    return vp.ite(ins, s, vp.max(s, floor)), ins
def setup_case(vp, m, nset):
    ids, lab = SETS[nset]; A = raters(); R = [A[i] for i in ids]
    return R, lab, [np.array(r[0]) for r in R], np.array(lab)
def near(vp, a, b): return vp.and_(a - b < 1e-6, b - a < 1e-6)
def score(vp, sets, which, I=1):
    """which: '3' or '5' - the place at that time is arbitrary, the other one of three"""
    m = vp.load("waymo_open_dataset.metrics.python.rater_feedback_utils")
    R, lab, tr, la = setup_case(vp, m, sets[vp.choice("raters", len(sets))]); mult = MULT[vp.choice("multipliers", 2)]
    v = [0.0, 6.2, 25.0][vp.choice("speed", 3)]; sc = min(max(thresholds(v, mult)[0], 0.5), 1.0); floor = [4.0, 1.0][vp.choice("floor", 2)]; decay = 0.1
    probs = [[1.0], [0.25, 0.75]][I - 1]; inf = []; pts = []
    for i in range(I):
        a = [[7.0 * i - 50 + t, 3.0 * i + 30] for t in range(N)]
        free = (vp.grid("x", -256, 512, 4), vp.grid("y", -256, 512, 4))
        other = [at(R[0][0], 19 if which == 3 else 11), (6.0, 3.5), (-40.0, 40.0)][vp.choice("other", 3) if i == 0 else 0]
        p3, p5 = (free, other) if which == 3 else (other, free)
        a[11] = list(p3); a[19] = list(p5); inf.append(a); pts.append((p3, p5))
    e, out = vp.raises(lambda: m.get_rater_feedback_score(vp.arr([inf]), np.array([probs]), [tr], [la], np.array([v]), lat_lng_threshold_multipliers=mult, decay_factor=decay, minimum_score_outside_trust_region=floor))
    vp.check(e is None, "well-formed input is scored")
    K = min(len(R), 3); want = 0.0; ins = []
    for i in range(I):
        s, n = oracle(vp, pts[i], sc, mult, R[:K], lab[:K], decay, floor); want = want + probs[i] * s; ins.append(n)
    got = out["rater_feedback_score"][0]
    vp.check(vp.and_(*[vp.and_(vp.implies(out["is_fully_within_trust_region"][0][i], ins[i]), vp.implies(ins[i], out["is_fully_within_trust_region"][0][i])) for i in range(I)]), "inside the trust region exactly when both places are")
    vp.check(near(vp, got, want), "the score is the documented one")
    vp.check(vp.and_(got <= max(max(lab[:K]), floor) + 1e-9, got >= 0), "between 0 and the largest rater score or the floor")
    vp.reach("end")
def speed(vp):
    """the speed is arbitrary, the places are a few fixed ones"""
    m = vp.load("waymo_open_dataset.metrics.python.rater_feedback_utils")
    R, lab, tr, la = setup_case(vp, m, [0, 2][vp.choice("raters", 2)]); mult = MULT[0]
    v = vp.grid("speed", 0, 512, 4); B = [(12.5, 0.75), (10.0, 1.5), (9.0, 11.0)][vp.choice("place3", 3)]; C = [(20.0, 0.0), (17.0, -1.25), (14.0, 21.0)][vp.choice("place5", 3)]
    a = [[0.0, 0.0]] * N; a[11] = list(B); a[19] = list(C)
    out = m.get_rater_feedback_score(vp.arr([[a]]), np.array([[1.0]]), [tr], [la], vp.arr([v]), lat_lng_threshold_multipliers=mult)
    sc = vp.min(vp.max(thresholds(v, mult)[0], 0.5), 1.0); K = min(len(R), 3)
    want, ins = oracle(vp, (B, C), sc, mult, R[:K], lab[:K], 0.1, 4.0)
    vp.check(near(vp, out["rater_feedback_score"][0], want), "the score is the documented one at every speed")
    vp.reach("end")
def shapes(vp):
    """padding and truncation, batches, wrong sizes, trust region output"""
    m = vp.load("waymo_open_dataset.metrics.python.rater_feedback_utils"); A = raters()
    n = 1 + vp.choice("raters", 4); target = 1 + vp.choice("target", 4); W = 18 + vp.choice("waypoints", 6); nl = n + (vp.choice("labels", 3) - 1)
    tr = [np.array(A[i + vp.choice("start", 2) * 3][0]) for i in range(n)]; x = [vp.grid("x", -64, 64, 2) for _ in range(n)]; y = [vp.grid("label", 0, 40, 2) for _ in range(max(nl, 0))]
    tr = [vp.arr([[x[i] + p[0], p[1]] for p in t]) for i, t in enumerate(tr)]
    e, r = vp.raises(lambda: m.process_rater_specified_trajectories([tr], [vp.arr(y)], W, target))
    if nl != n: vp.check(isinstance(e, ValueError), "different numbers of trajectories and labels are refused"); vp.reach("end"); return
    vp.check(e is None, "padded"); T, L = r
    vp.check(tuple(T.shape) == (1, target, W, 2) and tuple(L.shape) == (1, target), "shapes"); ok = []
    for i in range(target):
        j = min(i, n - 1); ok.append(L[0][i] == y[j])
        for t in range(W):
            q = tr[j][min(t, len(tr[j]) - 1)]; ok += [T[0][i][t][0] == q[0], T[0][i][t][1] == q[1]]
    vp.check(vp.and_(*ok), "the last trajectory, label and waypoint are repeated, the first ones kept")
    vp.reach("end")
def region(vp):
    m = vp.load("waymo_open_dataset.metrics.python.rater_feedback_utils"); A = raters(); sel = [[0, 1, 3], [4, 2, 7]][vp.choice("raters", 2)]; mult = MULT[vp.choice("multipliers", 2)]
    v = vp.grid("speed", 0, 512, 4); tr = [[np.array(A[i][0]) for i in sel], [np.array(A[i][0]) for i in sel[::-1]]]; la = [np.array([1.0, 2.0, 3.0])] * 2
    out = m.get_rater_feedback_score(vp.arr(np.full((2, 1, N, 2), 2.0)), np.array([[1.0], [1.0]]), tr, la, vp.arr([v, 4.0]), lat_lng_threshold_multipliers=mult, output_trust_region_visualization=True)
    ok = []
    for b, (ids, vv) in enumerate([(sel, v), (sel[::-1], 4.0)]):
        sc = vp.min(vp.max(thresholds(vv, mult)[0], 0.5), 1.0)
        for k, base in enumerate((1.0, 1.8)):
            ok += [near(vp, out["trust_region_width"][b][k], 2 * sc * base * mult[1]), near(vp, out["trust_region_height"][b][k], 2 * sc * base * mult[0])]
            for p, i in enumerate(ids):
                c = at(A[i][0], (11, 19)[k]); d = A[i][1][k]; g = float(out["trust_region_angle"][b][p][k])
                ok += [near(vp, out["trust_region_center_x"][b][p][k], c[0]), near(vp, out["trust_region_center_y"][b][p][k], c[1]), abs(g - np.degrees(np.arctan2(d[1], d[0]))) < 1e-6]
    vp.check(vp.and_(*ok), "trust regions lie at the rater's places with the documented sizes and directions")
    vp.reach("end")
