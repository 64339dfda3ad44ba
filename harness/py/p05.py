"""P05: validation of simulation submissions and the sets of simulated and evaluated objects."""
import fp
class Any:
    """a repeated number field of arbitrary length"""
    def __init__(self, n): self.sym_len = n; self.n = n
    def __len__(self): return int(self.n)
class Traj:
    def __init__(self, vp, i, ls):
        self.object_id = i
        for k, l in zip(("center_x", "center_y", "center_z", "heading"), ls): setattr(self, k, Any(l) if vp.symbolic else [0.0] * l)
class Box: pass
def box(**kw): b = Box(); b.__dict__.update(kw); return b
class Scenario(Box): pass
class Rollouts:
    def __init__(self, has, scenes): self.has, self.joint_scenes = has, scenes; self.scenario_id = "s" if has else ""
    def HasField(self, k):
        if k != "scenario_id": raise ValueError(k)
        return self.has
class Scenes:
    """a given number of scenes that are all the same"""
    def __init__(self, n, s): self.sym_len = n; self.s = s
    def __len__(self): return int(self.sym_len)
    def __getitem__(self, i):
        if isinstance(i, slice): return [self.s] * len(range(*i.indices(len(self))))
        if i >= self.sym_len: raise IndexError(i)
        return self.s
    def __iter__(self): return iter([self.s])
def scenario(vp, n, steps=11):
    tracks = []; ids = []; valid = []
    for k in range(n):
        i = vp.int("track_id", -2, 6); ids.append(i); v = vp.bool("valid"); valid.append(v); other = vp.bool("other_states")
        tracks.append(box(id=i, states=[box(valid=v if t == 10 else other) for t in range(steps)]))
    for a in range(n):
        for b in range(a): vp.assume(ids[a] != ids[b])
    return tracks, ids, valid
def mod(vp):
    vp.core.opaque_text = True; return vp.load("waymo_open_dataset.utils.sim_agents.submission_specs")
def kinds(m): return [m.ChallengeType.SIM_AGENTS, m.ChallengeType.SCENARIO_GEN]
def scene(vp, tracks, trajs):
    """exactly the objects valid at the current step, each once, every field of the required length"""
    m = mod(vp); ti, ids, valid = scenario(vp, vp.conc(vp.int("tracks", 0, tracks))); k = vp.choice("challenge", 2); need = (80, 91)[k]
    tr = []; lens = []; sim = []
    for j in range(vp.conc(vp.int("trajectories", 0, trajs))):
        f = vp.choice("wrong_field", 5); ls = [need] * 4
        if f: ls[f - 1] = vp.int("length", 0, 200)
        i = vp.int("simulated_id", -2, 6); sim.append(i); lens.append(vp.and_(*[l == need for l in ls])); tr.append(Traj(vp, i, ls))
    want = vp.and_(True, *lens, *[vp.or_(False, *[vp.and_(valid[a], ids[a] == s) for a in range(len(ids))]) for s in sim], *[vp.implies(valid[a], vp.or_(False, *[ids[a] == s for s in sim])) for a in range(len(ids))], *[sim[a] != sim[b] for a in range(len(sim)) for b in range(a)])
    e, _ = vp.raises(lambda: m.validate_joint_scene(box(simulated_trajectories=tr), box(tracks=ti), kinds(m)[k]))
    vp.check(e is None or isinstance(e, ValueError), "a wrong scene is reported as such")
    vp.check(vp.implies(want, e is None), "a complete scene is accepted"); vp.check(vp.implies(e is None, want), "an incomplete, extra, repeated or wrongly long scene is rejected")
    if e is None and sim: vp.reach("accepted")
    vp.reach("end")
def rollouts(vp):
    """the required number of rollouts, each a complete scene"""
    m = mod(vp); ti, ids, valid = scenario(vp, 1); vp.assume(valid[0]); k = vp.choice("challenge", 3); need = (80, 91, 80)[k]
    n = vp.conc(vp.int("rollouts", 30, 34)); bad = [-1, 0, 1, 16, 31, 33][vp.choice("bad_scene", 6)]; has = vp.conc(vp.bool("has_scenario_id")); kind = vp.choice("defect", 3); ext = vp.int("length", 0, 200) if kind == 0 else need
    wrong = vp.int("other_id", -2, 6) if kind == 1 else ids[0]; scenes = []; ok = []
    for j in range(n):
        here = bad == j
        if vp.conc(here): scenes.append(box(simulated_trajectories=[] if kind == 2 else [Traj(vp, wrong, [need, need, need, ext])])); ok.append(vp.and_(kind != 2, wrong == ids[0], ext == need))
        else: scenes.append(box(simulated_trajectories=[Traj(vp, ids[0], [need] * 4)]))
    a = [] if k == 2 else [kinds(m)[k]]
    e, _ = vp.raises(lambda: m.validate_scenario_rollouts(Rollouts(has, scenes), box(tracks=ti), *a)); want = vp.and_(has, n == 32, *ok)
    vp.check(e is None or isinstance(e, ValueError), "a wrong submission is reported as such")
    vp.check(vp.implies(want, e is None), "a complete submission is accepted"); vp.check(vp.implies(e is None, want), "an incomplete submission is rejected")
    if e is None: vp.reach("accepted")
    vp.reach("end")
def objects(vp, tracks):
    """objects to simulate: valid at the current step, in order; objects to evaluate: the vehicle itself and the listed ones, sorted, once"""
    m = mod(vp); n = vp.conc(vp.int("tracks", 1, tracks)); ti, ids, valid = scenario(vp, n); K = kinds(m); k = vp.choice("challenge", 2)
    sdc = vp.conc(vp.int("sdc", 0, n - 1)); tp = [vp.conc(vp.int("to_predict", 0, n - 1)) for _ in range(vp.conc(vp.int("predictions", 0, 3)))]
    sc = box(tracks=ti, sdc_track_index=sdc, tracks_to_predict=[box(track_index=i) for i in tp])
    got = list(m.get_sim_agent_ids(sc, K[k])); want = [ids[a] for a in range(n) if vp.conc(valid[a])]
    vp.check(len(got) == len(want) and vp.and_(True, *[x == y for x, y in zip(got, want)]), "simulated objects are those valid at the current step")
    got = list(m.get_evaluation_sim_agent_ids(sc, K[k]))
    if k == 1: vp.check(len(got) == len(want) and vp.and_(True, *[x == y for x, y in zip(got, want)]), "every generated object is evaluated")
    else:
        req = sorted({sdc, *tp}); vp.check(len(got) == len(req), "every evaluated object is listed once")
        vp.check(vp.and_(True, *[got[i] < got[i + 1] for i in range(len(got) - 1)], *[vp.or_(*[g == ids[r] for r in req]) for g in got]), "evaluated objects are the vehicle and the listed ones in increasing order")
    vp.reach("end")
def config(vp):
    m = mod(vp); k = vp.choice("challenge", 2); c = m.get_submission_config(kinds(m)[k])
    vp.check((c.current_time_index, c.n_rollouts, c.n_simulation_steps) == (10, 32, (80, 91)[k]) and abs(c.step_duration_seconds - 0.1) < 1e-12, "the published submission format")
    v = [vp.bool("valid") for _ in range(91)]; t = box(id=1, states=[box(valid=x) for x in v]); got = c.is_valid_sim_agent(t)
    vp.check(vp.and_(vp.implies(got, v[10]), vp.implies(v[10], got)), "validity at the current step decides"); vp.reach("end")
