"""P07: camera tokens."""
import fp
def setup_(vp):
    from waymo_open_dataset.protos import scenario_pb2, camera_tokens_pb2
    w = dict(scenario_pb2=fp.mod(vp, scenario_pb2)); return w["scenario_pb2"], vp.load("waymo_open_dataset.utils.womd_camera_utils", **w)
def frames(vp, s, nm, n, k, T=1):
    for f in range(vp.conc(vp.int(nm, 0, n))):
        fr = s.frame_camera_tokens.add()
        for c in range(vp.conc(vp.int(nm + "_cameras", 0, k))):
            t = fr.camera_tokens.add()
            if nm[0] == "o" or f or vp.conc(vp.bool("has_camera")): t.camera_name = vp.int("camera", 0, 8)
            for _ in range(vp.conc(vp.int("tokens", 0, T))): t.tokens.append(vp.int("token", 0, 8191))
def fill(vp, S, nm, own):
    s = S.Scenario()
    if own:
        if vp.conc(vp.bool("has_id")): s.scenario_id = "s1"
        if vp.conc(vp.bool("has_now")): s.current_time_index = vp.int("now", 0, 90)
        for _ in range(vp.conc(vp.int("times", 0, 2))): s.timestamps_seconds.append(vp.grid("time", 0, 900, 3))
        for _ in range(vp.conc(vp.int("tracks", 0, 1))):
            t = s.tracks.add(); t.id = vp.int("track", 0, 100); st = t.states.add(); st.center_x = vp.grid("x", -100, 100, 2)
        if vp.conc(vp.bool("has_sdc")): s.sdc_track_index = vp.int("sdc", 0, 5)
        if vp.conc(vp.bool("has_map")): f = s.map_features.add(); f.id = vp.int("feature", 0, 50); f.lane.SetInParent()
        if vp.conc(vp.bool("has_light")): s.dynamic_map_states.add().lane_states.add().lane = vp.int("lane", 0, 2**40)
    return s
def copy(S, s): c = S.Scenario(); c.CopyFrom(s); return c
def merge(vp, what):
    """the result is the scenario with the camera frames appended; the inputs stay as they were"""
    S, m = setup_(vp); a = fill(vp, S, "own", what == "fields"); b = S.Scenario()
    frames(vp, a, "own_frames", 1, 1); frames(vp, b, "camera_frames", 1 if what == "fields" else 2, 1 if what == "fields" else 2, 1 if what == "fields" else 2)
    a0, b0 = copy(S, a), copy(S, b); e, r = vp.raises(lambda: m.add_camera_tokens_to_scenario(a, b)); vp.check(e is None, "any camera data can be merged")
    want = copy(S, a0)
    for f in b0.frame_camera_tokens: want.frame_camera_tokens.add().CopyFrom(f)
    vp.check(fp.same_msg(r, want), "all scenario fields kept and the camera frames appended in order")
    vp.check(fp.same_msg(a, a0), "the scenario passed in is unchanged"); vp.check(fp.same_msg(b, b0), "the camera data passed in is unchanged")
    if len(b0.frame_camera_tokens): r.frame_camera_tokens[-1].camera_tokens.add(); vp.check(fp.same_msg(b, b0), "the result does not share its frames with the input"); vp.reach("frames")
    vp.reach("end")
def embed(vp, K, n):
    """row t of the codebook for every token t, rejection of any token outside"""
    S, m = setup_(vp); k = vp.conc(vp.int("rows", 1, K)); book = [[vp.grid("entry", -64, 64, 3) for _ in range(2)] for _ in range(k)]
    t = [vp.int("token", -3, K + 2) for _ in range(vp.conc(vp.int("tokens", 1, n)))]
    e, r = vp.raises(lambda: m.get_camera_embedding_from_codebook(vp.arr(book), vp.arr(t, "i"))); ok = vp.and_(*[vp.and_(x >= 0, x < k) for x in t])
    vp.check(e is None or isinstance(e, ValueError), "a token outside is reported as such"); vp.check(vp.implies(ok, e is None), "valid tokens are accepted"); vp.check(vp.implies(e is None, ok), "a token outside the codebook is rejected")
    if e is None:
        vp.check(tuple(r.shape) == (len(t), 2), "one embedding per token")
        vp.check(vp.and_(*[r[i][c] == book[vp.conc(t[i])][c] for i in range(len(t)) for c in range(2)]), "the row the token names"); vp.reach("found")
    vp.reach("end")
