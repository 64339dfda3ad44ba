// S02 (and the agent part of S01): agent slots.
#include "sc.h"
extern "C" void vp_property() {
  
#if ANYVALID == 3  // any number of valid steps besides the current one
  const int PS[] = {2}, FS[] = {3};
#else
  const int PS[] = {2, 1, 3}, FS[] = {1, 2, 0};
#endif
  const int shape = vp_choice("steps", NSHAPE), P = PS[shape], Fu = FS[shape], S = P + Fu, cur = P - 1;
  const int N = NMIN + vp_choice("tracks", NMAX - NMIN + 1), A = AMIN + vp_choice("agents", AMAX - AMIN + 1), K = 1 + vp_choice("modeled", KMAX); vp_assume(K <= A);
  Cfg c; c.set_max_num_agents(A); c.set_max_num_modeled_agents(K); c.set_num_past_steps(P); c.set_num_future_steps(Fu); c.set_max_roadgraph_samples(1); c.set_max_traffic_light_control_points_per_step(1);
  Scenario s; s.set_scenario_id("scn"); for (int t = 0; t < S; ++t) s.add_timestamps_seconds(t * 0.25 + 1);
  const int ids[4] = {70, 30, 90, 10}; const Track::ObjectType ty[4] = {Track::TYPE_VEHICLE, Track::TYPE_CYCLIST, Track::TYPE_PEDESTRIAN, Track::TYPE_OTHER};
  const double vx[3] = {3, -5, 0}, vy[3] = {4, 12, 0}, sp[3] = {5, 13, 0}, yaw[3] = {0.9272952180016122, 1.965587446494658, 0};
  std::vector<std::vector<bool>> ok(N, std::vector<bool>(S)); std::vector<double> dist(N); std::vector<std::vector<float>> X(N, std::vector<float>(S));
  const int sdc = vp_choice("sdc", N); s.set_sdc_track_index(sdc); std::vector<double> cx(N); float VAL[4][5][11]; std::vector<int> left(N, 0); if (ANYVALID == 3) for (int i = 0; i < N; ++i) left[i] = vp_choice("steps_valid", S);
  for (int i = 0; i < N; ++i) { auto* k = s.add_tracks(); k->set_id(ids[i]); k->set_object_type(ty[i]);
    for (int t = 0; t < S; ++t) { auto* o = k->add_states(); const double x = (t == cur && !FIXPOS) || ANYVALID == 1 ? vp_grid("x", -512, 512, 2) : 100 * i + 10 * t + 0.5; const bool v = ANYVALID == 3 && t != cur ? left[i]-- > 0 : (t == cur || ANYVALID) ? vp_bool("valid") : (t + i) % 2 == 0;
      ok[i][t] = v; X[i][t] = x; if (t == cur) cx[i] = x; o->set_valid(v); o->set_center_x(x); float* V = VAL[i][t]; V[1] = -40 * i - t; V[2] = i + t * 0.125; V[3] = 1 + i + t * 0.5; V[4] = 4 + i + t; V[5] = 2 + i + t * 0.25; V[9] = 0.1f * (i + 1) + t;
      if (ANYVALID == 1) { V[2] = vp_gridf("z", -512, 512, 3); V[3] = vp_gridf("width", 0, 128, 3); V[4] = vp_gridf("length", 0, 128, 3); V[5] = vp_gridf("height", 0, 128, 3); V[9] = vp_gridf("heading", -512, 512, 7); }
      o->set_center_y(V[1]); o->set_center_z(V[2]); o->set_width(V[3]); o->set_length(V[4]); o->set_height(V[5]); o->set_heading(V[9]); const int q = (i + t) % 3; o->set_velocity_x(vx[q]); o->set_velocity_y(vy[q]); } }
  // required agents: every list of up to two tracks, with difficulties
  std::vector<int> req; const int nr = 1 + vp_choice("required", NREQ); for (int r = 0; r < nr; ++r) { int j = vp_choice("which", N); req.push_back(j); auto* p = s.add_tracks_to_predict(); p->set_track_index(j); p->set_difficulty(RequiredPrediction::DifficultyLevel((j + 1) % 3)); }
  const int ooi = (!FIXPOS && !ANYVALID) || ANYVALID == 3 ? 1 : vp_choice("interest", N + 1); if (ooi < N) s.add_objects_of_interest(ids[ooi]);
  for (int i = 0; i < N; ++i) ok[i][cur] = vp_conc(ok[i][cur]);
  std::vector<bool> mod(N, false); int nm = 0; for (int j : req) if (ok[j][cur] && !mod[j] && nm < K) { mod[j] = true; ++nm; }
  auto r = ScenarioToExample(s, c);
  if (nm == 0) { vp_assert(!r.ok(), "without a valid required agent there is no example"); vp_reach("none"); vp_reach("end"); return; }
  vp_assert(r.ok(), "conversion succeeds"); const auto& e = *r;
  vp_assert(Layout(e, c), "feature lengths");
  std::vector<int> slot(N, -1), who(A, -1);
  for (int a = 0; a < A; ++a) { const float id = F(e, "state/id", a); if (id == -1) continue; int j = -1; for (int i = 0; i < N; ++i) if (ids[i] == id) j = i; vp_assert(j >= 0, "a slot holds an agent of the scenario or is padded"); vp_assert(slot[j] < 0, "an agent has one slot"); slot[j] = a; who[a] = j; }
  int pred = -1, used = 0; for (int a = 0; a < A; ++a) if (who[a] >= 0) { vp_assert(used == a, "padding comes last"); ++used; }
  vp_assert(used == (N < A ? N : A), "as many agents as fit");
  int want = 0; for (int i = 0; i < N; ++i) if (mod[i]) { vp_assert(slot[i] >= 0 && slot[i] < nm, "required agents take the first slots"); }
  for (int a = 0; a + 1 < nm; ++a) vp_assert(ids[who[a]] < ids[who[a + 1]], "required agents are ordered by id");
  // the other agents: nearest to the autonomous vehicle first, then those with more valid states
  auto D = [&](int i) { const double dx = cx[i] - cx[sdc], dy = -40.0 * (i - sdc); return dx * dx + dy * dy; };
  auto cnt = [&](int i) { int n = 0; for (int t = 0; t < S; ++t) n += ok[i][t]; return n; };
  auto nbefore = [&](int i, int j) { // i may stand before j
    if (ok[i][cur] != ok[j][cur]) return bool(ok[i][cur]);
    if (ok[i][cur]) return D(i) <= D(j) + 1e-6; return cnt(i) >= cnt(j); };
  for (int a = nm; a + 1 < used; ++a) vp_assert(nbefore(who[a], who[a + 1]), "context agents are ordered by relevance");
  if (used == A && used > nm) for (int i = 0; i < N; ++i) if (slot[i] < 0) vp_assert(nbefore(who[A - 1], i), "the least relevant agents are dropped");
  const int n[3] = {P - 1, 1, Fu}, off[3] = {0, P - 1, P};
  for (int a = 0; a < A; ++a) { const int i = who[a]; const bool pad = i < 0;
    vp_assert(F(e, "state/type", a) == (pad ? -1 : int(ty[i])), "type of the agent");
    vp_assert(I(e, "state/is_sdc", a) == (pad ? -1 : i == sdc), "vehicle flag");
    vp_assert(I(e, "state/is_context", a) == (pad ? -1 : !mod[i]) && I(e, "state/tracks_to_predict", a) == (pad ? -1 : mod[i]), "prediction flags");
    bool listed = false; for (int j : req) listed = listed || j == i;
    vp_assert(I(e, "state/difficulty_level", a) == (pad ? -1 : listed ? (i + 1) % 3 : 0), "difficulty of the agent");
    vp_assert(I(e, "state/objects_of_interest", a) == (pad ? -1 : i == ooi), "interest flag");
    for (int w = 0; w < 3; ++w) for (int k = 0; k < n[w]; ++k) { const int t = off[w] + k, at = a * n[w] + k; const std::string p = std::string("state/") + TIMES[w];
      const bool v = pad ? false : bool(ok[i][t]); vp_assert(I(e, p + "valid", at) == (v ? 1 : 0), "validity of the step");
      const float g[11] = {F(e, p + "x", at), F(e, p + "y", at), F(e, p + "z", at), F(e, p + "width", at), F(e, p + "length", at), F(e, p + "height", at), F(e, p + "velocity_x", at), F(e, p + "velocity_y", at), F(e, p + "speed", at), F(e, p + "bbox_yaw", at), F(e, p + "vel_yaw", at)};
      if (!v) { for (int z = 0; z < 11; ++z) vp_assert(g[z] == -1, "an invalid step carries no values"); vp_assert(I(e, p + "timestamp_micros", at) == -1, "an invalid step carries no time"); continue; }
      const int q = (i + t) % 3; vp_assert(g[0] == X[i][t], "x of the step");
      const float* V = VAL[i][t]; vp_all all; all &= std::fabs(g[6] - vx[q]) < 1e-4 && std::fabs(g[7] - vy[q]) < 1e-4 && std::fabs(g[8] - sp[q]) < 1e-4 && std::fabs(g[10] - yaw[q]) < 1e-4;
      for (int z : {1, 2, 3, 4, 5, 9}) all &= g[z] == V[z]; vp_assert(all, "values of the step");
      const double dt = I(e, p + "timestamp_micros", at) - (t * 0.25 + 1) * 1e6; vp_assert(std::fabs(dt) <= 2, "time of the step"); } }
  if (used > nm + 1) vp_reach("context"); if (N > A) vp_reach("dropped"); if (used < A) vp_reach("padded");
  vp_reach("end");
}
