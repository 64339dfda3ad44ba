// S04: traffic light features.
#include "sc.h"
extern "C" void vp_property() {
  const int PS[3] = {2, 1, 3}, FS[3] = {1, 1, 0}; const int shape = vp_choice("steps", 3), P = PS[shape], Fu = FS[shape], S = P + Fu; const int M = 1 + vp_choice("slots", 3);
  Cfg c; c.set_max_num_agents(1); c.set_max_num_modeled_agents(1); c.set_num_past_steps(P); c.set_num_future_steps(Fu); c.set_max_roadgraph_samples(1); c.set_max_traffic_light_control_points_per_step(M);
  Scenario s; s.set_scenario_id("l"); s.set_sdc_track_index(0); auto* k = s.add_tracks(); k->set_id(5); k->set_object_type(Track::TYPE_VEHICLE); s.add_tracks_to_predict()->set_track_index(0); const double t0 = vp_grid("time", 0, 160, 3);
  for (int t = 0; t < S; ++t) { s.add_timestamps_seconds(t0 + t * 0.125); k->add_states()->set_valid(true); }
  struct L { int64_t id; int st; double x, y, z; }; std::vector<std::vector<L>> ls; const int D = S - vp_choice("missing", 3) + vp_choice("extra", 2);
  for (int t = 0; t < D; ++t) { auto* d = s.add_dynamic_map_states(); const int n = vp_choice("lights", NL); std::vector<L> v;
    for (int i = 0; i < n; ++i) { L l{vp_long("lane", -(1L << 52), 1L << 52), vp_int("state", 0, 8), vp_grid("x", -65536, 65536, 3), vp_grid("y", -65536, 65536, 3), vp_grid("z", -800, 800, 3)}; auto* q = d->add_lane_states(); q->set_lane(l.id); q->set_state(TrafficSignalLaneState::State(l.st)); q->mutable_stop_point()->set_x(l.x); q->mutable_stop_point()->set_y(l.y); q->mutable_stop_point()->set_z(l.z); v.push_back(l); }
    ls.push_back(v); }
  std::map<std::string, int> cnt; auto r = ScenarioToExample(s, c, &cnt); vp_assert(r.ok(), "conversion succeeds"); const auto& e = *r; vp_assert(Layout(e, c), "feature lengths");
  const int n[3] = {P - 1, 1, Fu}, off[3] = {0, P - 1, P};
  for (int w = 0; w < 3; ++w) for (int a = 0; a < n[w]; ++a) { const int t = off[w] + a; const std::string p = std::string("traffic_light_state/") + TIMES[w];
    const bool have = t < D; if (have) { const double dt = I(e, p + "timestamp_micros", a) - (t0 + t * 0.125) * 1e6; vp_assert(Abs(dt) <= 3, "time of the step"); } else vp_assert(I(e, p + "timestamp_micros", a) == -1, "a missing step has no time");
    for (int i = 0; i < M; ++i) { const int at = a * M + i; const bool v = have && i < int(ls[t].size()); vp_assert(I(e, p + "valid", at) == (v ? 1 : 0), "a slot is valid exactly when the step has that lane");
      if (!v) { vp_assert(I(e, p + "id", at) == -1 && I(e, p + "state", at) == -1 && F(e, p + "x", at) == -1 && F(e, p + "y", at) == -1 && F(e, p + "z", at) == -1, "an empty slot carries no values"); continue; }
      const L& l = ls[t][i]; vp_assert(I(e, p + "id", at) == l.id, "lane of the slot"); vp_assert(I(e, p + "state", at) == l.st, "state of the lane at the step");
      vp_assert(vp_and(F(e, p + "x", at) == float(l.x), vp_and(F(e, p + "y", at) == float(l.y), F(e, p + "z", at) == float(l.z))), "stop point of the lane at the step"); if (t == S - 1) vp_reach("last"); } }
  vp_reach("end");
}
