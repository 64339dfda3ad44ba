// S01: fixed feature layout, whatever the number of tracks, steps, lights and map features.
#include "sc.h"
extern "C" void vp_property() {
  const int A = 1 + vp_choice("agents", NA), P = NF > 1 ? 2 : 1 + vp_choice("past", 3), Fu = NF > 1 ? 1 : vp_choice("future", 3), R = vp_choice("samples", NR), L = vp_choice("lights", NLIGHT), K = 1 + vp_choice("modeled", 2); vp_assume(K <= A);
  Cfg c; c.set_max_num_agents(A); c.set_max_num_modeled_agents(K); c.set_num_past_steps(P); c.set_num_future_steps(Fu); c.set_max_roadgraph_samples(R); c.set_max_traffic_light_control_points_per_step(L); c.set_polygon_sample_spacing(0); c.set_polyline_sample_spacing(0.5);
  Scenario s; s.set_scenario_id("any"); const int S = P + Fu, T = vp_choice("short", 2) ? P : S + vp_choice("long", 2);  // a test scenario ends at the current step
  for (int t = 0; t < T; ++t) s.add_timestamps_seconds(t * 0.125);
  const int N = 1 + (NF > 1 ? 1 : vp_choice("tracks", 3)); for (int i = 0; i < N; ++i) { auto* k = s.add_tracks(); k->set_id(i + 1); k->set_object_type(Track::ObjectType(1 + i)); for (int t = 0; t < T; ++t) { auto* o = k->add_states(); o->set_valid(NF > 1 || (t == P - 1 && i == 0) || (t != P - 1 && t != T - 1) ? (t + i) % 3 != 0 || i == 0 : vp_bool("valid")); o->set_center_x(i * 3); } s.add_tracks_to_predict()->set_track_index(i); }
  s.set_sdc_track_index(0);
  const int D = vp_choice("lightsteps", 2) * T; for (int t = 0; t < D; ++t) { auto* d = s.add_dynamic_map_states(); const int n = NLIGHT > 1 ? vp_itei(t == 0, 3, 1) : 1; for (int i = 0; i < n; ++i) d->add_lane_states()->set_lane(i + 1); }
  const int M = vp_choice("features", NF); for (int i = 0; i < M; ++i) { auto* f = s.add_map_features(); f->set_id(i + 1); google::protobuf::RepeatedPtrField<MapPoint>* pl; const int k = vp_choice("kind", 3); if (k == 0) pl = f->mutable_lane()->mutable_polyline(); else if (k == 1) pl = f->mutable_driveway()->mutable_polygon(); else { f->mutable_stop_sign()->mutable_position(); continue; } for (int j = 0; j < 3; ++j) P3(pl->Add(), j, i, 0); }
  auto r = ScenarioToExample(s, c); vp_assert(r.ok(), "conversion succeeds"); const auto& e = *r; vp_assert(Layout(e, c), "every feature has its configured length");
  const int n[3] = {P - 1, 1, Fu}, off[3] = {0, P - 1, P};
  for (int w = 0; w < 3; ++w) for (int a = 0; a < A; ++a) for (int k = 0; k < n[w]; ++k) if (a >= N || off[w] + k >= T) { const std::string p = std::string("state/") + TIMES[w]; const int at = a * n[w] + k; vp_assert(I(e, p + "valid", at) == 0 && I(e, p + "timestamp_micros", at) == -1 && F(e, p + "x", at) == -1 && F(e, p + "bbox_yaw", at) == -1, "padding is marked invalid"); vp_reach("padded"); }
  if (N > A) vp_reach("dropped");
  vp_reach("end");
}
