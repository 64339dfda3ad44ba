// S05: malformed scenarios (compiled with the container's own index checks on, so that an index outside an array aborts).
#include "sc.h"
extern "C" void vp_property() {
  const int P = 2, Fu = 1, S = 3; Cfg c; c.set_num_past_steps(P); c.set_num_future_steps(Fu); c.set_max_num_agents(2); c.set_max_num_modeled_agents(2); c.set_max_roadgraph_samples(3); c.set_max_traffic_light_control_points_per_step(1); c.set_polygon_sample_spacing(0);
  Scenario s; s.set_scenario_id("bad");
#if MODE == 0  // lengths
  const int T = vp_choice("times", 6), N = vp_choice("tracks", 3); for (int t = 0; t < T; ++t) s.add_timestamps_seconds(t);
  for (int i = 0; i < N; ++i) { auto* k = s.add_tracks(); k->set_id(7 + i); k->set_object_type(Track::TYPE_VEHICLE); const int n = vp_choice("states", 6); for (int t = 0; t < n; ++t) { auto* o = k->add_states(); o->set_valid(i == 0 || vp_bool("valid")); o->set_center_x(5 * i); } }
  s.set_sdc_track_index(vp_int("sdc", -2, 3)); const int lights = vp_choice("lights", 5); for (int t = 0; t < lights; ++t) s.add_dynamic_map_states()->add_lane_states()->set_lane(4);
  if (N) s.add_tracks_to_predict()->set_track_index(N - 1); s.add_objects_of_interest(7);
#elif MODE == 1  // indices, ids, slots
  const int N = 1 + vp_choice("tracks", 3); for (int t = 0; t < S; ++t) s.add_timestamps_seconds(t); const bool dup = vp_choice("same", 2);
  for (int i = 0; i < N; ++i) { auto* k = s.add_tracks(); k->set_id(dup ? 7 : 7 + i); k->set_object_type(Track::TYPE_VEHICLE); for (int t = 0; t < S; ++t) { auto* o = k->add_states(); o->set_valid(t != 1 || vp_bool("valid")); o->set_center_x(5 * i); } }
  s.set_sdc_track_index(vp_int("sdc", -2147483648, 2147483647)); const int nr = vp_choice("required", 4); for (int r = 0; r < nr; ++r) { auto* p = s.add_tracks_to_predict(); p->set_track_index(r + 1 < nr ? r % N : vp_int("index", -2147483648, 2147483647)); }
  const int no = vp_choice("interest", 2); for (int r = 0; r < no; ++r) s.add_objects_of_interest(vp_int("object", -2147483648, 2147483647));
  c.set_max_num_agents(1 + vp_choice("agents", 4)); c.set_max_num_modeled_agents(1 + vp_choice("modeled", 3));
#else  // map features with missing geometry
  for (int t = 0; t < S; ++t) s.add_timestamps_seconds(t); auto* k = s.add_tracks(); k->set_id(7); k->set_object_type(Track::TYPE_VEHICLE); for (int t = 0; t < S; ++t) k->add_states()->set_valid(true); s.set_sdc_track_index(0); s.add_tracks_to_predict()->set_track_index(0);
  const int M = vp_choice("features", 3); c.set_max_roadgraph_samples(vp_choice("budget", 4)); c.set_polygon_sample_spacing(vp_choice("spacing", 2)); c.set_max_traffic_light_control_points_per_step(vp_choice("slots", 2));
  for (int i = 0; i < M; ++i) { auto* f = s.add_map_features(); const int kind = i == 0 ? vp_choice("kind", 8) : vp_choice("second", 2) * 3, n = kind == 7 || kind == 2 ? 0 : i == 0 ? vp_choice("points", 4) : 2 * vp_choice("some", 2); google::protobuf::RepeatedPtrField<MapPoint>* pl = nullptr;
    switch (kind) { case 0: pl = f->mutable_lane()->mutable_polyline(); f->mutable_lane()->set_type(LaneCenter::LaneType(vp_choice("type", 2) * 3)); break; case 1: pl = f->mutable_road_line()->mutable_polyline(); break; case 2: f->mutable_stop_sign(); break; case 3: pl = f->mutable_crosswalk()->mutable_polygon(); break; case 4: pl = f->mutable_speed_bump()->mutable_polygon(); break; case 5: pl = f->mutable_road_edge()->mutable_polyline(); break; case 6: pl = f->mutable_driveway()->mutable_polygon(); break; }
    for (int j = 0; j < n; ++j) { auto* q = pl->Add(); q->set_x(3 * vp_choice("apart", 2)); } }
#endif
  std::map<std::string, int> cnt; const bool count = vp_choice("counters", 2); auto r = ScenarioToExample(s, c, count ? &cnt : nullptr);
  if (!r.ok()) vp_reach("error"); else { vp_assert(Layout(*r, c), "a result is well formed"); vp_reach("result"); }
#if MODE == 0
  vp_assert(r.ok() == (T >= P && N > 0 && s.sdc_track_index() >= 0 && s.sdc_track_index() < N && [&] { for (auto& k : s.tracks()) if (k.states_size() != T) return false; return bool(s.tracks(N - 1).states(P - 1).valid()); }()), "accepted exactly when the lengths agree");
#endif
  vp_reach("end");
}
