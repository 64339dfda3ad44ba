// M17: validation of motion evaluation input.
#include "mo.h"
extern "C" void vp_property() {
#if MODE == 0  // configurations; nothing to predict
  const int pps = vp_choice("prediction_rate", 6) - 1, tps = vp_choice("track_rate", 9) - 1, fut = vp_int("future", 0, 100), K = vp_int("k", -2, 8), step = vp_int("step", -3, 60), step2 = vp_int("step2", -3, 60);
  MotionMetricsConfig c; c.set_track_steps_per_second(tps); c.set_prediction_steps_per_second(pps); c.set_track_history_samples(1); c.set_track_future_samples(fut); c.set_max_predictions(K); AddStep(&c, step, 1, 1); AddStep(&c, step2, 1, 1);
  Scenario s; s.set_scenario_id("s"); ScenarioPredictions p; p.set_scenario_id("s"); BucketedMetricsStats out;
  const bool ok = ComputeMetricsStats(c, p, s, &out).ok();
  bool want = pps > 0 && tps > 0 && pps <= tps && tps % pps == 0;
  if (want) { const int ratio = tps / pps; const bool in = vp_and(vp_and(step >= 0, (step + 1) * ratio <= fut), vp_and(step2 >= 0, (step2 + 1) * ratio <= fut)); want = vp_and(in, K > 0); }
  vp_assert(ok == want, "a configuration is accepted exactly when rates, K and measurement steps are in range");
  vp_reach("end");
#else
  const int R = 2, H = 1, T = 2; MotionMetricsConfig c = MakeConfig(H, T * R, R, vp_choice("k", 2) * 2 + 1); const int step = vp_choice("step", 2); AddStep(&c, step, 1, 2);
  c.set_speed_lower_bound(1); c.set_speed_upper_bound(10); c.set_speed_scale_lower(0.5); c.set_speed_scale_upper(1);
  Scenario s; s.set_scenario_id("s"); ScenarioPredictions p; p.set_scenario_id(vp_choice("other_scenario", 2) ? "t" : "s"); bool good = p.scenario_id() == "s";
  const int fault = vp_choice("fault", 9); const int NTR = 3; const int len = H + 1 + T * R;
  for (int i = 0; i < NTR; ++i) { int n = len; if (fault == 1 && vp_choice("track", NTR) == i) { n += vp_choice("longer", 2) ? 1 : -1 - 2 * vp_choice("much", 2); } if (n != len) good = false;
    Track* t = AddTrack(&s, 20 + i, i == 1 ? Track::TYPE_PEDESTRIAN : Track::TYPE_VEHICLE, n); for (auto& st : *t->mutable_states()) { st.set_center_x(100 * i); } }
  // required: two tracks, any index (also out of range or twice the same)
  std::set<int> req; for (int i = 0; i < 2; ++i) { const int ix = fault == 2 ? vp_conc(vp_int("index", -2, NTR + 1)) : i; s.add_tracks_to_predict()->set_track_index(ix); if (ix < 0 || ix >= NTR) good = false; else req.insert(20 + ix); }
  // predictions
  std::set<int> all; const bool joint = vp_choice("joint", 2); const int NMM = fault == 3 ? vp_choice("predictions", 4) : joint ? 1 : 2;
  for (int m = 0; m < NMM; ++m) {
    auto* mm = p.add_multi_modal_predictions(); const int nj = fault == 4 ? vp_choice("joints", 3) : 2; std::set<int> first;
    for (int j = 0; j < nj; ++j) {
      auto* jp = mm->add_joint_predictions(); jp->set_confidence(0.5); std::set<int> ids; const int no = fault == 5 ? vp_choice("objects", joint ? 4 : 3) : joint ? 2 : 1;
      for (int o = 0; o < no; ++o) {
        const int id = fault == 6 ? vp_conc(vp_int("id", 19, 23)) : 20 + (joint ? o % 2 : m % 2); int nx = T, ny = T;
        if (fault == 7 && m == 0 && o == 0) { nx = vp_choice("x_samples", 4); ny = vp_choice("more_y", 2) ? nx : T; } if (fault == 8 && m == NMM - 1 && j == nj - 1 && o == no - 1) { nx = T + 1 - vp_choice("x_fewer", 3); ny = T + 1 - vp_choice("y_fewer", 3); }
        if (nx != T || ny != T) good = false;
        AddTrajectory(jp, id, std::vector<float>(nx, 50), std::vector<float>(ny, 7)); ids.insert(id); all.insert(id);
      }
      if (j == 0) first = ids; else if (ids != first) good = false;
    }
  }
  if (all != req) good = false;
  BucketedMetricsStats out;
  vp_note("crash or out-of-range read when none is allowed");
  const bool ok = ComputeMetricsStats(c, p, s, &out).ok();
  vp_assert(ok == good, "accepted exactly when well formed");
  if (!ok) vp_assert(out.stats.empty(), "nothing is accumulated from rejected input"); else vp_reach("inside");
  vp_reach("end");
#endif
}
