// M19: the miss rate of a multi-modal prediction.
#include "mo.h"
extern "C" void vp_property() {
  const int R = 2, H = 1, T = 2;
  const int nobj = OBJ, nj = NJ, K = vp_choice("k", NJ + (NJ > 1)) + 1;
  const int step = vp_choice("step", 2);
  MotionMetricsConfig c = MakeConfig(H, T * R, R, K);
  AddStep(&c, step, 1.5, 3);
  c.set_speed_lower_bound(2); c.set_speed_upper_bound(10); const double top = vp_choice("scale_upper", 2) ? 2 : 1; c.set_speed_scale_lower(0.5); c.set_speed_scale_upper(top);
  Scenario s; s.set_scenario_id("s");
  ScenarioPredictions p; p.set_scenario_id("s");
  auto* mm = p.add_multi_modal_predictions();
  // |lateral| and |longitudinal| error at the step and the speed now, per object and prediction
  const int fixed[3][2][2] = {{{40, 8}, {10, -3}}, {{42, 9}, {11, -7}}, {{36, 6}, {12, -5}}};
  std::vector<double> scale(nobj), X(nobj), Y(nobj), C(nobj), S(nobj); bool ok = true;
  for (int o = 0; o < nobj; ++o) {
    Track* t = AddTrack(&s, 7 + o, o ? Track::TYPE_PEDESTRIAN : Track::TYPE_VEHICLE, H + 1 + T * R); s.add_tracks_to_predict()->set_track_index(o);
#if SPEED
    const double v = vp_grid("speed", 0, 320, 4);
#else
    const double speeds[3] = {1, 6, 12}; const double v = speeds[o == 0 ? vp_choice("speed", 3) : 1];
#endif
    t->mutable_states(H)->set_velocity_x(o ? 0.f : 3.f * v / 5); t->mutable_states(H)->set_velocity_y(o ? v : 4.f * v / 5);
    scale[o] = vp_ite(v < 2, 0.5, vp_ite(v > 10, top, 0.5 + (top - 0.5) * (v - 2) / 8));
    t->mutable_states(H)->set_valid(false);  // no overlap and no average precision
    const double hs[4] = {0, 1.5707963267948966, 3.141592653589793, 0.6435011087932844}; const double h = hs[o == 0 ? vp_choice("heading", 4) : 1];
    const double cc[4] = {1, 0, -1, 0.8}, ss[4] = {0, 1, 0, 0.6}; for (int i = 0; i < 4; ++i) if (h == hs[i]) { C[o] = cc[i]; S[o] = ss[i]; }
    auto* st = t->mutable_states(H + (step + 1) * R);
    t->mutable_states(H)->set_heading(2.5);
    st->set_heading(h);
    const bool v0 = vp_choice("valid", 2); st->set_valid(v0); ok &= v0;
#if SPEED
    const double gx[3] = {40, 41.5, 37}, gy[3] = {8, 8.5, 6}; const int w = o == 0 ? vp_choice("place", 3) : 0;
    X[o] = o ? 10 : gx[w]; Y[o] = o ? -3 : gy[w];
#else
    X[o] = vp_grid("x", 0, 640, 3); Y[o] = vp_grid("y", -256, 256, 3);
#endif
    st->set_center_x(X[o]); st->set_center_y(Y[o]);
  }
  for (int j = 0; j < nj; ++j) {
    auto* jp = mm->add_joint_predictions(); jp->set_confidence(j == 1 ? 0.75 : 0.125);
    for (int o = 0; o < nobj; ++o) {
      std::vector<float> x, y;
      for (int t = 0; t < T; ++t) { x.push_back(fixed[j][o][0] + (t == step ? 0 : 500)); y.push_back(fixed[j][o][1]); }
      AddTrajectory(jp, 7 + o, x, y);
    }
  }
  BucketedMetricsStats st;
  vp_assert(ComputeMetricsStats(c, p, s, &st).ok(), "well-formed input is accepted");
  // hit: some prediction well within all thresholds; gone: each prediction well outside some threshold
  bool hit = false, gone = true; const double e = 1e-3;
  for (int j = 0; j < nj && j < K; ++j) {
    bool in = true, out = false;
    for (int o = 0; o < nobj; ++o) {
      const double dx = fixed[j][o][0] - X[o], dy = fixed[j][o][1] - Y[o];
      const double lon = Abs(C[o] * dx + S[o] * dy), lat = Abs(C[o] * dy - S[o] * dx);
      in = vp_and(in, vp_and(lat <= 1.5 * scale[o] - e, lon <= 3 * scale[o] - e)); out = vp_or(out, vp_or(lat > 1.5 * scale[o] + e, lon > 3 * scale[o] + e));
    }
    hit = vp_or(hit, in); gone = vp_and(gone, out);
  }
  const auto type = nobj > 1 ? Track::TYPE_PEDESTRIAN : Track::TYPE_VEHICLE;
  vp_assert(st.stats.size() == 1 && st.stats.count(type) == 1, "type of the prediction");
  const Accumulator& a = st.stats[type][step].miss_rate;
  vp_assert(a.num_measurements == (ok ? 1 : 0), "one measurement exactly when every object is valid at the step");
  if (ok) {
    vp_assert(a.total == 0 || a.total == 1, "a miss or not");
    vp_assert(vp_or(vp_not(hit), a.total == 0), "no miss when one of the first K predictions has all objects within the thresholds");
    vp_assert(vp_or(vp_not(gone), a.total == 1), "a miss when each of the first K predictions has an object beyond a threshold");
    vp_reach("inside");
  } else vp_assert(a.total == 0, "nothing accumulated");
  vp_reach("end");
}
