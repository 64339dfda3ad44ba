// M20: the overlap indicator.
#include "mo.h"
extern "C" void vp_property() {
  const int T = 3, R = 2, H = 1, NJ = 2, K = vp_choice("k", 3) + 1;
  const double s2 = std::sqrt(0.5);
  const double ds[4][2] = {{1, 0}, {0.6, 0.8}, {0, -1}, {s2, s2}}; const double hs[4] = {0, 0.92729521800161219, -1.5707963267948966, 0.78539816339744828};
  const int shape = vp_choice("shape", NSHAPE) + SHAPE0, at = shape == 3 ? 1 : shape == 1 && !VP_THOROUGH ? 2 : vp_choice("at", T), last = shape % 2 && !VP_THOROUGH ? 2 - vp_choice("last", 2) : vp_choice("last", T);
  const double ux = ds[shape][0], uy = ds[shape][1];
  MotionMetricsConfig c = MakeConfig(H, T * R, R, K); AddStep(&c, last, 1e9, 1e9);
  c.set_speed_lower_bound(1); c.set_speed_upper_bound(10); c.set_speed_scale_lower(0.5); c.set_speed_scale_upper(1);
  Scenario s; s.set_scenario_id("s"); ScenarioPredictions p; p.set_scenario_id("s");
  const int kase = vp_choice("valid", 3); const bool now = kase != 1, then = kase != 2, swapped = vp_choice("order", 2), self = swapped == (shape % 2 == 0);
  Track *me = 0, *other = 0;
  auto addMe = [&] { me = AddTrack(&s, 5, Track::TYPE_VEHICLE, H + 1 + T * R); s.add_tracks_to_predict()->set_track_index(s.tracks_size() - 1); };
  if (swapped) addMe(); other = AddTrack(&s, 9, Track::TYPE_OTHER, H + 1 + T * R); if (!swapped) addMe();
  const double BX = 300, BY = 300;
  const double L1 = 4, W1 = 2, L2 = 5, W2 = 1.5;
  // the predicted object itself: its box sizes count, its recorded places do not
  for (auto& st : *me->mutable_states()) { st.set_center_x(self ? BX : 800); st.set_center_y(BY); st.set_length(9); st.set_width(9); st.set_valid(self); }
  me->mutable_states(H)->set_velocity_x(0); me->mutable_states(H)->set_velocity_y(0);
  for (int t = 0; t < T; ++t) { me->mutable_states(H + (t + 1) * R)->set_length(L1); me->mutable_states(H + (t + 1) * R)->set_width(W1); }
  for (auto& st : *other->mutable_states()) { st.set_center_x(-700); st.set_center_y(-900); }
  // between the prediction steps the other object stands in the way, which does not matter
  for (int i = H + 1; i < H + 1 + T * R; i += 2) { other->mutable_states(i)->set_center_x(BX); other->mutable_states(i)->set_center_y(BY); }
  other->mutable_states(H)->set_valid(now); other->mutable_states(H + (at + 1) * R)->set_valid(then);
  // straight trajectories advance 6 m per step; the turning one has the mean heading in the middle
  auto* mm = p.add_multi_modal_predictions(); double conf[NJ]; const double side[NJ] = {0, 40};
  for (int j = 0; j < NJ; ++j) {
    auto* jp = mm->add_joint_predictions(); conf[j] = vp_gridf("confidence", 0, 40, 3); jp->set_confidence(conf[j]); std::vector<float> x, y;
    for (int t = 0; t < T; ++t) {
      if (shape == 3) { x.push_back(BX + (t == 0 ? -6 : 0) + side[j] * uy); y.push_back(BY + (t == 2 ? 6 : 0) - side[j] * ux); }
      else { x.push_back(BX + 6 * t * ux + side[j] * uy); y.push_back(BY + 6 * t * uy - side[j] * ux); }
    }
    AddTrajectory(jp, 5, x, y);
  }
  // the other box, seen from the first prediction's box at that step
  const double lim = (L1 + L2) / 2, limw = (W1 + W2) / 2;
#if ALONG
  const double a = vp_grid("ahead", -64, 64, 3) + 0.03125; const double bs[4] = {0.5, -1.7, 1.8, -39}; const double b = bs[shape % 2 && !VP_THOROUGH ? 3 * vp_choice("aside", 2) : vp_choice("aside", 4)];
#else
  const double as[3] = {0.5, -4.4, 4.6}; const double a = as[shape % 2 && !VP_THOROUGH ? 2 * vp_choice("ahead", 2) : vp_choice("ahead", 3)]; const double b = vp_grid("aside", -384, 32, 3) + 0.03125;
#endif
  const double mx = shape == 3 ? 0 : 6 * at * ux, my = shape == 3 ? 0 : 6 * at * uy;
  auto* st = other->mutable_states(H + (at + 1) * R);
  st->set_center_x(BX + mx + ux * a - uy * b); st->set_center_y(BY + my + uy * a + ux * b); st->set_length(L2); st->set_width(W2); st->set_heading(hs[shape] + (shape == 1 && ALONG ? 3.141592653589793 : 0));
  BucketedMetricsStats out;
  vp_assert(ComputeMetricsStats(c, p, s, &out).ok(), "well-formed input is accepted");
  const Accumulator& acc = out.stats[Track::TYPE_VEHICLE][last].overlap_rate;
  vp_assert(acc.num_measurements == 1 && (acc.total == 0 || acc.total == 1), "one indicator");
  const int use = K >= 2 && conf[1] > conf[0] ? 1 : 0;
  if (!now || !then || at > last) { vp_assert(acc.total == 0, "objects that are not valid now or then, later steps and the object itself do not count"); vp_reach("end"); return; }
  const double off = b + side[use]; const double e = 1e-4;
  const bool in = vp_and(Abs(a) < lim - e, Abs(off) < limw - e), out_ = vp_or(Abs(a) > lim + e, Abs(off) > limw + e);
  vp_assert(vp_or(vp_not(in), acc.total == 1), "an intersecting box counts");
  vp_assert(vp_or(vp_not(out_), acc.total == 0), "a box apart does not count");
  if (acc.total == 1) vp_reach("inside");
  vp_reach("end");
}
