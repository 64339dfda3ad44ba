// M18: minADE and minFDE of a multi-modal prediction.
#include "mo.h"
#ifndef NJ
#define NJ 3
#endif
// Predictions are fixed; every ground truth position is anywhere on a line through the predicted ones (axis, or a 3-4-5 direction).
extern "C" void vp_property() {
  const int T = NSTEPS, R = 2, H = 1;  // prediction steps; two track steps per prediction step; one history sample
  const int nobj = OBJ, nj = vp_choice("predictions", NJ) + 1, K = vp_choice("k", NJ) + 1;
  const int dirs[4][2] = {{1, 0}, {3, 4}, {0, -1}, {-4, 3}}; const int len[4] = {1, 5, 1, 5};
  const int dir = vp_choice("direction", NDIR), ux = dirs[dir][0], uy = dirs[dir][1], L = len[dir];
  MotionMetricsConfig c = MakeConfig(H, T * R, R, K);
  for (int t = 0; t < T; ++t) AddStep(&c, t, 1e9, 1e9);
  Scenario s; s.set_scenario_id("s");
  ScenarioPredictions p; p.set_scenario_id("s");
  if (nj == 2 && vp_choice("empty", 2)) p.add_multi_modal_predictions();  // a prediction of nothing measures nothing
  auto* mm = p.add_multi_modal_predictions();
  // tracks are listed in another order than they are predicted; one that is not predicted lies between
  std::vector<Track*> tr(nobj);
  const bool rev = nobj > 1 && vp_choice("order", 2);
  for (int o = 0; o < nobj; ++o) {
    const int w = rev ? nobj - 1 - o : o;
    tr[w] = AddTrack(&s, 7 + w, Track::TYPE_VEHICLE, H + 1 + T * R); s.add_tracks_to_predict()->set_track_index(s.tracks_size() - 1);
    if (o == 0) { Track* other = AddTrack(&s, 3, Track::TYPE_PEDESTRIAN, H + 1 + T * R); for (auto& st : *other->mutable_states()) st.set_center_y(500); }
  }
  for (auto& t : *s.mutable_tracks()) t.mutable_states(H)->set_valid(false);  // no overlap and no average precision
  const int fixed[3][2][3] = {{{4, -7, 9}, {11, 3, -2}}, {{-5, 6, -20}, {2, 30, 8}}, {{18, 2, 1}, {-9, -8, 5}}};
  std::vector<std::vector<bool>> ok(nobj, std::vector<bool>(T, true));
  std::vector<std::vector<double>> pos(nobj, std::vector<double>(T, 0));
  for (int o = 0; o < nobj; ++o)
    for (int i = H + 1; i < tr[o]->states_size(); ++i) {
      auto* st = tr[o]->mutable_states(i);
      st->set_center_x(10 * i + 3 * o); st->set_center_y(100 * o - 2 * i);
      if ((i - H) % R) { if (i != H + 1) st->set_valid(false); continue; }  // samples between the prediction steps do not matter
      const int t = (i - H) / R - 1;
      ok[o][t] = vp_choice("valid", 2); st->set_valid(ok[o][t]);
      if (!ok[o][t]) continue;
      pos[o][t] = vp_grid("position", -512, 512, 3);
      st->set_center_x(40 * o + ux * pos[o][t]); st->set_center_y(7 * o + uy * pos[o][t]);
    }
  for (int j = 0; j < nj; ++j) {
    auto* jp = mm->add_joint_predictions(); jp->set_confidence(j == 1 ? 0.75 : 0.125);
    for (int o = 0; o < nobj; ++o) {
      std::vector<float> x, y;
      for (int t = 0; t < T; ++t) { x.push_back(40 * o + ux * fixed[j][o][t]); y.push_back(7 * o + uy * fixed[j][o][t]); }
      AddTrajectory(jp, 7 + o, x, y);
    }
  }
  BucketedMetricsStats st;
  vp_assert(ComputeMetricsStats(c, p, s, &st).ok(), "well-formed input is accepted");
  vp_assert(st.stats.size() == 1 && st.stats.count(Track::TYPE_VEHICLE) == 1 && (int)st.stats[Track::TYPE_VEHICLE].size() == T, "one entry per step of the type");
  for (int t = 0; t < T; ++t) {
    const MetricsStats& m = st.stats[Track::TYPE_VEHICLE][t];
    double ade = 1e6, fde = 1e6; bool hasa = true, hasf = true;
    for (int o = 0; o < nobj; ++o) { bool any = false; for (int i = 0; i <= t; ++i) any |= ok[o][i]; hasa &= any; hasf &= ok[o][t]; }
    for (int j = 0; j < nj && j < K; ++j) {
      double suma = 0, sumf = 0;
      for (int o = 0; o < nobj; ++o) {
        double e = 0; int n = 0;
        for (int i = 0; i <= t; ++i) if (ok[o][i]) { const double d = L * Abs(pos[o][i] - fixed[j][o][i]); e += d; ++n; if (i == t) sumf += d; }
        if (n) suma += e / n;
      }
      ade = vp_ite(suma / nobj < ade, suma / nobj, ade); fde = vp_ite(sumf / nobj < fde, sumf / nobj, fde);
    }
    vp_assert(m.min_average_displacement.num_measurements == (hasa ? 1 : 0) && m.min_final_displacement.num_measurements == (hasf ? 1 : 0), "one measurement exactly when every object has a valid state");
    vp_assert(hasa ? Abs(m.min_average_displacement.total - ade) < 1e-6 : m.min_average_displacement.total == 0, "minADE is the smallest mean displacement over valid steps");
    vp_assert(hasf ? Abs(m.min_final_displacement.total - fde) < 1e-6 : m.min_final_displacement.total == 0, "minFDE is the smallest final displacement");
    if (hasa && hasf) vp_reach("inside");
  }
  vp_reach("end");
}
