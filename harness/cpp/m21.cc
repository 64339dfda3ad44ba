// M21: motion precision-recall curves and mean average precision.
#include "mo.h"
// Independent definition: with samples by falling confidence (misses first among equals) and G ground truths, every k-th true positive adds 1/G times the
// best precision of any prefix that contains at least k true positives.
namespace {
struct Smp { double c; bool tp; };
double Area(std::vector<Smp> s, int G) {
  std::sort(s.begin(), s.end(), [](const Smp& a, const Smp& b) { return a.c != b.c ? a.c > b.c : (!a.tp && b.tp); });
  const int n = s.size(); std::vector<int> tp(n); int t = 0; double area = 0;
  for (int i = 0; i < n; ++i) tp[i] = t += s[i].tp;
  for (int k = 1; k <= t; ++k) { double best = 0; for (int i = 0; i < n; ++i) if (tp[i] >= k) best = std::max(best, tp[i] / (i + 1.0)); area += best / G; }
  return area;
}
}
extern "C" void vp_property() {
#if MODE == 0
  PredictionStats st; std::vector<Smp> s; const int n = vp_choice("n", NS + 1); const int G = vp_choice("truths", 3) + 1; int tps = 0;
  for (int i = 0; i < n; ++i) { const double c = vp_gridf("confidence", -8, 24, 3); const bool tp = vp_choice("hit", 2); tps += tp; st.samples.push_back(PredictionSample(c, tp)); s.push_back({c, tp}); }
  vp_assume(tps <= G); st.num_trajectories = G;
  PredictionStats cp = st;
  const std::vector<PrSample> curve = ComputePrCurve(&cp.samples, G);
  vp_assert((int)curve.size() == n, "one point per sample");
  for (int i = 0; i < n; ++i) { vp_assert(curve[i].precision >= 0 && curve[i].precision <= 1 && curve[i].recall >= 0 && curve[i].recall <= 1, "points in range"); if (i) vp_assert(curve[i].recall >= curve[i - 1].recall, "recall never falls"); }
  const double want = Area(s, G), got = ComputeMeanAveragePrecision(&st);
  vp_assert(std::abs(got - want) < 1e-5 && got >= 0 && got <= 1 + 1e-6, "average precision is the interpolated area");
  std::reverse(cp.samples.begin(), cp.samples.end()); if (n > 2) std::swap(cp.samples[0], cp.samples[1]); cp.num_trajectories = G;
  vp_assert(std::abs(ComputeMeanAveragePrecision(&cp) - got) < 1e-9, "no dependence on the order of the samples");
  if (tps && n > 2) vp_reach("inside");
#else
  // Two multi-modal predictions of one or two objects each; matched or not at the first step, typed by the last.
  const int R = 1, H = 1, T = 2, NOBJ = JOINT ? 2 : 1, K = JOINT ? vp_choice("k", 2) + 1 : KK;
  MotionMetricsConfig c = MakeConfig(H, T * R, R, K); AddStep(&c, 0, 2, 1e6);
  c.set_speed_lower_bound(1); c.set_speed_upper_bound(10); c.set_speed_scale_lower(0.5); c.set_speed_scale_upper(1);
  Scenario s; s.set_scenario_id("s"); ScenarioPredictions p; p.set_scenario_id("s");
  // end state relative to the start for each of the eight types
  struct E { double x, y, h, v; int prio, bucket; };
  const E ends[8] = {{1, 0, 0, 0, 0, TrajectoryType::STATIONARY}, {30, 1, 0, 20, 1, TrajectoryType::STRAIGHT}, {30, -9, 0.1, 20, 2, TrajectoryType::STRAIGHT_RIGHT}, {30, 9, 0.1, 20, 3, TrajectoryType::STRAIGHT_LEFT}, {20, -20, -1.5, 20, 4, TrajectoryType::RIGHT_TURN},
                     {20, 20, 1.5, 20, 5, TrajectoryType::LEFT_TURN}, {-5, 8, 3, 20, 6, TrajectoryType::LEFT_U_TURN}, {-5, -8, 3, 20, 7, TrajectoryType::RIGHT_TURN}};
  const int NM = JOINT ? 1 : 2, NJ = JOINT ? 2 : 3;
  std::map<int, std::vector<Smp>> hard, soft; std::map<int, int> G; int id = 1;
  for (int m = 0; m < NM; ++m) {
    auto* mm = p.add_multi_modal_predictions(); std::vector<double> off, lim; std::vector<int> ids; int type = 0, bucket = TrajectoryType::STATIONARY; bool typed = false, valid = true;
    for (int o = 0; o < NOBJ; ++o) {
      Track* t = AddTrack(&s, id, Track::TYPE_VEHICLE, H + 1 + T * R); s.add_tracks_to_predict()->set_track_index(s.tracks_size() - 1); ids.push_back(id);
      const E e = ends[JOINT ? vp_choice("type", 8) : m == 0 ? vp_choice("type", 3) * 3 + 1 : vp_choice("type", 2) * 6 + 1]; const double base = 1000.0 * id++;
      const bool now = !JOINT || vp_choice("now", 2), at = m == 0 || !vp_choice("gap", 2);
      for (auto& st : *t->mutable_states()) { st.set_center_x(base); st.set_velocity_x(e.v); }
      off.push_back(vp_grid("off", -64, 64, 3) + 0.03125);
      t->mutable_states(H)->set_valid(now); t->mutable_states(H + 1)->set_center_y(off.back()); t->mutable_states(H + 1)->set_valid(at);
      auto* l = t->mutable_states(H + 2); l->set_center_x(base + e.x); l->set_center_y(e.y); l->set_heading(e.h);
      if (now) { typed = true; if (e.prio > type) { type = e.prio; bucket = e.bucket; } } valid &= at;
      lim.push_back(e.v == 0 ? 1 : 2);
    }
    std::vector<Smp> js; const int nj = JOINT ? 2 : m == 0 ? 3 : NJ2;
    for (int j = 0; j < nj; ++j) {
      auto* jp = mm->add_joint_predictions(); const double cf = vp_gridf("confidence", 0, 24, 3); jp->set_confidence(cf); bool hit = true;
      for (int o = 0; o < NOBJ; ++o) { const double y = o == 0 ? 3 * j : 0, x = 1000.0 * ids[o]; AddTrajectory(jp, ids[o], {(float)x, (float)(x + 5)}, {(float)y, (float)y}); if (valid && std::abs(off[o] - y) > lim[o]) hit = false; }
      if (j < K) js.push_back({cf, hit});
    }
    if (!typed || !valid) continue;
    std::sort(js.begin(), js.end(), [](const Smp& a, const Smp& b) { return a.c > b.c; });
    bool found = false; ++G[bucket];
    for (const Smp& q : js) { hard[bucket].push_back({q.c, q.tp && !found}); if (!(q.tp && found)) soft[bucket].push_back(q); found |= q.tp; }
  }
  BucketedMetricsStats st;
  vp_assert(ComputeMetricsStats(c, p, s, &st).ok(), "well-formed input is accepted");
  {
    MetricsStats& ms = st.stats[Track::TYPE_VEHICLE][0];
    for (int b = 0; b < TrajectoryType::NUM_TYPES; ++b) {
      auto size = [&](MeanAveragePrecisionStats& m) { return b < (int)m.pr_buckets.size() ? (int)m.pr_buckets[b].samples.size() : 0; };
      auto count = [&](MeanAveragePrecisionStats& m) { return b < (int)m.pr_buckets.size() ? m.pr_buckets[b].num_trajectories : 0; };
      vp_assert(size(ms.mean_average_precision) == (hard.count(b) ? (int)hard[b].size() : 0) && size(ms.soft_mean_average_precision) == (soft.count(b) ? (int)soft[b].size() : 0), "samples are counted under the highest-priority type among the objects");
      vp_assert(count(ms.mean_average_precision) == (G.count(b) ? G[b] : 0) && count(ms.soft_mean_average_precision) == count(ms.mean_average_precision), "trajectories are counted under the highest-priority type among the objects");
    }
  }
  const MotionMetrics mt = ComputeMotionMetrics(&st);
  vp_assert(mt.metrics_bundles_size() == 1, "one entry");
  double wh = 0, ws = 0; for (auto& [b, l] : hard) wh += Area(l, G[b]) / hard.size(); for (auto& [b, l] : soft) ws += Area(l, G[b]) / soft.size();
  vp_assert(std::abs(mt.metrics_bundles(0).mean_average_precision() - wh) < 1e-5, "mAP: one match per ground truth, later matches are misses, mean over the trajectory types present");
  vp_assert(std::abs(mt.metrics_bundles(0).soft_mean_average_precision() - ws) < 1e-5, "soft mAP: later matches are ignored");
  if (wh > 0) vp_reach("inside");
#endif
  vp_reach("end");
}
