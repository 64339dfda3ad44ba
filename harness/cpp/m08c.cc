// M08: detection metrics from counts.  Symbolic: counts and weighted sums; enumerated: totals.
#include <cmath>
#include "mh.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#ifndef NCUT
#define NCUT 2
#endif
static const int kTot[4] = {4, 0, 1, 3};
// area under the interpolated curve, written from its definition
static float Area(const std::vector<float>& p, const std::vector<float>& r, float delta) {
  const int n = p.size();
  std::vector<int> o(n);
  std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return r[a] > r[b]; });
  float env = 0, area = 0, lastr = 0; bool first = true;
  auto gap = [&](float from, float to, float e_from, float e_to) {
    float a = 0, x = from;
    while (x - to > delta + 1e-5f) { a += delta * e_from; x -= delta; }
    return a + 0.5f * (x - to) * (e_from + e_to);
  };
  int i = 0;
  while (i < n) {
    int j = i; float best = env;
    while (j < n && r[o[j]] == r[o[i]]) { best = std::max(best, p[o[j]]); ++j; }
    if (r[o[i]] == 0.f) break;
    if (!first) area += gap(lastr, r[o[i]], env, best);
    env = best; lastr = r[o[i]]; first = false; i = j;
  }
  if (!first) area += gap(lastr, 0.f, env, env);
  return area;
}
extern "C" void vp_property() {
  Config config;
  config.set_desired_recall_delta(1.0f);
  const float minp = vp_choice("min_precision", 2) ? 0.3f : 0.f;
  config.set_min_precision(minp);
  DetectionMeasurements dm;
  dm.mutable_breakdown()->set_generator_id(Breakdown::RANGE);
  dm.mutable_breakdown()->set_shard(2);
  dm.mutable_breakdown()->set_difficulty_level(Label::LEVEL_2);
  const int ng = kTot[vp_choice("objects", 4)];
  std::vector<int> tp(NCUT), np(NCUT); std::vector<double> ha(NCUT), la(NCUT);
  for (int c = 0; c < NCUT; ++c) {
    np[c] = c == 0 ? kTot[vp_choice("predictions", 4)] : 2;
    tp[c] = vp_int("tps", 0, std::min(np[c], ng));
    ha[c] = vp_grid("sum_ha", 0, 16, 2); la[c] = vp_grid("sum_la", 0, 16, 2);
    vp_assume(vp_and(ha[c] <= tp[c], la[c] <= tp[c]));
    auto* e = dm.add_measurements();
    e->set_score_cutoff(0.25f + 0.5f * c);
    e->set_num_tps(tp[c]); e->set_num_fps(np[c] - tp[c]); e->set_num_fns(ng - tp[c]);
    e->set_sum_ha(ha[c]); e->set_sum_longitudinal_affinity(la[c]);
  }
  const auto r = ComputeDetectionMetrics(config, std::vector<std::vector<DetectionMeasurements>>{{dm}});
  vp_assert(r.size() == 1, "one entry per breakdown");
  const DetectionMetrics& m = r[0];
  vp_assert(m.breakdown().generator_id() == Breakdown::RANGE && m.breakdown().shard() == 2 && m.breakdown().difficulty_level() == Label::LEVEL_2, "breakdown of the entry");
  vp_assert(m.score_cutoffs_size() == NCUT && m.precisions_size() == NCUT && m.recalls_size() == NCUT && m.precisions_ha_weighted_size() == NCUT && m.recalls_ha_weighted_size() == NCUT &&
            m.precisions_longitudinal_affinity_weighted_size() == NCUT && m.recalls_longitudinal_affinity_weighted_size() == NCUT, "one value per cutoff");
  std::vector<float> p(NCUT), q(NCUT), l(NCUT), rec(NCUT);
  for (int c = 0; c < NCUT; ++c) {
    auto ratio = [&](double x) { if (np[c] == 0) return 0.f; const float v = x / np[c]; return v < minp ? 0.f : v; };
    const bool zero = tp[c] == 0;  // also when there is no object
    p[c] = zero ? 1.f : ratio(tp[c]); q[c] = zero ? 1.f : ratio(ha[c]); l[c] = zero ? 1.f : ratio(la[c]);
    rec[c] = ng ? float(tp[c]) / ng : 0.f;
    auto near = [](float a, float b) { return std::fabs(a - b) < 1e-5f; };
    vp_assert(near(m.recalls(c), rec[c]) && near(m.recalls_ha_weighted(c), rec[c]) && near(m.recalls_longitudinal_affinity_weighted(c), rec[c]), "recall is the share of objects matched");
    vp_assert(near(m.precisions(c), p[c]), "precision is the share of predictions matched");
    vp_assert(near(m.precisions_ha_weighted(c), q[c]), "heading-weighted precision");
    vp_assert(near(m.precisions_longitudinal_affinity_weighted(c), l[c]), "affinity-weighted precision");
    vp_assert(m.precisions_ha_weighted(c) <= m.precisions(c) + 1e-5f, "weighting never raises the precision");
    vp_assert(m.score_cutoffs(c) == 0.25f + 0.5f * c, "cutoffs in order");
  }
  const float a = m.mean_average_precision(), b = m.mean_average_precision_ha_weighted(), d = m.mean_average_precision_longitudinal_affinity_weighted();
#if PART == 0
  vp_assert(a >= 0 && a <= 1 + 1e-5f && std::fabs(a - Area(p, rec, 1.f)) < 1e-4f, "mAP is the area of the counts' curve");
  vp_assert(b <= a + 1e-4f, "weighting never raises the area");
#elif PART == 1
  vp_assert(b >= 0 && b <= 1 + 1e-5f && std::fabs(b - Area(q, rec, 1.f)) < 1e-4f, "heading-weighted mAP is the area of its curve");
#else
  vp_assert(d >= 0 && d <= 1 + 1e-5f && std::fabs(d - Area(l, rec, 1.f)) < 1e-4f, "affinity-weighted mAP is the area of its curve");
#endif
  if (a > 0.25f) vp_reach("positive area");
  vp_reach("end");
}
