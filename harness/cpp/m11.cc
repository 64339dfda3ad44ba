// M11: score cutoffs.
#include <cmath>
#include "mh.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#ifdef TRACK
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#endif
#ifndef NS
#define NS 6
#endif
static std::vector<float> Oracle(std::vector<float> s, int want) {
  const int n = s.size();
  std::vector<float> out;
  if (want == 1) return {0.f};
  if (want >= n) { for (int i = 0; i < want; ++i) out.push_back(i / (want - 1.0f)); return out; }
  std::vector<float> t(s);
  for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < n - i; ++j) { float a = std::min(t[j], t[j + 1]), b = std::max(t[j], t[j + 1]); t[j] = a; t[j + 1] = b; }
  // bucket sizes differ by at most one, smaller buckets first
  const int nb = want - 1, q = n / nb, extra = n % nb;
  int pos = 0;
  out.push_back(t[0]);
  for (int b = 0; b + 1 < nb; ++b) { pos += q + (b >= nb - extra ? 1 : 0); out.push_back(std::max(0.f, std::min(1.f, t[pos]))); }
  out.push_back(1.f);
  return out;
}
static void Compare(const std::vector<float>& got, const std::vector<float>& want) {
  vp_assert(got.size() == want.size(), "number of cutoffs");
  bool same = true, mono = true;
  for (size_t i = 0; i < got.size(); ++i) {
    same &= std::fabs(got[i] - want[i]) < 1e-4f;
    if (i) mono &= got[i] >= got[i - 1];
  }
  vp_assert(same, "cutoffs split the scores evenly");
  vp_assert(mono, "cutoffs are non-decreasing");
}
extern "C" void vp_property() {
#if MODE == 2
  {  // uniform cutoffs: concrete, every count
    const int want = 2 + vp_choice("cutoffs", 200), n = vp_choice("n", 2);
    Compare(internal::DecideScoreCutoffs(std::vector<float>(n, 0.5f), want), Oracle(std::vector<float>(n, 0.5f), want));
  }
#elif MODE == 0
  const int n = vp_choice("n", NS + 1), want = 1 + vp_choice("cutoffs", NS + 1);
  std::vector<float> s(n);
  for (auto& x : s) x = vp_gridf("s", 0, 64, 6);
  for (int i = 1; i < n; ++i) vp_assume(s[i - 1] <= s[i]);
  Compare(internal::DecideScoreCutoffs(s, want), Oracle(s, want));
#else
  const int want = 1 + vp_choice("cutoffs", 4);
  Config config;
  config.set_num_desired_score_cutoffs(want);
  config.add_breakdown_generator_ids(Breakdown::ONE_SHARD);
  std::vector<float> s;
#ifdef TRACK
  const int scenes = 1 + vp_choice("scenes", 2);
  std::vector<std::vector<std::vector<Object>>> pds(scenes), gts(scenes);
  for (int a = 0; a < scenes; ++a) {
    const int frames = vp_choice("frames", 3);
    pds[a].resize(frames); gts[a].resize(frames);
    for (int f = 0; f < frames; ++f)
      for (int i = 0, k = vp_choice("objects", 3); i < k && s.size() < 4; ++i) { s.push_back(vp_gridf("s", 0, 64, 6)); pds[a][f].push_back(MakeObject(i, Label::TYPE_VEHICLE, s.back())); }
  }
#else
  const int frames = vp_choice("frames", 4);
  std::vector<std::vector<Object>> pds(frames), gts(frames);
  for (int f = 0; f < frames; ++f)
    for (int i = 0, k = vp_choice("objects", 3); i < k && s.size() < 4; ++i) { s.push_back(vp_gridf("s", 0, 64, 6)); pds[f].push_back(MakeObject(i, Label::TYPE_VEHICLE, s.back())); }
#endif
#ifdef TRACK
  if (vp_choice("explicit", 2)) {
    config.add_score_cutoffs(0.75f); config.add_score_cutoffs(0.5f);
    const Config e = EstimateScoreCutoffs(config, pds, gts);
    vp_assert(e.score_cutoffs_size() == 2 && e.score_cutoffs(0) == 0.75f && e.score_cutoffs(1) == 0.5f, "explicit cutoffs are kept");
    return;
  }
#endif
  const Config c = EstimateScoreCutoffs(config, pds, gts);
  Compare(std::vector<float>(c.score_cutoffs().begin(), c.score_cutoffs().end()), Oracle(s, want));
  vp_assert(c.num_desired_score_cutoffs() == want && c.breakdown_generator_ids_size() == 1 && config.score_cutoffs_size() == 0, "nothing else of the configuration changes");
#endif
  vp_reach("end");
}
