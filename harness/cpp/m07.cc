// M07: merging detection measurements.  Symbolic: all counts and sums.
#include "mh.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#ifndef NF
#define NF 4
#endif
#ifndef NCUT
#define NCUT 2
#endif
using MV = std::vector<DetectionMeasurements>;
static MV MakeFrame(int f, const std::vector<float>& cut, bool details, int nb) {
  MV v;
  for (int b = 0; b < nb; ++b) {
    DetectionMeasurements m;
    m.mutable_breakdown()->set_generator_id(Breakdown::OBJECT_TYPE);
    m.mutable_breakdown()->set_shard(b);
    m.mutable_breakdown()->set_difficulty_level(Label::LEVEL_2);
    for (float c : cut) {
      auto* e = m.add_measurements();
      e->set_score_cutoff(c);
      e->set_num_tps(vp_int("tp", 0, 1000000));
      e->set_num_fps(vp_int("fp", 0, 1000000));
      e->set_num_fns(vp_int("fn", 0, 1000000));
      e->set_sum_ha(vp_gridf("ha", 0, 1024, 4));
      e->set_sum_longitudinal_affinity(vp_gridf("la", 0, 1024, 4));
      if (details) e->add_details()->add_fp_ids("f" + std::to_string(f));
    }
    v.push_back(m);
  }
  return v;
}
static void Check(const MV& m, const std::vector<MV>& f, const char* id, bool det) {
  vp_assert(m.size() == f[0].size(), id);
  for (size_t b = 0; b < m.size(); ++b) {
    vp_assert(m[b].breakdown().shard() == (int)b && m[b].breakdown().generator_id() == Breakdown::OBJECT_TYPE && m[b].breakdown().difficulty_level() == Label::LEVEL_2, id);
    vp_assert(m[b].measurements_size() == f[0][b].measurements_size(), id);
    for (int c = 0; c < m[b].measurements_size(); ++c) {
      DetectionMeasurement e;
      int tp = 0, fp = 0, fn = 0, nd = 0; float ha = 0, la = 0;
      for (auto& x : f) { auto& y = x[b].measurements(c); tp += y.num_tps(); fp += y.num_fps(); fn += y.num_fns(); ha += y.sum_ha(); la += y.sum_longitudinal_affinity(); nd += y.details_size(); }
      auto& g = m[b].measurements(c);
      vp_all ok; ok &= g.num_tps() == tp;
      ok &= g.num_fps() == fp;
      ok &= g.num_fns() == fn;
      ok &= g.sum_ha() == ha;
      ok &= g.sum_longitudinal_affinity() == la;
      ok &= g.score_cutoff() == f[0][b].measurements(c).score_cutoff();
      vp_assert(ok, id);
      vp_assert(g.details_size() == nd, "details of every frame are kept");
    }
  }
}
extern "C" void vp_property() {
  Config config;
  config.set_desired_recall_delta(1.0);
  std::vector<float> cut;
  for (int i = 0; i < NCUT; ++i) cut.push_back(i * 0.5f);
  const bool det = vp_choice("details", 2);
  const int nf = 1 + vp_choice("frames", NF);
  std::vector<MV> f;
  for (int i = 0; i < nf; ++i) f.push_back(MakeFrame(i, cut, det, 2));
  const MV all = MergeDetectionMeasurements(config, f);
  Check(all, f, "merged counts are the sums over the frames", det);
  std::vector<int> p(nf);
  std::iota(p.begin(), p.end(), 0);
  do {
    std::vector<MV> g;
    for (int i : p) g.push_back(f[i]);
    Check(MergeDetectionMeasurements(config, g), f, "merge order changes the result", det);
  } while (std::next_permutation(p.begin(), p.end()));
  for (int s = 1; s < nf; ++s) {
    MV a = MergeDetectionMeasurements(config, std::vector<MV>(f.begin(), f.begin() + s));
    MV b = MergeDetectionMeasurements(config, std::vector<MV>(f.begin() + s, f.end()));
    Check(MergeDetectionMeasurements(config, {a, b}), f, "merge grouping changes the result", det);
  }
  vp_assert(MergeDetectionMeasurements(config, {}).empty(), "merging nothing gives nothing");
  vp_reach("end");
  if (nf == NF) vp_reach("all frames");
}
