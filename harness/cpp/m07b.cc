// M07: metrics of several frames = metrics of their merged measurements = merged per-frame computation.
#include "mh.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
extern "C" void vp_property() {
  Config config;
  config.set_matcher_type(MatcherProto::TYPE_SCORE_FIRST);
  config.set_box_type(Label::Box::TYPE_3D);
  config.set_desired_recall_delta(1.0);
  for (int i = 0; i <= Label::Type_MAX; ++i) config.add_iou_thresholds(0.5f);
  config.add_score_cutoffs(0.25f);
  config.add_breakdown_generator_ids(Breakdown::ONE_SHARD);
  config.add_difficulties()->add_levels(Label::LEVEL_2);
  std::vector<std::vector<Object>> pds(2), gts(2);
  Table iou(4, 4);
  for (int f = 0; f < 2; ++f) {
    int np = vp_choice("np", 3), ng = vp_choice("ng", 2);
    for (int i = 0; i < np; ++i) { pds[f].push_back(MakeObject(f * 2 + i, Label::TYPE_VEHICLE, vp_gridf("score", 0, 8, 3))); pds[f].back().set_overlap_with_nlz(false); }
    for (int j = 0; j < ng; ++j) gts[f].push_back(MakeObject(100 + f, Label::TYPE_VEHICLE));
    for (int i = 0; i < np; ++i) for (int j = 0; j < ng; ++j) iou.at(f * 2 + i, f) = vp_gridf("iou", 0, 16, 4);
  }
  auto iouf = [&](const Label::Box& a, const Label::Box& b) -> double { return iou.at(BoxIndex(a), BoxIndex(b) - 100); };
  const auto direct = ComputeDetectionMetrics(config, pds, gts, iouf);
  std::vector<std::vector<DetectionMeasurements>> ms;
  for (int f = 0; f < 2; ++f) ms.push_back(ComputeDetectionMeasurements(config, pds[f], gts[f], iouf));
  const auto viam = ComputeDetectionMetrics(config, ms);
  vp_assert(direct.size() == viam.size() && direct.size() == 1, "number of metrics");
  const auto &a = direct[0], &b = viam[0];
  int tp = 0, fp = 0, fn = 0;
  for (auto& m : ms) { tp += m[0].measurements(0).num_tps(); fp += m[0].measurements(0).num_fps(); fn += m[0].measurements(0).num_fns(); }
  for (auto* x : {&a, &b}) {
    vp_assert(x->measurements().measurements_size() == 1, "merged measurement present");
    auto& y = x->measurements().measurements(0);
    vp_assert(y.num_tps() == tp && y.num_fps() == fp && y.num_fns() == fn, "metrics carry the summed counts");
  }
  vp_assert(a.mean_average_precision() == b.mean_average_precision() && a.precisions(0) == b.precisions(0) && a.recalls(0) == b.recalls(0), "metrics of frames equal metrics of measurements");
  vp_reach("end");
  if (tp == 2) vp_reach("both frames matched");
}
