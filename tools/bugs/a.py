H = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/mot.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
using namespace waymo::open_dataset;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); std::exit(1); } } while (0)
static Object Obj(const std::string& id, double x, float score = 0.5f, Label::Type t = Label::TYPE_VEHICLE) {
  Object o; auto* l = o.mutable_object(); l->set_id(id); l->set_type(t); auto* b = l->mutable_box();
  b->set_center_x(x); b->set_center_y(0); b->set_center_z(0); b->set_length(1); b->set_width(1); b->set_height(1); b->set_heading(0);
  o.set_score(score); return o;
}
static Config Base() {
  Config c; c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN); c.set_box_type(Label::Box::TYPE_3D);
  for (int i = 0; i <= Label::Type_MAX; ++i) c.add_iou_thresholds(0.5f);
  return c;
}
static std::vector<int> Iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
'''
def bug(i, prop, edits, needs, breaks, cc): BUGS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, cc=H + cc)
bug("stale-iou-cache", "M02", [("metrics/matcher.h", """    predictions_ = &predictions;
    iou_caches_.clear();""", """    predictions_ = &predictions;
    if (iou_caches_.size() != predictions.size()) iou_caches_.clear();""")],
 "one matcher used for two frames with equally many predictions (and the same ground truths)", "overlaps of the earlier predictions decide the matching of the later ones",
 r'''int main() {
  auto m = Matcher::Create(Base());
  std::vector<Object> a{Obj("a", 0), Obj("b", 10)}, b{Obj("a", 10), Obj("b", 0)}, g{Obj("g", 0), Obj("h", 10)};
  m->SetPredictions(a); m->SetGroundTruths(g); m->SetPredictionSubset(Iota(2)); m->SetGroundTruthSubset(Iota(2));
  std::vector<int> pm, gm; m->Match(&pm, &gm); EXPECT(pm[0] == 0 && pm[1] == 1);
  m->SetPredictions(b); m->SetPredictionSubset(Iota(2)); m->Match(&pm, &gm); EXPECT(pm[0] == 1 && pm[1] == 0); EXPECT(gm[0] == 1);
}''')
bug("hungarian-inadmissible-weight", "M03", [("metrics/matcher.cc", """          CanMatch(prediction_subset()[i], ground_truth_subset()[j])
              ? MatchingWeight(prediction_subset()[i], ground_truth_subset()[j])
              : 0;""", """          MatchingWeight(prediction_subset()[i], ground_truth_subset()[j]);""")],
 "two pairs below the threshold whose overlaps add up to more than the admissible pair's", "an admissible pair is given up for inadmissible ones, which are then dropped",
 r'''int main() {
  auto m = Matcher::Create(Base());
  std::vector<Object> p{Obj("a", 0), Obj("b", 1)}, g{Obj("g", 2), Obj("h", 3)};
  double t[2][2] = {{0.6, 0.45}, {0.45, 0.0}};
  m->SetCustomIoUComputeFunc([&](const Label::Box& x, const Label::Box& y) { return t[(int)x.center_x()][(int)y.center_x() - 2]; });
  m->SetPredictions(p); m->SetGroundTruths(g); m->SetPredictionSubset(Iota(2)); m->SetGroundTruthSubset(Iota(2));
  std::vector<int> pm, gm; m->Match(&pm, &gm); EXPECT(pm[0] == 0 && pm[1] == -1 && gm[0] == 0 && gm[1] == -1);
}''')
TRK = r'''
static TrackingMeasurement Run(const std::vector<std::vector<Object>>& p, const std::vector<std::vector<Object>>& g, Label::DifficultyLevel lv = Label::LEVEL_2) {
  MOT mot;
  for (size_t f = 0; f < p.size(); ++f) { auto m = Matcher::Create(Base()); m->SetPredictions(p[f]); m->SetGroundTruths(g[f]); m->SetPredictionSubset(Iota(p[f].size())); m->SetGroundTruthSubset(Iota(g[f].size())); mot.Eval(m.get(), lv, false); }
  return mot.measurement();
}
'''
bug("mot-forgets-gap", "M13", [("metrics/mot.cc", """  std::vector<std::string> gt_to_evict;
  for (const auto& kv : gt_pd_new_matchings) {""", """  std::vector<std::string> gt_to_evict;
  if (!gt_pd_new_matchings.empty()) gt_pd_matchings_.clear();
  for (const auto& kv : gt_pd_new_matchings) {""")],
 "a track unmatched in a frame where another one is matched, and matched to another prediction afterwards", "switches across a gap are no longer counted",
 TRK + r'''int main() {
  auto r = Run({{Obj("A", 0), Obj("B", 10)}, {Obj("B", 10)}, {Obj("C", 0), Obj("B", 10)}}, {{Obj("1", 0), Obj("2", 10)}, {Obj("1", 0), Obj("2", 10)}, {Obj("1", 0), Obj("2", 10)}});
  EXPECT(r.num_matches() == 5); EXPECT(r.num_misses() == 1); EXPECT(r.num_mismatches() == 1);
}''')
bug("mot-hard-matched-not-counted", "M12", [("metrics/mot.cc", """    if (gt_matches[i] < 0) {
      ++result.num_fns_above_difficulty_level;
    }""", """    if (gt_matches[i] < 0 ||
        matcher->ground_truths()[matcher->ground_truth_subset()[i]]
                .object()
                .tracking_difficulty_level() > difficulty_level) {
      ++result.num_fns_above_difficulty_level;
    }""")],
 "a ground truth harder than the level that is matched for the first time", "matched ground truths disappear from the number of objects",
 TRK + r'''int main() {
  Object h = Obj("1", 0); h.mutable_object()->set_tracking_difficulty_level(Label::LEVEL_2);
  auto r = Run({{Obj("A", 0)}, {Obj("A", 0)}}, {{h}, {h}}, Label::LEVEL_1);
  EXPECT(r.num_matches() == 2); EXPECT(r.num_objects_gt() == r.num_matches() + r.num_misses());
}''')
bug("mot-sticky-cost-subset-index", "M12", [("metrics/mot.cc", """                                     matcher.IoU(pd_index, gt_index));

      pd_map->erase(pit);""", """                                     matcher.IoU(pd_index, git->second));

      pd_map->erase(pit);""")],
 "a track kept over two frames while its index in the evaluated subset differs from its object index", "the matching cost of kept pairs uses another object's overlap",
 r'''int main() {
  MOT mot; std::vector<Object> p{Obj("A", 0)}, g{Obj("x", 50), Obj("1", 0.25)};
  for (int f = 0; f < 2; ++f) { auto m = Matcher::Create(Base()); m->SetPredictions(p); m->SetGroundTruths(g); m->SetPredictionSubset({0}); m->SetGroundTruthSubset({1}); mot.Eval(m.get(), Label::LEVEL_2, false); }
  EXPECT(mot.measurement().num_matches() == 2); EXPECT(std::fabs(mot.measurement().matching_cost() - 0.8) < 1e-3);
}''')
bug("range-ignores-height", "M09", [("metrics/breakdown_generator.cc", """    if (range < kNearRange) {""", """    if (static_cast<float>(range) <= kNearRange) {""")],
 "an object at exactly 30 m", "the boundary object moves to the nearer shard",
 r'''int main() { auto b = BreakdownGenerator::Create(Breakdown::RANGE); Object o = Obj("a", 30); EXPECT(b->Shard(o) == 1); EXPECT(b->Shard(Obj("a", 29.5)) == 0); EXPECT(b->Shard(Obj("a", 50)) == 2); }''')
bug("merge-zero-cutoff", "M07", [("metrics/detection_metrics.cc", """  if (!m1.has_score_cutoff()) return m2;""", """  if (m1.score_cutoff() == 0) return m2;""")],
 "several frames measured at the score cutoff 0", "only the last frame's counts survive at cutoff 0",
 r'''int main() {
  Config c = Base(); c.add_score_cutoffs(0); c.add_score_cutoffs(0.9); c.add_breakdown_generator_ids(Breakdown::ONE_SHARD); c.add_difficulties();
  auto m = ComputeDetectionMeasurements(c, {Obj("a", 0)}, {Obj("g", 0), Obj("h", 9)});
  auto r = MergeDetectionMeasurements(c, {m, m, m});
  EXPECT(r[0].measurements(0).num_tps() == 3); EXPECT(r[0].measurements(0).num_fns() == 3); EXPECT(r[0].measurements(1).num_fns() == 6);
}''')
bug("cutoff-buckets-uneven", "M11", [("metrics/metrics_utils.cc", """    bucket_sizes[i] = num_scores_remaining / (num_buckets - i);""", """    bucket_sizes[i] = num_scores / num_buckets;""")],
 "a number of scores that the number of buckets does not divide", "the last bucket collects the whole remainder",
 r'''int main() {
  std::vector<float> s; for (int i = 0; i < 8; ++i) s.push_back(i / 8.0f);
  auto r = internal::DecideScoreCutoffs(s, 4); EXPECT(r.size() == 4); EXPECT(r[0] == 0); EXPECT(r[1] == 0.25f); EXPECT(r[2] == 0.625f); EXPECT(r[3] == 1);
}''')
bug("ap-equal-recall", "M08", [("metrics/metrics_utils.cc", """        std::max(recall_precision[recalls[i]], precisions[i]);
  }

  // Precision/Recall pair.""", """        precisions[i];
  }

  // Precision/Recall pair.""")],
 "two score cutoffs with the same recall and different precisions", "the precision kept for a recall depends on the order of the cutoffs",
 r'''int main() {
  const float a = internal::ComputeMeanAveragePrecision({0.5f, 1.0f}, {0.5f, 0.5f}, 1.0f), b = internal::ComputeMeanAveragePrecision({1.0f, 0.5f}, {0.5f, 0.5f}, 1.0f);
  EXPECT(a == b); EXPECT(std::fabs(a - 0.5f) < 1e-6);
}''')
bug("heading-full-turn", "M25", [("metrics/metrics_utils.cc", """  const float gt_heading = NormalizeAngle(
      matcher.ground_truths()[ground_truth_index].object().box().heading());""", """  const float gt_heading =
      matcher.ground_truths()[ground_truth_index].object().box().heading();""")],
 "a ground-truth heading outside [-pi, pi) by more than half a turn", "headings that agree modulo a full turn are reported as wrong",
 r'''int main() {
  auto m = Matcher::Create(Base()); std::vector<Object> p{Obj("a", 0)}, g{Obj("g", 0)};
  p[0].mutable_object()->mutable_box()->set_heading(2.0); g[0].mutable_object()->mutable_box()->set_heading(-2.0 + 4 * M_PI);
  m->SetPredictions(p); m->SetGroundTruths(g);
  EXPECT(std::fabs(internal::ComputeHeadingAccuracy(*m, 0, 0) - (1 - (2 * M_PI - 4) / M_PI)) < 1e-5);
}''')
bug("tracking-gt-only-shards", "M10", [("metrics/metrics_utils.cc", """      if (is_detection && breakdown_generator->IsGroundTruthOnlyBreakdown()) {""", """      if ((is_detection || !is_gt) &&
          breakdown_generator->IsGroundTruthOnlyBreakdown()) {""")],
 "tracking with the velocity breakdown", "predicted tracks are evaluated in every velocity shard",
 r'''int main() {
  Config c = Base(); c.add_score_cutoffs(0); c.add_breakdown_generator_ids(Breakdown::VELOCITY); c.add_difficulties();
  Object o = Obj("a", 0); o.mutable_object()->mutable_metadata()->set_speed_x(5); o.mutable_object()->mutable_metadata()->set_speed_y(0);
  auto s = internal::BuildSubsets(c, {o}, false, false); int n = 0; for (auto& x : s) n += x.indices[0].size(); EXPECT(n == 1);
}''')
bug("fp-inside-nlz-let", "M06", [("metrics/detection_metrics.cc", """        if (!overlap_with_gt_in_other_shard) {
          is_fp = true;
        }""", """        if (gt_subset_id < 0) {
          is_fp = true;
        }""")],
 "a breakdown only ground truths have, and an unmatched prediction overlapping a ground truth of its own shard", "false positives near an object of the shard are dropped",
 r'''int main() {
  Config c = Base(); c.add_score_cutoffs(0); c.add_breakdown_generator_ids(Breakdown::VELOCITY); c.add_difficulties();
  Object g = Obj("g", 0); g.mutable_object()->mutable_metadata()->set_speed_x(5); g.mutable_object()->mutable_metadata()->set_speed_y(0);
  auto m = ComputeDetectionMeasurements(c, {Obj("a", 0), Obj("b", 0.5)}, {g});
  EXPECT(m[3].measurements(0).num_tps() == 1); EXPECT(m[3].measurements(0).num_fps() == 1);
}''')
bug("mota-tie-cutoff", "M14", [("metrics/tracking_metrics.cc", """    if (metrics.mota() < mota) {""", """    if (metrics.mota() <= mota) {""")],
 "two score cutoffs with the same MOTA", "the highest tied cutoff and its components are reported instead of the lowest",
 r'''int main() {
  TrackingMeasurements m; m.mutable_breakdown()->set_generator_id(Breakdown::ONE_SHARD); m.mutable_breakdown()->set_shard(0);
  for (int i = 0; i < 2; ++i) { auto* e = m.add_measurements(); e->set_score_cutoff(0.25f * (i + 1)); e->set_num_misses(i ? 2 : 0); e->set_num_fps(i ? 0 : 2); e->set_num_mismatches(0); e->set_num_matches(i ? 2 : 4); e->set_num_objects_gt(4); e->set_matching_cost(1); }
  auto r = ComputeTrackingMetrics(Base(), std::vector<std::vector<TrackingMeasurements>>{{m}});
  EXPECT(r[0].mota() == 0.5f); EXPECT(r[0].score_cutoff() == 0.25f); EXPECT(r[0].fp() == 0.5f); EXPECT(r[0].motp() == 0.25f);
}''')
