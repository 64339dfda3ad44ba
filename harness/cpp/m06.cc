// M06: detection counting.  Symbolic: overlaps, scores, cutoffs, NLZ flags, difficulty levels.
#include <cmath>
#include <set>
#include "mh.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#ifndef NP
#define NP 2
#endif
#ifndef NG
#define NG 2
#endif
#ifndef DEN
#define DEN 4
#endif
#ifndef NCUT
#define NCUT 2
#endif
static const Label::Type kTypes[2] = {Label::TYPE_VEHICLE, Label::TYPE_PEDESTRIAN};
static const float kHead[3] = {0.f, 1.5707964f, 3.0f};
extern "C" void vp_property() {
  const int K = 1 << DEN;
  Config config;
  config.set_matcher_type(SCOREFIRST ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN);
  config.set_box_type(Label::Box::TYPE_3D);
  for (int i = 0; i <= Label::Type_MAX; ++i) config.add_iou_thresholds(0.5f);
  std::vector<float> cut;
  for (int i = 0; i < NCUT; ++i) { cut.push_back(vp_gridf("cut", 0, 8, 3)); config.add_score_cutoffs(cut.back()); }
  config.add_breakdown_generator_ids(GEN);
  auto* dl = config.add_difficulties();
#if LEVELS
  dl->add_levels(Label::LEVEL_1);
  dl->add_levels(Label::LEVEL_2);
  const std::vector<int> levels = {1, 2};
#else
  const std::vector<int> levels = {2};
#endif
  config.set_include_details_in_measurements(true);
  if (HEAD) config.set_min_heading_accuracy(vp_gridf("min_ha", 0, 8, 3) + 0.0625f);
  Table iou(NP, NG);
  for (auto& x : iou.v) x = vp_gridf("iou", 0, K, DEN);
  std::vector<Object> pds, gts;
  std::vector<int> hp(NP, 0), diff(NG, 0), pt(NP, 0), gt(NG, 0), vel(NG, 0);
  std::vector<char> nlz(NP);
  for (int i = 0; i < NP; ++i) {
    if (NTYPES > 1) pt[i] = vp_choice("pt", NTYPES);
    pds.push_back(MakeObject(i, kTypes[pt[i]], vp_gridf("score", 0, 8, 3)));
    nlz[i] = vp_bool("nlz");
    pds.back().set_overlap_with_nlz(nlz[i]);
    pds.back().mutable_object()->set_id("p" + std::to_string(i));
    if (HEAD) { hp[i] = vp_choice("heading", 3); pds.back().mutable_object()->mutable_box()->set_heading(kHead[hp[i]]); }
    pds.back().mutable_object()->mutable_metadata()->set_speed_x(0);
    pds.back().mutable_object()->mutable_metadata()->set_speed_y(0);
    pds.back().mutable_object()->mutable_metadata()->set_accel_x(0);
  }
  for (int i = 0; i < NG; ++i) {
    if (NTYPES > 1) gt[i] = vp_choice("gt", NTYPES);
    gts.push_back(MakeObject(100 + i, kTypes[gt[i]]));
    diff[i] = vp_int("difficulty", 0, 2);
    gts.back().mutable_object()->set_detection_difficulty_level(static_cast<Label::DifficultyLevel>(diff[i]));
    gts.back().mutable_object()->set_id("g" + std::to_string(i));
    if (GEN == Breakdown::VELOCITY) vel[i] = vp_choice("fast", 2);
    gts.back().mutable_object()->mutable_metadata()->set_speed_x(vel[i] ? 5.0 : 0.0);
    gts.back().mutable_object()->mutable_metadata()->set_speed_y(0);
  }
  auto iouf = [&](const Label::Box& a, const Label::Box& b) -> double { return iou.at(BoxIndex(a), BoxIndex(b) - 100); };
  const std::vector<DetectionMeasurements> ms = ComputeDetectionMeasurements(config, pds, gts, iouf);
  const bool gtonly = GEN == Breakdown::VELOCITY;
  const int per_type = GEN == Breakdown::ONE_SHARD ? 1 : GEN == Breakdown::OBJECT_TYPE ? 1 : 5;
  const int nshards = GEN == Breakdown::ONE_SHARD ? 1 : per_type * Label::Type_MAX;
  vp_assert((int)ms.size() == nshards * (int)levels.size(), "one measurement list per shard and level");
  // shards that can contain objects here
  for (int s = 0; s < nshards; ++s) {
    std::vector<int> G;
    auto shard_of = [&](int type, int fast) { return GEN == Breakdown::ONE_SHARD ? 0 : (kTypes[type] - 1) * per_type + (GEN == Breakdown::VELOCITY ? (fast ? 3 : 0) : 0); };
    auto pool = [&](int type) { return GEN == Breakdown::ONE_SHARD ? true : (kTypes[type] - 1) == s / per_type; };
    for (int j = 0; j < NG; ++j) if (pool(gt[j])) G.push_back(j);
    auto in = [&](int j) { return !gtonly || shard_of(gt[j], vel[j]) == s; };
    for (int c = 0; c < NCUT; ++c) {
      std::vector<int> P;
      for (int i = 0; i < NP; ++i) if (pool(pt[i]) && pds[i].score() >= cut[c]) P.push_back(i);
      std::unique_ptr<Matcher> m = Matcher::Create(config);
      m->SetCustomIoUComputeFunc(iouf);
      m->SetPredictions(pds); m->SetGroundTruths(gts); m->SetPredictionSubset(P); m->SetGroundTruthSubset(G);
      std::vector<int> pm, gm;
      m->Match(&pm, &gm);
      for (int l = 0; l < (int)levels.size(); ++l) {
        const DetectionMeasurements& dm = ms[s * levels.size() + l];
        vp_assert(dm.breakdown().generator_id() == GEN && dm.breakdown().shard() == s && dm.breakdown().difficulty_level() == levels[l], "breakdown label of a measurement list");
        vp_assert(dm.measurements_size() == NCUT, "one measurement per cutoff");
        const DetectionMeasurement& me = dm.measurements(c);
        int tp = 0, fp = 0, fn = 0, low = 0, ign = 0, outside = 0, matched_out = 0;
        float ha = 0;
        std::multiset<std::string> etp, efp, efn;
        for (int i = 0; i < (int)P.size(); ++i) {
          if (pm[i] >= 0) {
            if (!in(G[pm[i]])) { ++matched_out; continue; }
            const float d = HEAD ? std::fabs(kHead[hp[P[i]]]) / M_PI : 0.f;
            if (HEAD && 1.f - d <= config.min_heading_accuracy()) { ++low; continue; }
            ++tp; ha += 1.f - d; etp.insert(pds[P[i]].object().id() + gts[G[pm[i]]].object().id());
          } else if (nlz[P[i]]) ++ign;
          else {
            int best = -1; float b = 0.01f;
            if (gtonly) for (int j = 0; j < (int)G.size(); ++j) { const float o = pt[P[i]] == gt[G[j]] ? iou.at(P[i], G[j]) : 0.f; if (o >= b) { b = o; best = j; } }
            if (gtonly && best >= 0 && !in(G[best])) ++outside; else { ++fp; efp.insert(pds[P[i]].object().id()); }
          }
        }
        int hard = 0, gout = 0;
        for (int j = 0; j < (int)G.size(); ++j) {
          if (!in(G[j])) { ++gout; continue; }
          if (gm[j] >= 0) continue;
          if (diff[G[j]] <= levels[l]) { ++fn; efn.insert(gts[G[j]].object().id()); } else ++hard;
        }
        vp_assert(me.num_tps() == tp, "true positives are the matched predictions of the breakdown");
        vp_assert(me.num_fps() == fp, "false positives are the unmatched predictions outside no-label zones");
        vp_assert(me.num_fns() == fn, "false negatives are the unmatched ground truths up to the level");
        vp_assert(me.num_tps() + me.num_fps() + low + ign + outside + matched_out == (int)P.size(), "every prediction above the cutoff is accounted for once");
        vp_assert(me.num_tps() + low + me.num_fns() + hard + gout == (int)G.size(), "every ground truth is accounted for once");
        vp_assert(std::fabs(me.sum_ha() - ha) < 1e-4, "heading accuracy sum");
        vp_assert(me.sum_longitudinal_affinity() == tp, "affinity sum without tolerance is the number of true positives");
        vp_assert(me.score_cutoff() == cut[c], "score cutoff label");
        vp_assert(me.details_size() == 1 && me.details(0).tp_pr_ids_size() == tp && me.details(0).tp_gt_ids_size() == tp && me.details(0).fp_ids_size() == fp && me.details(0).fn_ids_size() == fn, "details list exactly the counted objects");
        std::multiset<std::string> dtp, dfp, dfn;
        const auto& de = me.details(0);
        for (int x = 0; x < tp; ++x) dtp.insert(de.tp_pr_ids(x) + de.tp_gt_ids(x));
        for (const auto& x : de.fp_ids()) dfp.insert(x);
        for (const auto& x : de.fn_ids()) dfn.insert(x);
        vp_assert(dtp == etp && dfp == efp && dfn == efn, "details name the counted objects");
        vp_assert(de.tp_ious_size() == tp && de.tp_heading_accuracies_size() == tp, "details carry one overlap and heading accuracy per true positive");
        if (tp && fp && c == 0) vp_reach("tp+fp");
        if (fn) vp_reach("fn");
      }
    }
  }
  vp_reach("end");
}
