// M12: scene-level tracking measurements = per-frame tracking of the right subsets.  Symbolic: scores, cutoffs, difficulty, NLZ.
#include "mh.h"
#include "waymo_open_dataset/metrics/mot.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
static const Label::Type kTypes[2] = {Label::TYPE_VEHICLE, Label::TYPE_PEDESTRIAN};
static void Place(Object* o, double x) { auto* b = o->mutable_object()->mutable_box(); b->set_center_x(x); b->set_center_y(0); b->set_center_z(0); b->set_length(2); b->set_width(2); b->set_height(2); b->set_heading(0); }
extern "C" void vp_property() {
  vp_hash_salt = 0;
  Config config;
  config.set_matcher_type(MatcherProto::TYPE_HUNGARIAN);
  config.set_box_type(Label::Box::TYPE_2D);
  for (int i = 0; i <= Label::Type_MAX; ++i) config.add_iou_thresholds(0.5f);
  const float cut[2] = {0.25f, vp_gridf("cut", 0, 8, 3)};
  for (float c : cut) config.add_score_cutoffs(c);
  config.add_breakdown_generator_ids(GEN);
  config.add_difficulties()->add_levels(Label::LEVEL_1);
  config.mutable_difficulties(0)->add_levels(Label::LEVEL_2);
  config.set_include_details_in_measurements(vp_choice("details", 2));
  const int NFR = 2;
  std::vector<std::vector<Object>> pds(NFR), gts(NFR);
  // the hypotheses may swap objects between the two frames; the types may differ
  const int pt = NTYPES > 1 ? vp_choice("pt", 2) : 0;
  for (int f = 0; f < NFR; ++f) {
    const bool swap = vp_choice("swap", 2);
    for (int i = 0; i < 2; ++i) {
      pds[f].push_back(MakeObject(0, kTypes[i == 1 ? pt : 0], vp_gridf("score", 0, 8, 3)));
      Place(&pds[f].back(), (i ^ swap) * 10.0);
      pds[f].back().mutable_object()->set_id("h" + std::to_string(i));
      pds[f].back().set_overlap_with_nlz(f ? vp_bool("nlz") : false);
      gts[f].push_back(MakeObject(0, kTypes[i == 1 ? pt : 0]));
      Place(&gts[f].back(), i * 10.0 + (f && i ? 0.5 : 0));
      gts[f].back().mutable_object()->set_id("o" + std::to_string(i));
      gts[f].back().mutable_object()->set_tracking_difficulty_level(static_cast<Label::DifficultyLevel>(f ? vp_int("difficulty", 0, 2) : 1));
      gts[f].back().mutable_object()->set_detection_difficulty_level(Label::LEVEL_1);
    }
  }
  const std::vector<TrackingMeasurements> ms = ComputeTrackingMeasurements(config, pds, gts);
  const int nshards = GEN == Breakdown::ONE_SHARD ? 1 : Label::Type_MAX;
  vp_assert((int)ms.size() == nshards * 2, "one measurement list per shard and level");
  for (int s = 0; s < nshards; ++s) for (int l = 0; l < 2; ++l) {
    const auto& m = ms[s * 2 + l];
    vp_assert(m.breakdown().generator_id() == GEN && m.breakdown().shard() == s && m.breakdown().difficulty_level() == l + 1, "breakdown label");
    vp_assert(m.measurements_size() == 2, "one measurement per cutoff");
    for (int c = 0; c < 2; ++c) {
      MOT mot;
      for (int f = 0; f < NFR; ++f) {
        std::vector<int> P, G;
        for (int i = 0; i < 2; ++i) {
          auto in = [&](const Object& o) { return GEN == Breakdown::ONE_SHARD || o.object().type() - 1 == s; };
          if (in(pds[f][i]) && pds[f][i].score() >= cut[c]) P.push_back(i);
          if (in(gts[f][i])) G.push_back(i);
        }
        auto mt = Matcher::Create(config);
        mt->SetPredictions(pds[f]); mt->SetGroundTruths(gts[f]); mt->SetPredictionSubset(P); mt->SetGroundTruthSubset(G);
        mot.Eval(mt.get(), static_cast<Label::DifficultyLevel>(l + 1), config.include_details_in_measurements());
      }
      const TrackingMeasurement e = mot.measurement(), &g = m.measurements(c);
      vp_assert(g.num_misses() == e.num_misses() && g.num_fps() == e.num_fps() && g.num_mismatches() == e.num_mismatches() && g.num_matches() == e.num_matches() && g.num_objects_gt() == e.num_objects_gt() && g.details_size() == e.details_size(), "scene counts are those of tracking the subset of each frame");
      vp_assert(g.matching_cost() == e.matching_cost(), "scene matching error");
      vp_assert(g.score_cutoff() == cut[c], "cutoff label");
      if (g.num_mismatches()) vp_reach("mismatch");
    }
  }
  vp_reach("end");
}
