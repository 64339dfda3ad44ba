// M10: per-breakdown subsets.  Symbolic: scores and cutoffs.
#include "mh.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#ifndef NO
#define NO 3
#endif
extern "C" void vp_property() {
  static const Breakdown::GeneratorId kGen[7] = {Breakdown::ONE_SHARD, Breakdown::OBJECT_TYPE, Breakdown::RANGE, Breakdown::VELOCITY, Breakdown::ALL_BUT_SIGN, Breakdown::SIZE, Breakdown::CAMERA};
  static const int kNum[7] = {1, 4, 12, 20, 2, 8, 20};
  const int pick = vp_choice("generators", 9);
  const std::vector<int> gs = pick < 7 ? std::vector<int>{pick} : pick == 7 ? std::vector<int>{3, 1} : std::vector<int>{1, 6};
  Config config;
  for (int g : gs) { config.add_breakdown_generator_ids(kGen[g]); config.add_difficulties(); }
  const bool is_gt = vp_choice("is_gt", 2), is_det = vp_choice("is_detection", 2);
  const int nc = is_gt ? 1 : vp_choice("cutoffs", 3);
  std::vector<float> cut;
  for (int i = 0; i < nc; ++i) { cut.push_back(vp_gridf("cut", -1, 9, 3)); config.add_score_cutoffs(cut.back()); }
  std::vector<Object> os;
  const int no = vp_choice("objects", NO + 1);
  // objects of three kinds: a slow near vehicle in front, a fast far cyclist to the left, an untyped one
  static const int kind_type[4] = {1, 4, 0, 3};
  std::vector<int> kind;
  for (int i = 0; i < no; ++i) {
    const int k = vp_choice("kind", 4);
    kind.push_back(k);
    Object o = MakeObject(0, static_cast<Label::Type>(kind_type[k]), vp_gridf("score", 0, 8, 3));
    auto* b = o.mutable_object()->mutable_box();
    b->set_center_x(k == 1 ? 0 : 10); b->set_center_y(k == 1 ? 60 : k == 3 ? 10 : 0); b->set_center_z(0);
    b->set_length(k == 1 ? 9 : 2);
    o.mutable_object()->mutable_metadata()->set_speed_x(k == 1 ? 20 : 0);
    o.mutable_object()->mutable_metadata()->set_speed_y(0);
    os.push_back(o);
  }
  // shard of each kind per generator (-1: none); kind 3: a sign ahead-left, 45 degrees
  static const int kShard[7][4] = {{0, 0, 0, 0}, {0, 3, -1, 2}, {0, 11, -1, 6}, {0, 19, -1, 10}, {0, 0, 0, 1}, {0, 7, -1, 4}, {0, 18, -1, 11}};
  const auto r = internal::BuildSubsets(config, os, is_gt, is_det);
  size_t at = 0;
  for (size_t gi = 0; gi < gs.size(); ++gi) for (int s = 0; s < kNum[gs[gi]]; ++s, ++at) {
    const int g = gs[gi];
    if (at >= r.size()) break;
    vp_assert(r[at].breakdown_generator_id_index == (int)gi && r[at].breakdown_shard == s, "subset label");
    std::vector<int> in;
    for (int i = 0; i < no; ++i) {
      bool m = kShard[g][kind[i]] == s;
      if (is_det && g == 3) m = kind_type[kind[i]] != 0 && s / 5 == kind_type[kind[i]] - 1;   // every speed of the type
      if (m) in.push_back(i);
    }
    vp_assert((int)r[at].indices.size() == (is_gt ? 1 : nc), "one list per cutoff, one for ground truths");
    for (size_t c = 0; c < r[at].indices.size(); ++c) {
      std::vector<int> want;
      for (int i : in) if (is_gt || os[i].score() >= cut[c]) want.push_back(i);
      vp_assert(r[at].indices[c] == want, "exactly the objects of the shard at or above the cutoff, in order");
      if (want.size() == 2) vp_reach("two");
    }
  }
  vp_assert(at == r.size(), "one subset per breakdown shard");
  vp_reach("end");
}
