// M12/M13: multi-object tracking over a history of frames.  Symbolic: overlaps, NLZ flags, difficulty, presence.
#include <map>
#include <set>
#include "mh.h"
#include "waymo_open_dataset/metrics/mot.h"
#ifndef NF
#define NF 2
#endif
#ifndef FLAGS
#define FLAGS 1
#endif
#ifndef RELABEL
#define RELABEL 0
#endif
#ifndef ORDERS
#define ORDERS 1
#endif
#ifndef DIAG1
#define DIAG1 0
#endif
#ifndef DEN
#define DEN 3
#endif
#ifndef FULL1
#define FULL1 0
#endif
static const int NP = 2, NG = 2;
struct Fr {
  bool pp[2], gp[2], nlz[2];
  int diff[2];
  Table iou{2, 2};
};
static float g_thr;
struct Out { TrackingMeasurement m; };
static TrackingMeasurement Run(const std::vector<Fr>& fr, const std::vector<std::string>& pn, int level, bool details, bool score_first) {
  MOT mot;
  for (const Fr& f : fr) {
    Config config;
    config.set_matcher_type(score_first ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN);
    config.set_box_type(Label::Box::TYPE_3D);
    for (int i = 0; i <= Label::Type_MAX; ++i) config.add_iou_thresholds(g_thr);
    std::vector<Object> pds, gts;
    std::vector<int> P, G;
    for (int i = 0; i < NP; ++i) {
      pds.push_back(MakeObject(i, Label::TYPE_VEHICLE, 0.5f + 0.25f * i));
      pds.back().set_overlap_with_nlz(f.nlz[i]);
      pds.back().mutable_object()->set_id(pn[i]);
      if (f.pp[i]) P.push_back(i);
    }
    for (int j = 0; j < NG; ++j) {
      gts.push_back(MakeObject(100 + j, Label::TYPE_VEHICLE));
      gts.back().mutable_object()->set_tracking_difficulty_level(static_cast<Label::DifficultyLevel>(f.diff[j]));
      gts.back().mutable_object()->set_id("o" + std::to_string(j));
      if (f.gp[j]) G.push_back(j);
    }
    auto m = Matcher::Create(config);
    m->SetCustomIoUComputeFunc([&f](const Label::Box& a, const Label::Box& b) -> double { return f.iou.at(BoxIndex(a), BoxIndex(b) - 100); });
    m->SetPredictions(pds); m->SetGroundTruths(gts); m->SetPredictionSubset(P); m->SetGroundTruthSubset(G);
    mot.Eval(m.get(), static_cast<Label::DifficultyLevel>(level), details);
  }
  return mot.measurement();
}
extern "C" void vp_property() {
  const int K = 1 << DEN;
  g_thr = 0.5f;
  vp_hash_salt = 0;
  if (ORDERS > 1) vp_hash_salt = vp_choice("hash_order", ORDERS);
  const int level = FLAGS ? 1 + vp_choice("level", 2) : 2;
  std::vector<Fr> fr(NF);
  for (int t = 0; t < NF; ++t) {
    Fr& f = fr[t];
    // a frame without its second track and hypothesis, or with everything
    for (int i = 0; i < NP; ++i) f.pp[i] = (FULL1 && t == 0) ? true : vp_choice("pd_present", 2);
    for (int j = 0; j < NG; ++j) f.gp[j] = (FULL1 && t == 0) ? true : vp_choice("gt_present", 2);
    for (int i = 0; i < NP; ++i) f.nlz[i] = FLAGS && f.pp[i] ? vp_bool("nlz") : false;
    for (int j = 0; j < NG; ++j) f.diff[j] = FLAGS && f.gp[j] ? vp_int("difficulty", 0, 2) : 1;
    for (int i = 0; i < NP; ++i) for (int j = 0; j < NG; ++j) if (f.pp[i] && f.gp[j]) f.iou.at(i, j) = (DIAG1 && t == 0 && i != j) ? 0.f : vp_gridf("iou", 0, K, DEN);
    if (RELABEL) vp_assume(f.iou.at(0, 0) + f.iou.at(1, 1) != f.iou.at(0, 1) + f.iou.at(1, 0) || !(f.pp[0] && f.pp[1] && f.gp[0] && f.gp[1]));
    if (RELABEL) for (int i = 0; i < 2; ++i) {
      if (f.pp[0] && f.pp[1] && f.gp[i]) vp_assume(f.iou.at(0, i) != f.iou.at(1, i));
      if (f.gp[0] && f.gp[1] && f.pp[i]) vp_assume(f.iou.at(i, 0) != f.iou.at(i, 1));
    }
    if (RELABEL) { vp_assume(f.iou.at(0,0) != f.iou.at(1,1)); vp_assume(f.iou.at(0,1) != f.iou.at(1,0)); }
    if (RELABEL && f.pp[0] && f.pp[1] && f.gp[0] && f.gp[1])   // one pair against the sum of the other two
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int d = 0; d < 1; ++d) vp_assume(f.iou.at(i, j) != f.iou.at(1 - i, j) + f.iou.at(i, 1 - j));
  }
#if RELABEL
  const TrackingMeasurement a = Run(fr, {"h0", "h1"}, level, false, false);
  const TrackingMeasurement b = Run(fr, {"zz", "a"}, level, false, false);
  const TrackingMeasurement c = Run(fr, {"h1", "h0"}, level, true, false);
  for (auto* x : {&b, &c}) {
    vp_assert(a.num_misses() == x->num_misses(), "relabelling changes the misses");
    vp_assert(a.num_fps() == x->num_fps(), "relabelling changes the false positives");
    vp_assert(a.num_mismatches() == x->num_mismatches(), "relabelling changes the mismatches");
    vp_assert(a.num_matches() == x->num_matches(), "relabelling changes the matches");
    vp_assert(a.num_objects_gt() == x->num_objects_gt(), "relabelling changes the ground-truth count");
    vp_assert(a.matching_cost() == x->matching_cost(), "relabelling changes the matching error");
  }
  if (a.num_mismatches()) vp_reach("mismatch");
  vp_reach("end");
#else
  const std::vector<std::string> pn = {"h0", "h1"};
  const TrackingMeasurement m = Run(fr, pn, level, true, SCOREFIRST);
  vp_assert(m.details_size() == NF, "one details entry per frame");
  std::map<int, int> last;   // gt -> most recently matched prediction, unless evicted
  int misses = 0, fps = 0, mism = 0, matches = 0, objs = 0;
  double cost = 0;
  vp_all adm, ok;
  for (int t = 0; t < NF; ++t) {
    const Fr& f = fr[t];
    const auto& d = m.details(t);
    vp_assert(d.tp_gt_ids_size() == d.tp_pred_ids_size(), "paired ids");
    std::map<int, int> now;
    std::set<int> usedp;
    for (int k = 0; k < d.tp_gt_ids_size(); ++k) {
      int g = d.tp_gt_ids(k)[1] - '0', p = d.tp_pred_ids(k)[1] - '0';
      vp_assert(g >= 0 && g < NG && p >= 0 && p < NP && f.gp[g] && f.pp[p], "matched objects are in the frame");
      vp_assert(!now.count(g) && !usedp.count(p), "one to one within a frame");
      adm &= f.iou.at(p, g) >= g_thr;
      now[g] = p; usedp.insert(p);
      cost += 1.0 - f.iou.at(p, g);
    }
    // admissible previous pairs stay together
    std::set<int> sg, sp;
    for (auto& kv : last)
      if (f.gp[kv.first] && f.pp[kv.second] && f.iou.at(kv.second, kv.first) >= g_thr) {
        vp_assert(now.count(kv.first) && now[kv.first] == kv.second, "an admissible earlier pair stays matched");
        sg.insert(kv.first); sp.insert(kv.second);
      }
    // the rest is matched optimally
    {
      std::vector<int> G, P;
      for (int j = 0; j < NG; ++j) if (f.gp[j] && !sg.count(j)) G.push_back(j);
      for (int i = 0; i < NP; ++i) if (f.pp[i] && !sp.count(i)) P.push_back(i);
      double got = 0;
      for (int j : G) if (now.count(j)) got += f.iou.at(now[j], j);
      auto w = [&](int i, int j) { return vp_ite(f.iou.at(i, j) >= g_thr, f.iou.at(i, j), 0.0); };
      for (int i : P) for (int j : G) {
        ok &= got >= w(i, j);
        for (int i2 : P) for (int j2 : G) if (i2 != i && j2 != j) ok &= got >= w(i, j) + w(i2, j2);
      }
      if (SCOREFIRST) {
        for (int j : G) for (int i : P) if (!now.count(j) && !usedp.count(i)) vp_assert(!(f.iou.at(i, j) >= g_thr), "an admissible free pair is left unmatched");
      }
    }
    matches += now.size();
    for (int j = 0; j < NG; ++j) if (f.gp[j]) {
      if (now.count(j)) ++objs;
      else if (f.diff[j] <= level) { ++misses; ++objs; }
    }
    for (int i = 0; i < NP; ++i) if (f.pp[i] && !usedp.count(i) && !f.nlz[i]) ++fps;
    // identity switches
    int sw = 0;
    for (auto& kv : now) {
      auto it = last.find(kv.first);
      if (it != last.end() && it->second != kv.second) ++sw;
      for (auto& o : last)   // the partner's previous ground truth has left the scene
        if (o.second == kv.second && o.first != kv.first && !f.gp[o.first]) ++sw;
    }
    mism += sw;
    for (auto& kv : now) for (auto it = last.begin(); it != last.end();) { if (it->second == kv.second && it->first != kv.first) it = last.erase(it); else ++it; }
    for (auto& kv : now) last[kv.first] = kv.second;
    int fnd = 0, fpd = 0;
    for (int j = 0; j < NG; ++j) if (f.gp[j] && !now.count(j)) ++fnd;
    for (int i = 0; i < NP; ++i) if (f.pp[i] && !usedp.count(i)) ++fpd;
    vp_assert(d.fn_gt_ids_size() == fnd && d.fp_pred_ids_size() == fpd, "details list the unmatched objects of the frame");
    if (t > 0 && sw) vp_reach("mismatch");
    if (!sg.empty()) vp_reach("kept");
  }
  vp_assert(adm, "matched pair is admissible");
  if (!SCOREFIRST) vp_assert(ok, "remaining objects are matched with the largest total overlap");
  vp_assert(m.num_matches() == matches, "number of matches");
  vp_assert(m.num_misses() == misses, "misses are the unmatched ground truths up to the level");
  vp_assert(m.num_objects_gt() == objs && m.num_objects_gt() == m.num_matches() + m.num_misses(), "matches plus misses is the number of counted ground truths");
  vp_assert(m.num_fps() == fps, "false positives are the unmatched predictions outside no-label zones");
  vp_assert(m.num_mismatches() == mism, "identity switches");
  vp_assert(m.matching_cost() == cost && cost >= 0 && cost <= matches, "matching error is the sum of one minus overlap");
  vp_reach("end");
#endif
}
