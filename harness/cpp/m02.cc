// M02-M04: matchers.  Symbolic: every overlap, every threshold, every score; enumerated: matcher
// kind, types, ordered subsets, history.
#include "mh.h"
#ifndef NP
#define NP 2
#endif
#ifndef NG
#define NG 2
#endif
#ifndef DEN
#define DEN 4   // overlaps are k/2^DEN
#endif
static const Label::Type kTypes[2] = {Label::TYPE_VEHICLE, Label::TYPE_PEDESTRIAN};
extern "C" void vp_property() {
  const int K = 1 << DEN;
  Table iou(NP, NG);
  for (auto& x : iou.v) x = vp_gridf("iou", 0, K, DEN);
  std::vector<float> thr(Label::Type_MAX + 1, 0.5f);
  for (int t = 0; t < NTYPES; ++t) thr[kTypes[t]] = vp_gridf("thr", 0, K, DEN);
  std::vector<Object> pds, gts;
  std::vector<int> pt(NP, 0), gt(NG, 0);
  for (int i = 0; i < NP; ++i) {
    if (NTYPES > 1) pt[i] = vp_choice("pt", NTYPES);
    pds.push_back(MakeObject(i, kTypes[pt[i]], SCORES ? vp_gridf("score", 0, 8, 3) : 0.5f));
  }
  for (int i = 0; i < NG; ++i) {
    if (NTYPES > 1) gt[i] = vp_choice("gt", NTYPES);
    gts.push_back(MakeObject(100 + i, kTypes[gt[i]]));
  }
  const std::vector<int> ps = ChooseSubset("psub", NP), gs = ChooseSubset("gsub", NG);
#ifdef KIND
  const int kind = KIND;
#else
  const int kind = vp_choice("kind", 2);
#endif
  std::unique_ptr<Matcher> m = Matcher::Create(kind ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN, thr, Label::Box::TYPE_3D);
  m->SetCustomIoUComputeFunc([&](const Label::Box& a, const Label::Box& b) -> double { return iou.at(BoxIndex(a), BoxIndex(b) - 100); });
  std::vector<int> pm, gm;
#ifdef OBJECTS
  // an earlier call with other objects (the same ones in another order, possibly fewer)
  std::vector<Object> pds0(pds.rbegin(), pds.rend()), gts0(gts.rbegin(), gts.rend());
  const int swap = vp_choice("swap", 3);
  if (vp_choice("fewer", 2)) { pds0.pop_back(); gts0.pop_back(); }
  m->SetPredictions(swap == 1 ? pds : pds0); m->SetGroundTruths(swap == 0 ? gts : gts0);
  { std::vector<int> a(swap == 1 ? pds.size() : pds0.size()), b(swap == 0 ? gts.size() : gts0.size()); std::iota(a.begin(), a.end(), 0); std::iota(b.begin(), b.end(), 0); m->SetPredictionSubset(a); m->SetGroundTruthSubset(b); }
  m->Match(&pm, &gm);
  if (swap != 1) m->SetPredictions(pds);
  if (swap != 0) m->SetGroundTruths(gts);
#else
  m->SetPredictions(pds);
  m->SetGroundTruths(gts);
#endif
#ifdef HISTORY
  {  // an earlier call on the same matcher, with another subset, into the same vectors
#if VP_THOROUGH
    m->SetPredictionSubset(ChooseSubset("psub0", NP));
    m->SetGroundTruthSubset(ChooseSubset("gsub0", NG));
#else
    m->SetPredictionSubset({0, 1});
    if (vp_choice("gsub0", 2)) m->SetGroundTruthSubset({1}); else m->SetGroundTruthSubset({1, 0});
#endif
    m->Match(&pm, &gm);
  }
#endif
  m->SetPredictionSubset(ps);
  m->SetGroundTruthSubset(gs);
  m->Match(&pm, &gm);
  const int n = ps.size(), k = gs.size();
  vp_assert((int)pm.size() == n && (int)gm.size() == k, "output sizes equal subset sizes");
  auto ov = [&](int i, int j) { return pt[ps[i]] == gt[gs[j]] ? iou.at(ps[i], gs[j]) : 0.f; };
  auto adm = [&](int i, int j) { return ov(i, j) >= thr[kTypes[pt[ps[i]]]]; };
  auto q = [&](int i, int j) { return (int)std::round(ov(i, j) * kMaxIoU); };
#if PROP == 2
  for (int i = 0; i < n; ++i) {
    vp_assert(pm[i] >= -1 && pm[i] < k, "prediction match in range");
    if (pm[i] >= 0) {
      vp_assert(gm[pm[i]] == i, "matches are mutually inverse");
      vp_assert(adm(i, pm[i]), "matched pair reaches the threshold of its type");
    }
  }
  for (int j = 0; j < k; ++j) {
    vp_assert(gm[j] >= -1 && gm[j] < n, "ground truth match in range");
    if (gm[j] >= 0) vp_assert(pm[gm[j]] == j, "matches are mutually inverse");
  }
#ifdef HISTORY
  {
    std::unique_ptr<Matcher> f = Matcher::Create(kind ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN, thr, Label::Box::TYPE_3D);
    f->SetCustomIoUComputeFunc([&](const Label::Box& a, const Label::Box& b) -> double { return iou.at(BoxIndex(a), BoxIndex(b) - 100); });
    f->SetPredictions(pds); f->SetGroundTruths(gts); f->SetPredictionSubset(ps); f->SetGroundTruthSubset(gs);
    std::vector<int> pf, gf;
    f->Match(&pf, &gf);
    vp_assert(pf == pm && gf == gm, "an earlier call changes the result");
  }
#endif
#elif PROP == 3
  int total = 0;
  for (int i = 0; i < n; ++i) if (pm[i] >= 0) total += q(i, pm[i]);
  // every one-to-one set of admissible pairs
  bool best = true;
  std::function<void(int, std::vector<int>&, int, bool)> rec = [&](int i, std::vector<int>& used, int sum, bool ok) {
    if (i == n) { best &= !ok | (sum <= total); return; }
    rec(i + 1, used, sum, ok);
    for (int j = 0; j < k; ++j)
      if (!used[j]) { used[j] = 1; rec(i + 1, used, sum + q(i, j), ok & adm(i, j)); used[j] = 0; }
  };
  std::vector<int> used(k, 0);
  rec(0, used, 0, true);
  vp_assert(best, "another admissible matching has larger total overlap");
  vp_observe("total", total);
#elif PROP == 4
  // replay the documented greedy rule over the returned result
  bool score_ok = true;
  for (int i = 0; i < n; ++i) {
    const float si = pds[ps[i]].score();
    for (int j = 0; j < k; ++j) {
      if (!adm(i, j)) continue;
      // j was available to i: only a prediction scoring at least as high may hold it when i does not
      const int other = gm[j];
      if (other == i) continue;
      const bool taken_by_higher = other >= 0 && pds[ps[other]].score() > si;
      const bool taken_by_tie = other >= 0 && pds[ps[other]].score() == si;
      if (taken_by_higher || taken_by_tie) continue;
      // not taken by anyone processed before i: i must have preferred another one of at least this overlap
      vp_assert(pm[i] >= 0, "admissible ground truth left while prediction unmatched");
      if (pm[i] >= 0) vp_assert(q(i, pm[i]) >= q(i, j), "a free ground truth with larger overlap exists");
    }
    if (pm[i] >= 0) vp_assert(adm(i, pm[i]), "matched pair is admissible");
  }
#endif
  vp_reach("end");
  if (n && k && pm[0] == 0) vp_reach("matched");
}
