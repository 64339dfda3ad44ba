// M08: average precision.  Symbolic: precisions and recalls on the exact grid.
#include <cmath>
#include "mh.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#ifndef N
#define N 3
#endif
#ifndef DEN
#define DEN 3
#endif
extern "C" void vp_property() {
  const int n = vp_choice("n", N + 1);
  std::vector<float> p(n), r(n);
  const float delta = DELTA;
  for (auto& x : p) x = vp_gridf("p", 0, 1 << DEN, DEN);
  for (auto& x : r) x = vp_gridf("r", 0, 1 << DEN, DEN);
  const float ap = internal::ComputeMeanAveragePrecision(p, r, delta);
  // independent definition: decreasing-recall envelope, flat inside gaps wider than delta
  std::vector<int> o(n);
  std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return r[a] > r[b]; });
  float env = 0, area = 0, lastr = 0, laste = 0; bool first = true;
  auto gap = [&](float from, float to, float e_from, float e_to) {  // from > to
    float a = 0, x = from;
    while (x - to > delta + 1e-5f) { a += delta * e_from; x -= delta; }
    return a + 0.5f * (x - to) * (e_from + e_to);
  };
  int i = 0;
  while (i < n) {
    int j = i; float best = env;
    while (j < n && r[o[j]] == r[o[i]]) { best = std::max(best, p[o[j]]); ++j; }
    if (r[o[i]] == 0.f) break;
    if (!first) area += gap(lastr, r[o[i]], env, best);
    env = best; lastr = r[o[i]]; first = false; i = j;
  }
  if (!first) area += gap(lastr, 0.f, env, env);
  vp_assert(ap >= 0.f && ap <= 1.f + 1e-5f, "average precision lies in [0,1]");
  vp_assert(std::fabs(ap - area) <= 1e-5f, "average precision equals the envelope area");
#if PERM
  if (n >= 2) {
    std::vector<float> p2(p.rbegin(), p.rend()), r2(r.rbegin(), r.rend());
    vp_assert(internal::ComputeMeanAveragePrecision(p2, r2, delta) == ap, "sample order changes the area");
    std::rotate(p2.begin(), p2.begin() + 1, p2.end()); std::rotate(r2.begin(), r2.begin() + 1, r2.end());
    vp_assert(internal::ComputeMeanAveragePrecision(p2, r2, delta) == ap, "sample order changes the area");
  }
#endif
  vp_observe("ap", ap);
  vp_reach("end");
  if (!first) vp_reach("positive recall");
}
