// M01: assignment solver.  Symbolic: every entry of the weight matrix.
#include <algorithm>
#include <vector>
#include "waymo_open_dataset/metrics/hungarian.h"
#include "vp.h"
using namespace waymo::open_dataset;
#ifndef MAXN
#define MAXN 3
#endif
#ifndef MINN
#define MINN 1
#endif
#ifndef MAXW
#define MAXW 1000
#endif
extern "C" void vp_property() {
  int n = MINN + vp_choice("n", MAXN - MINN + 1);
  std::vector<int> w(n * n);
  for (auto& x : w) x = vp_int("w", 0, MAXW);
#if !VP_THOROUGH
  if (n == 4) { w[12] = 0; w[13] = 1; w[14] = 1; w[15] = 0; w[8] = 1; }
#endif
  std::vector<int> perm(n, -7), perm2(n, -7), lx(n, 99), ly(n, 99);
#ifdef ONLY_DUAL
  Hungarian(n, w.data(), perm2.data(), lx.data(), ly.data());
  perm = perm2;
#else
  Hungarian(n, w.data(), perm.data());
  Hungarian(n, w.data(), perm2.data(), lx.data(), ly.data());
#endif
  std::vector<int> seen(n, 0);
  for (int i = 0; i < n; ++i) {
    vp_assert(perm[i] >= 0 && perm[i] < n, "assignment in range");
    seen[perm[i]]++;
  }
  for (int i = 0; i < n; ++i) vp_assert(seen[i] == 1, "assignment is a permutation");
  int total = 0, total2 = 0, dual = 0;
  for (int i = 0; i < n; ++i) { total += w[i * n + perm[i]]; total2 += w[i * n + perm2[i]]; dual += lx[i] + ly[i]; }
  vp_assert(total == total2, "both variants agree in weight");
  bool dom = true, best = true;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) dom &= lx[i] + ly[j] >= w[i * n + j];
  vp_assert(dom, "labels dominate edges");
  vp_assert(dual == total2, "labels sum to the matching weight");
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  do {
    int s = 0;
    for (int i = 0; i < n; ++i) s += w[i * n + p[i]];
    best &= s <= total;
  } while (std::next_permutation(p.begin(), p.end()));
  vp_assert(best, "no permutation is heavier");
  vp_observe("total", total);
  vp_reach("end");
}
