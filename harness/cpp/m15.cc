// M15: segmentation IoU.  Symbolic: every label (MODE 0), every partial count (MODE 1).
#include <cmath>
#include <cstdint>
#include "mh.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"
#ifndef NP
#define NP 3
#endif
#ifndef NR
#define NR 2
#endif
using T = Segmentation::Type;
static SegmentationMetricsConfig Cfg(const std::vector<int>& cls) { SegmentationMetricsConfig c; for (int x : cls) c.add_segmentation_types(static_cast<T>(x)); return c; }
static void Check(const SegmentationMetrics& m, const std::vector<int>& cls, const std::vector<int64_t>& in, const std::vector<int64_t>& un) {
  const int n = cls.size();
  const auto& s = m.segmentation_measurements();
  vp_assert(s.intersections_size() == n && s.unions_size() == n && (int)m.per_class_iou().size() == n, "one entry per class");
  vp_all cnt, iou; float sum = 0;
  for (int i = 0; i < n; ++i) {
    cnt &= s.intersections(i) == in[i]; cnt &= s.unions(i) == un[i];
    const float v = m.per_class_iou().at(cls[i]);
    const bool empty = un[i] <= 0;
    if (empty) iou &= v == 1.f;
    else { const double e = (double)v * un[i] - in[i], tol = 1e-6 * un[i]; iou &= vp_and(e <= tol, e >= -tol); iou &= vp_and(v >= 0.f, v <= 1.f); }
    sum += v;
  }
  vp_assert(cnt, "intersections and unions are those of the point sets");
  vp_assert(iou, "overlap is intersection over union, one for an empty class");
  vp_assert(std::fabs(m.miou() * n - sum) < 1e-5f, "mean over classes");
}
static const std::vector<std::vector<int>> kClasses = {{3, 1}, {2}, {1, 2, 3}};
extern "C" void vp_property() {
#if MODE == 0
  const std::vector<int> cls = kClasses[vp_choice("classes", 3)];
  const int n = 1 + vp_choice("points", NP), cut = vp_choice("split", n + 1);
  std::vector<T> p(n), g(n);
  for (int i = 0; i < n; ++i) { p[i] = static_cast<T>(vp_int("pred", 0, 3)); g[i] = static_cast<T>(vp_int("truth", 0, 3)); }
  SegmentationMetricsIOU a(Cfg(cls)), b(Cfg(cls)), c(Cfg(cls));
  const std::vector<T> p1(p.begin(), p.begin() + cut), p2(p.begin() + cut, p.end()), g1(g.begin(), g.begin() + cut), g2(g.begin() + cut, g.end());
  if (vp_choice("reset", 2)) { vp_assert(c.Update(g, p).ok(), "update"); c.Reset(); }
  vp_assert(a.Update(p1, g1).ok() && b.Update(p2, g2).ok() && c.Update(p1, g1).ok(), "update");
  vp_assert(!c.Update(p, std::vector<T>(n + 1, Segmentation::TYPE_CAR)).ok(), "different lengths are an error");
  vp_assert(c.Update(p2, g2).ok(), "update");
  const int k = cls.size();
  std::vector<int64_t> in(k, 0), un(k, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j) {
      bool known = false;
      for (int x : cls) known |= g[i] == x;
      if (p[i] == cls[j] && g[i] == cls[j]) ++in[j];
      if (g[i] == cls[j] || (p[i] == cls[j] && known)) ++un[j];  // points whose truth is not evaluated do not count
    }
  Check(c.ComputeIOU(), cls, in, un);
  Check(a.MergeResults({a.ComputeIOU().segmentation_measurements(), b.ComputeIOU().segmentation_measurements()}), cls, in, un);
  if (in[0] > 0 && un[0] > in[0]) vp_reach("partial overlap");
#else
  const std::vector<int> cls = {3, 1};
  const int r = vp_choice("results", NR + 1);
  std::vector<SegmentationMeasurements> m(r);
  std::vector<int64_t> in(2, 0), un(2, 0);
  for (auto& x : m) for (int j = 0; j < 2; ++j) {
    const int64_t i = vp_long("intersection", 0, MAXC), d = vp_long("rest", 0, MAXC);
    x.add_intersections(i); x.add_unions(i + d); in[j] += i; un[j] += i + d;
  }
  SegmentationMetricsIOU a(Cfg(cls));
  Check(a.MergeResults(m), cls, in, un);
  if (r == NR) vp_reach("partial overlap");
#endif
  vp_reach("end");
}
