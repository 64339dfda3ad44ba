// M05: intersection over union of two boxes.
#include <cmath>
#include <vector>
#include "vp.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/iou.h"
using namespace waymo::open_dataset;
typedef Label::Box Box;
static Box Make(double x, double y, double z, double l, double w, double h, double t) {
  Box b; b.set_center_x(x); b.set_center_y(y); b.set_center_z(z); b.set_length(l); b.set_width(w); b.set_height(h); b.set_heading(t); return b;
}
static bool Near(double a, double b) { return vp_and(a - b < 1e-6, b - a < 1e-6); }
static double Ov(double a, double la, double b, double lb) {  // length of the common part of two intervals
  const double lo = vp_ite(a - la / 2 > b - lb / 2, a - la / 2, b - lb / 2), hi = vp_ite(a + la / 2 < b + lb / 2, a + la / 2, b + lb / 2);
  return vp_ite(hi - lo > 0, hi - lo, 0.0);
}
static void Check(const Box& a, const Box& b, Box::Type type, double inter, double va, double vb) {
  const double iou = ComputeIoU(a, b, type);
  const double uni = va + vb - inter;
  vp_assert(vp_and(iou >= 0, iou <= 1), "lies in [0,1]");
  vp_assert(Near(iou * uni, inter), "intersection over union");
  vp_assert(Near(ComputeIoU(b, a, type), iou), "symmetric");
  if (inter > 0.25) vp_reach("inside");
}
#if MODE == 1
typedef std::vector<std::pair<double, double>> Pts;
static Pts Corners(double x, double y, double l, double w, double t) {
  const double c = std::cos(t), s = std::sin(t); Pts r;
  const double sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1};
  for (int i = 0; i < 4; ++i) { const double u = sx[i] * l / 2, v = sy[i] * w / 2; r.push_back({x + (u * c - v * s), y + (u * s + v * c)}); }
  return r;
}
static double Clipped(Pts p, const Pts& q, const Pts& q0) {  // q0: q at its own centre
  for (int j = 0; j < 4 && !p.empty(); ++j) {
    const double ex = q0[(j + 1) % 4].first - q0[j].first, ey = q0[(j + 1) % 4].second - q0[j].second;
    Pts r; const int n = p.size();
    for (int i = 0; i < n; ++i) {
      const auto s = p[i], e = p[(i + 1) % n];
      const double ds = ex * (s.second - q[j].second) - ey * (s.first - q[j].first), de = ex * (e.second - q[j].second) - ey * (e.first - q[j].first);
      const bool is = ds >= 0, ie = de >= 0;
      if (is) r.push_back(s);
      if (is != ie) { const double t = ds / (ds - de); r.push_back({s.first + (e.first - s.first) * t, s.second + (e.second - s.second) * t}); }
    }
    p = r;
  }
  double a = 0; const int n = p.size();
  for (int i = 1; i + 1 < n; ++i) a += (p[i].first - p[0].first) * (p[i + 1].second - p[0].second) - (p[i].second - p[0].second) * (p[i + 1].first - p[0].first);
  return n < 3 ? 0 : a / 2;
}
#endif
extern "C" void vp_property() {
  const double B = 300;  // keeps every product of coordinates within one power of two
#if MODE == 0
  // axis-aligned: one axis symbolic in place and size, the other from a list
  const double x = vp_grid("x", -128, 128, 3), l1 = vp_int("l1", 1, 8), l2 = vp_grid("l2", 1, 64, 3);
  static const double oy[] = {0, 0.5, 2, 4}, ow[] = {4, 1};
  const double y = oy[vp_choice("y", 4)], w2 = ow[vp_choice("w2", 2)];
  const bool flip = vp_choice("axis", 2);
  const Box a = flip ? Make(B, B, 5, 3, l1, 2, 0) : Make(B, B, 5, l1, 3, 2, 0), b = flip ? Make(B + y, B + x, 9, w2, l2, 7, 0) : Make(B + x, B + y, 9, l2, w2, 7, 0);
  Check(a, b, Box::TYPE_AA_2D, Ov(0, l1, x, l2) * Ov(0, 3, y, w2), l1 * 3, l2 * w2);
#elif MODE == 1
  // oriented, top down
  static const double hs[][2] = {HEADINGS};
  const int k = vp_choice("headings", sizeof(hs) / sizeof(hs[0]));
  static const double ls[][4] = {{4, 2, 3, 1}, {2, 2, 6, 0.5}};
  const double* L = ls[vp_choice("sizes", NSIZES)];
  static const double lines[][4] = {LINES};  // the second box moves along a line
  const double* N = lines[vp_choice("line", sizeof(lines) / sizeof(lines[0]))];
  const double p = vp_int("p", -OFFR, OFFR), x = N[0] + p * N[2], y = N[1] + p * N[3];
  const Box a = Make(B, B, 1, L[0], L[1], 2, hs[k][0]), b = Make(B + x, B + y, 50, L[2], L[3], 7, hs[k][1]);
  const double inter = Clipped(Corners(B, B, L[0], L[1], hs[k][0]), Corners(B + x, B + y, L[2], L[3], hs[k][1]), Corners(B, B, L[2], L[3], hs[k][1]));
  Check(a, b, Box::TYPE_2D, inter, L[0] * L[1], L[2] * L[3]);
#elif MODE == 2
  // upright boxes: heights and vertical places symbolic, a few places from the side
  const double z = vp_grid("z", -128, 128, 3), h1 = vp_int("h1", 1, 8), h2 = vp_grid("h2", 1, 64, 3);
  static const double px[][2] = {{0, 0}, {1, 0.5}, {3, 2}, {2.5, -1}, {9, 0}, {0, 3.5}};
  static const double common[] = {3, 2.25, 0.25, 1, 0, 0};  // of 4 x 3 at the origin and of 2 x 1.5
  const int k = vp_choice("place", 6);
  const Box a = Make(B, B, 5, 4, 3, h1, 0), b = Make(B + px[k][0], B + px[k][1], 5 + z, 2, 1.5, h2, 0);
  const double ox = Ov(0, 4, px[k][0], 2), oy = Ov(0, 3, px[k][1], 1.5); (void)common;
  Check(a, b, Box::TYPE_3D, ox * oy * Ov(0, h1, z, h2), 12 * h1, 3 * h2);
#elif MODE == 3
  // a box with itself; boxes with a side that is too small or too large
  static const Box::Type types[] = {Box::TYPE_3D, Box::TYPE_2D, Box::TYPE_AA_2D};
  static const double hs[] = {HS};
  const int ti = vp_choice("type", 3); const Box::Type type = types[ti];
  const double h = hs[vp_choice("heading", sizeof(hs) / sizeof(hs[0]))];
  double s[3] = {4, 2, 1.5};
  const int side = vp_choice("side", 3), range = vp_choice("range", 3);
  const double v = range == 0 ? vp_grid("v", 0, 24, 10) : range == 1 ? 1e6 - 4 + vp_grid("v", 0, 32, 2) : vp_grid("v", 1, 24, 2);
  s[side] = v;
  const Box a = Make(B, B, 2, s[0], s[1], s[2], h), b = Make(B, B, 2, 4, 2, 1.5, h);
  const bool thin = vp_and(v <= 0.01, vp_or(side < 2, type == Box::TYPE_3D)), huge = v >= 1e6;
  const double iou = ComputeIoU(a, b, type), rev = ComputeIoU(b, a, type);
  vp_assert(vp_and(iou >= 0, iou <= 1), "lies in [0,1]");
  vp_assert(vp_not(vp_and(vp_or(thin, huge), vp_or(iou != 0, rev != 0))), "boxes with a side of at most 1 cm or at least 1000 km overlap nothing");
  const double v1 = type == Box::TYPE_3D ? s[0] * s[1] * s[2] : s[0] * s[1], v2 = type == Box::TYPE_3D ? 12 : 8, c = v < (side == 0 ? 4 : side == 1 ? 2 : 1.5) ? v1 : v2;
  if (!thin && !huge) { vp_assert(Near(iou * (type != Box::TYPE_3D && side == 2 ? 8 : v1 + v2 - c), type != Box::TYPE_3D && side == 2 ? 8 : c), "boxes sharing centre and heading: the smaller over the larger"); vp_reach("inside"); }
  if (range == 2) vp_assert(Near(ComputeIoU(a, a, type), 1), "1 for a box with itself");
#else
  // the batched form
  static const Box::Type types[] = {Box::TYPE_3D, Box::TYPE_2D, Box::TYPE_AA_2D};
  const Box::Type type = types[vp_choice("type", 3)];
  const int n = vp_choice("n", 4);
  const double x = vp_grid("x", -32, 32, 2);
  std::vector<Box> bs; for (int i = 0; i < n; ++i) bs.push_back(Make(B + x + i, B + 0.5 * i, 5 + x, 3 + i, 2, 2, 0));
  const Box a = Make(B, B, 5, 4, 3, 2, 0);
  const std::vector<double> r = BatchComputeIoU(a, bs, type);
  vp_assert((int)r.size() == n, "one result per box");
  for (int i = 0; i < n; ++i) vp_assert(r[i] == ComputeIoU(a, bs[i], type), "the batched form agrees with the single form");
  vp_reach("inside");
#endif
  vp_reach("end");
}
