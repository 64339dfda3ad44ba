// G01: area of the intersection of two convex polygons.
#include <cmath>
#ifndef BASE
#define BASE 300  // keeps every product of coordinates within one power of two
#endif
#include <vector>
#include "vp.h"
#include "waymo_open_dataset/math/polygon2d.h"
using namespace waymo::open_dataset;
static bool Near(double a, double b) { return vp_and(a - b < 1e-9, b - a < 1e-9); }
typedef std::vector<Vec2d> Pts;
static Pts Shape(int k) {
  Pts v;
  auto add = [&](double x, double y) { v.push_back(Vec2d(x + BASE, y + BASE)); };
  if (k == 0) { add(0, 0); add(5, 1); add(2, 6); }
  else if (k == 1) { add(-3, -2); add(4, -2); add(4, 3); add(-3, 3); }
  else if (k == 2) { add(0, 0); add(4, -1); add(7, 2); add(6, 5); add(1, 4); }
  else if (k == 3) { add(0, -2); add(2, 0); add(0, 2); add(-2, 0); }
  else if (k == 4) { add(0, 0); add(1, 0); add(1, 1); add(0, 1); }
  else if (k == 5) { add(0, 0); add(8, 1); add(8, 2); add(0, 1); }
  return v;
}
static double Shoelace(const Pts& v) {
  double a = 0; const int n = v.size();
  for (int i = 1; i + 1 < n; ++i) a += (v[i].x() - v[0].x()) * (v[i + 1].y() - v[0].y()) - (v[i].y() - v[0].y()) * (v[i + 1].x() - v[0].x());
  return a / 2;
}
// Clips p by the half planes to the left of the sides of q.
static double Clipped(Pts p, const Pts& q, const Pts& qdir) {
  const int m = q.size();
  for (int j = 0; j < m && !p.empty(); ++j) {
    const Vec2d a = q[j];
    const double ex = qdir[(j + 1) % m].x() - qdir[j].x(), ey = qdir[(j + 1) % m].y() - qdir[j].y();
    Pts r; const int n = p.size();
    for (int i = 0; i < n; ++i) {
      const Vec2d s = p[i], e = p[(i + 1) % n];
      const double ds = ex * (s.y() - a.y()) - ey * (s.x() - a.x()), de = ex * (e.y() - a.y()) - ey * (e.x() - a.x());
      const bool is = ds >= 0, ie = de >= 0;
      if (is) r.push_back(s);
      if (is != ie) { const double den = ds - de; const double t = ds / den; r.push_back(Vec2d(s.x() + (e.x() - s.x()) * t, s.y() + (e.y() - s.y()) * t)); }
    }
    p = r;
  }
  return p.size() < 3 ? 0 : Shoelace(p);
}
extern "C" void vp_property() {
  static const int pairs[][2] = {PAIRS};
  const int k = vp_choice("pair", sizeof(pairs) / sizeof(pairs[0]));
  const Pts a = Shape(pairs[k][0]), b0 = Shape(pairs[k][1]);
#if LATTICE
  const Vec2d o(vp_conc(vp_int("ox", OX)), vp_conc(vp_int("oy", OY)));
#elif ONEDIM
  const Vec2d o(vp_int("ox", OX), vp_choice("oy", 3) - 1);
#else
  const Vec2d o(2 * vp_int("ox", OX) * 0.0625 + 0.0625, 2 * vp_int("oy", OY) * 0.0625 + 0.03125);
#endif
  Pts b; for (auto& p : b0) b.push_back(Vec2d(p.x() + o.x(), p.y() + o.y()));
  const double want = Clipped(a, b, b0), aa = Shoelace(a), ab = Shoelace(b0);
  const int sa = vp_choice("start", 2), sb = 1;
  Pts ar, br; for (size_t i = 0; i < a.size(); ++i) ar.push_back(a[(i + sa) % a.size()]); for (size_t i = 0; i < b.size(); ++i) br.push_back(b[(i + sb) % b.size()]);
  const Polygon2d pa(ar), pb(br);
  const double got = pa.ComputeIntersectionArea(pb);
  vp_assert(Near(got, want), "the true area of overlap");
  vp_assert(vp_and(got >= 0, vp_and(got <= aa + 1e-9, got <= ab + 1e-9)), "between nothing and the smaller area");
  const double back = pb.ComputeIntersectionArea(pa);
  vp_assert(Near(got, back), "symmetric");
  if (want > 0.25) vp_reach("inside");
  vp_reach("end");
}
