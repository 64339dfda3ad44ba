// G07: convex polygons: containment, area, bounding box, convexity, moving.
#include <cmath>
#include <vector>
#include "vp.h"
#include "waymo_open_dataset/math/polygon2d.h"
using namespace waymo::open_dataset;
static bool Near(double a, double b) { return vp_and(a - b < 1e-9, b - a < 1e-9); }
static double Cr(Vec2d a, Vec2d b, Vec2d c) { return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()); }
static std::vector<Vec2d> Shape(int k) {
  std::vector<Vec2d> v;
  auto add = [&](double x, double y) { v.push_back(Vec2d(x, y)); };
  if (k == 0) { add(0, 0); add(5, 1); add(2, 6); }
  else if (k == 1) { add(-3, -2); add(4, -2); add(4, 3); add(-3, 3); }
  else if (k == 2) { add(0, 0); add(4, -1); add(7, 2); add(6, 5); add(1, 4); }
  else {  // many corners: lattice directions sorted by angle, both halves
    static const int d[][2] = {{5, 0}, {4, 1}, {3, 1}, {2, 1}, {3, 2}, {1, 1}, {2, 3}, {1, 2}, {1, 3}, {1, 4}, {0, 5}, {-1, 3}, {-1, 2}, {-1, 1}, {-2, 1}, {-3, 1}};
    const int n = k == 3 ? 7 : k == 4 ? 16 : 11;
    double x = 0, y = 0; for (int s = 1; s >= -1; s -= 2) for (int i = 0; i < n; ++i) { add(x, y); x += s * d[i][0]; y += s * d[i][1]; }
  }
  return v;
}
static int Sgn(double v) { return vp_itei(v > 0, 1, vp_itei(v < 0, -1, 0)); }
extern "C" void vp_property() {
#if MODE == 0
  std::vector<Vec2d> v = Shape(vp_choice("shape", 6));
  const int n = v.size(), rot = vp_choice("start", 3) * (n / 3);
  std::vector<Vec2d> w; for (int i = 0; i < n; ++i) w.push_back(v[(i + rot) % n]);
  const Vec2d q(vp_grid("qx", -160, 240, 2), vp_grid("qy", -160, 240, 2));
  const Polygon2d p(w);
  vp_assert(p.NumPoints() == n, "corners are kept");
  vp_all in; double lx = 1e9, ly = 1e9, hx = -1e9, hy = -1e9, area = 0;
  for (int i = 0; i < n; ++i) { in &= Cr(w[i], w[(i + 1) % n], q) >= 0; lx = std::min(lx, w[i].x()); hx = std::max(hx, w[i].x()); ly = std::min(ly, w[i].y()); hy = std::max(hy, w[i].y());
    area += w[i].x() * w[(i + 1) % n].y() - w[(i + 1) % n].x() * w[i].y(); }
  const bool got = p.PointInside(q);
  vp_assert(got == in, "a point is inside exactly when it is on or left of every side");
  if (got) vp_reach("inside");
  vp_assert(p.bbox_bottom_left() == Vec2d(lx, ly) && p.bbox_top_right() == Vec2d(hx, hy), "bounding box of the corners");
  vp_assert(p.Area() == area / 2, "area by the shoelace formula");
  bool ccw = false; vp_assert(Polygon2d::IsConvexHull(w, &ccw) && ccw, "convex, counter-clockwise");
  std::vector<Vec2d> r(w.rbegin(), w.rend()); vp_assert(Polygon2d::IsConvexHull(r, &ccw) && !ccw, "convex, clockwise");
  std::vector<Vec2d> dup; for (int i = 0; i < n; ++i) { dup.push_back(w[i]); if (i % 2 == 0) dup.push_back(w[i]); } dup.push_back(w[0]);
  const Polygon2d pd(dup); vp_assert(pd.NumPoints() == n && pd.points() == w, "repeated corners are dropped");
#elif MODE == 1
  // moved polygons: containment and bounding box move along
  std::vector<Vec2d> v = Shape(vp_choice("shape", 4));
  const int n = v.size();
  const Vec2d o(vp_grid("ox", -400, 400, 2), vp_grid("oy", -400, 400, 2));
  Polygon2d p(v);
  const int kind = vp_choice("kind", 3);
  if (kind == 0) p.ShiftCenter(o); else if (kind == 1) p.Transform(0.0, Vec2d(3, 1), o); else p.Transform(M_PI / 2, Vec2d(3, 1), o);
  vp_all ok; double lx = 1e9, ly = 1e9, hx = -1e9, hy = -1e9;
  for (int i = 0; i < n; ++i) {
    double x = v[i].x(), y = v[i].y();
    if (kind == 2) { const double a = x - 3, b = y - 1; x = 3 - b; y = 1 + a; }
    ok &= vp_and(Near(p.points()[i].x(), x + o.x()), Near(p.points()[i].y(), y + o.y()));
    lx = std::min(lx, x); hx = std::max(hx, x); ly = std::min(ly, y); hy = std::max(hy, y);
  }
  vp_assert(ok, "every corner moves");
  vp_assert(vp_and(vp_and(Near(p.bbox_bottom_left().x(), lx + o.x()), Near(p.bbox_bottom_left().y(), ly + o.y())), vp_and(Near(p.bbox_top_right().x(), hx + o.x()), Near(p.bbox_top_right().y(), hy + o.y()))), "the bounding box moves along");
  vp_assert(Near(p.Area(), Polygon2d(v).Area()), "the area stays");
  vp_assert(p.PointInside(Vec2d((lx + hx) / 2 + o.x(), (ly + hy) / 2 + o.y())), "the middle stays inside");
  vp_assert(!p.PointInside(Vec2d(hx + 0.5 + o.x(), hy + o.y())), "a point beside it stays outside");
  vp_reach("inside");
#elif MODE == 2
  // area of a quadrilateral with any corners: half the sum of the crossed corners
  std::vector<Vec2d> v; for (int i = 0; i < NV; ++i) v.push_back(Vec2d(vp_grid("x", -512, 512, 4), vp_grid("y", -512, 512, 4)));
  double area = 0; for (int i = 0; i < NV; ++i) area += v[i].x() * v[(i + 1) % NV].y() - v[(i + 1) % NV].x() * v[i].y();
  Polygon2d p(Shape(1)); const_cast<std::vector<Vec2d>&>(p.points()) = v;
  const double a = p.AreaNoValidityCheck();
  vp_assert(Near(a, area / 2), "area by the shoelace formula");
  vp_reach("inside");
#else
  // convexity of point sequences in general position: all triples turn the same way
  std::vector<Vec2d> v;
  const int fam = vp_choice("family", 4);
  if (fam == 0) v = {Vec2d(0, 0), Vec2d(4, 0), Vec2d(4, 4), Vec2d(0, 5)};
  if (fam == 1) v = {Vec2d(0, 0), Vec2d(4, 0), Vec2d(5, 3), Vec2d(2, 6), Vec2d(-1, 3)};
  if (fam == 2) v = {Vec2d(0, 0), Vec2d(5, 3), Vec2d(-1, 3), Vec2d(4, 0), Vec2d(2, 6)};   // a five-pointed star turns the same way everywhere
  if (fam == 3) v = {Vec2d(0, 0), Vec2d(-1, 3), Vec2d(2, 6), Vec2d(5, 3), Vec2d(4, 0), Vec2d(2, -1)};
  const int n = v.size(), at = vp_choice("moved", n);
  v[at] = Vec2d(vp_int("x", -16, 16), vp_int("y", -16, 16));
  vp_all pos, neg;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) {
    const double c = Cr(v[i], v[j], v[k]); vp_assume(c != 0); pos &= c > 0; neg &= c < 0; }
  bool ccw = false;
  const bool got = Polygon2d::IsConvexHull(v, &ccw);
  vp_assert(got == vp_or(pos, neg), "convex exactly when all triples of corners turn the same way");
  if (got) { vp_assert(ccw == pos, "orientation"); vp_reach("inside"); }
  vp_assert(Polygon2d::IsConvexHull(v) == got, "the orientation output is optional");
#endif
  vp_reach("end");
}
