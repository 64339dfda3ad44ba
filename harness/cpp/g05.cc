// G05: oriented boxes: every way of building one, its corners, and moving or resizing it.
#include <cmath>
#include <vector>
#include "vp.h"
#include "waymo_open_dataset/math/box2d.h"
using namespace waymo::open_dataset;
static bool Near(double a, double b) { return vp_and(a - b < 1e-9, b - a < 1e-9); }
static bool NearV(Vec2d a, Vec2d b) { return vp_and(Near(a.x(), b.x()), Near(a.y(), b.y())); }
// corner k of a box: rear left, front left, front right, rear right
static Vec2d Corner(Vec2d ctr, double c, double s, double l, double w, int k) {
  const double f = k == 1 || k == 2 ? 0.5 : -0.5, g = k < 2 ? 0.5 : -0.5;
  return Vec2d(ctr.x() + f * l * c - g * w * s, ctr.y() + f * l * s + g * w * c);
}
static bool Is(const Box2d& b, Vec2d ctr, double c, double s, double l, double w) {
  double x[4], y[4]; std::vector<Vec2d> ccw(7);
  b.GetCorners(x, y); b.GetCornersInVectorCounterClockwise(&ccw);
  vp_all ok; static const int kOrder[4] = {0, 3, 2, 1};
  ok &= ccw.size() == 4;
  for (int k = 0; k < 4; ++k) { ok &= NearV(Vec2d(x[k], y[k]), Corner(ctr, c, s, l, w, k)); ok &= NearV(ccw[k], Corner(ctr, c, s, l, w, kOrder[k])); }
  ok &= NearV(b.center(), ctr); ok &= Near(b.length(), l); ok &= Near(b.width(), w); ok &= Near(b.GetArea(), l * w);
  ok &= NearV(b.axis_start(), Vec2d(ctr.x() - l / 2 * c, ctr.y() - l / 2 * s)); ok &= NearV(b.axis_end(), Vec2d(ctr.x() + l / 2 * c, ctr.y() + l / 2 * s));
  ok &= Near(b.cos_heading(), c); ok &= Near(b.sin_heading(), s);
  const double h = b.axis_heading(); ok &= Near(std::cos(h), c); ok &= Near(std::sin(h), s);
  return ok;
}
extern "C" void vp_property() {
  static const double kT[] = {0.0, M_PI / 2, M_PI, -M_PI / 2, 0.5, 3.0, -2.5, 7.0};
  const double th = kT[MODE == 2 ? 0 : vp_choice("heading", 8)], c = std::cos(th), s = std::sin(th);
  const Vec2d ctr(vp_grid("cx", -1024, 1024, 4), vp_grid("cy", -1024, 1024, 4));
  const double w = vp_grid("w", 0, 256, 4);
  static const double kL[] = {4.5, 1.25};
  const double l = kL[MODE == 2 ? 0 : vp_choice("len", 2)];
#if MODE == 0
  const int how = vp_choice("how", 13);
  Box2d b(Vec2d(3, 4), 0.25, 9.0, 1.0); b.axis_heading(); b.length();   // a box that was something else before
  const Vec2d d(c, s);
  if (how == 0) b = Box2d(ctr, th, l, w);
  else if (how == 1) b = Box2d(ctr, d, l, w);
  else if (how == 2) b = Box2d(Vec2d(ctr.x() - l / 2 * c, ctr.y() - l / 2 * s), Vec2d(ctr.x() + l / 2 * c, ctr.y() + l / 2 * s), w);
  else if (how < 7) b = Box2d(how - 3, Corner(ctr, c, s, l, w, how - 3), th, l, w);
  else if (how == 7) b.Set(ctr, th, l, w);
  else if (how == 8) b.Set(ctr, d, l, w);
  else if (how == 9) b.Set(Vec2d(ctr.x() - l / 2 * c, ctr.y() - l / 2 * s), Vec2d(ctr.x() + l / 2 * c, ctr.y() + l / 2 * s), w);
  else if (how == 10) b.Set(2, Corner(ctr, c, s, l, w, 2), th, l, w);
  else if (how == 11) { b = Box2d(ctr, th, 2 * l, w + 1); b.SetSize(l, w); }
  else { b.SetAxis(Vec2d(ctr.x() - l / 2 * c, ctr.y() - l / 2 * s), Vec2d(ctr.x() + l / 2 * c, ctr.y() + l / 2 * s)); b.set_width(w); }
  vp_assert(Is(b, ctr, c, s, l, w), "corners, centre, axis and heading of the box");
#elif MODE == 1
  Box2d b(ctr, th, l, w);
  if (vp_choice("cached", 2)) { b.axis_heading(); b.length(); b.cos_heading(); }
  const Vec2d o(vp_grid("ox", -1024, 1024, 4), vp_grid("oy", -1024, 1024, 4));
  static const double kR[] = {0.0, M_PI / 2, 1.0, -3.0};
  const double t = kR[vp_choice("turn", 4)], ct = std::cos(t), st = std::sin(t), c2 = std::cos(th + t), s2 = std::sin(th + t);
  auto rot = [&](Vec2d o) { const double x = ctr.x() - o.x(), y = ctr.y() - o.y(); return Vec2d(ct * x - st * y + o.x(), st * x + ct * y + o.y()); };
  const Box2d copy = b;
  switch (vp_choice("move", 6)) {
    case 0: b.MoveCenter(o); vp_assert(Is(b, o, c, s, l, w), "moving to a centre"); break;
    case 1: b.ShiftCenter(o); vp_assert(Is(b, Vec2d(ctr.x() + o.x(), ctr.y() + o.y()), c, s, l, w), "shifting"); break;
    case 2: b.RotateAroundCenter(t); vp_assert(Is(b, ctr, c2, s2, l, w), "rotating around the centre"); break;
    case 3: b.RotateAroundOrigin(t); vp_assert(Is(b, rot(Vec2d(0, 0)), c2, s2, l, w), "rotating around the origin"); break;
    case 4: b.RotateAroundPoint(o, t); vp_assert(Is(b, rot(o), c2, s2, l, w), "rotating around a point"); break;
    case 5: b.SetSize(l + 1, w + 2); vp_assert(Is(b, ctr, c, s, l + 1, w + 2), "resizing keeps centre and heading"); break;
  }
  vp_assert(Is(copy, ctr, c, s, l, w), "a copy is unaffected");
#else
  // axis-aligned from opposite corners
  const double x0 = ctr.x(), y0 = ctr.y(), dx = vp_grid("dx", 1, 256, 4), dy = vp_grid("dy", 1, 256, 4);
  (void)th; (void)l;
  const Box2d b(Vec2d(x0, y0), Vec2d(x0 + dx, y0 + dy));
  double x[4], y[4]; b.GetCorners(x, y);
  double lx = x[0], hx = x[0], ly = y[0], hy = y[0];
  for (int k = 1; k < 4; ++k) { lx = vp_ite(x[k] < lx, x[k], lx); hx = vp_ite(x[k] > hx, x[k], hx); ly = vp_ite(y[k] < ly, y[k], ly); hy = vp_ite(y[k] > hy, y[k], hy); }
  vp_assert(vp_and(vp_and(Near(lx, x0), Near(hx, x0 + dx)), vp_and(Near(ly, y0), Near(hy, y0 + dy))), "the corners span the given rectangle");
  vp_assert(Near(b.length(), vp_ite(dx >= dy, dx, dy)), "the longer side is the length");
  vp_assert(Near(b.width(), vp_ite(dx >= dy, dy, dx)), "the shorter side is the width");
#endif
  vp_reach("end");
}
