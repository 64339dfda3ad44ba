// G02: segment predicates and distances against exact definitions on an integer grid.
#include <cmath>
#include <string>
#include "vp.h"
#include "waymo_open_dataset/math/segment2d.h"
using namespace waymo::open_dataset;
#ifndef R
#define R 3
#endif
static int Sgn(double v) { return vp_itei(v > 0, 1, vp_itei(v < 0, -1, 0)); }
struct P { int x, y; long by_memory[2]; };  // too large for registers: fields stay separate scalars
static int Cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int Mi(int a, int b) { return vp_itei(a < b, a, b); }
static int Ma(int a, int b) { return vp_itei(a < b, b, a); }
static P Pt(const char* n, int lo, int hi) { std::string s = n; return P{vp_int((s + "x").c_str(), lo, hi), vp_int((s + "y").c_str(), lo, hi)}; }
static bool Near(double a, double b) { return vp_and(a - b < 1e-9, b - a < 1e-9); }
static bool NearV(Vec2d a, Vec2d b) { return vp_and(Near(a.x(), b.x()), Near(a.y(), b.y())); }
static Vec2d V(P p) { return Vec2d(p.x, p.y); }
extern "C" void vp_property() {
#if MODE == 0
  static const P kEnd[] = {{3, 0}, {2, 2}, {2, 1}, {0, 0}, {-1, 3}};
  const P e = kEnd[vp_choice("first", 5)];
  const P a{1, -2}, b{a.x + e.x, a.y + e.y};
#if VP_THOROUGH
  P c = Pt("c", -R, R);
  c.x = vp_conc(c.x); c.y = vp_conc(c.y);
#else
  static const P kC[] = {{0, 0}, {1, 0}, {2, 1}, {-1, 1}, {-2, -2}, {1, 3}};
  P c = kC[vp_choice("c", 6)];
#endif
  P d = Pt("d", -8, 8);
  c.x = c.x + a.x; c.y = c.y + a.y; d.x = d.x + a.x; d.y = d.y + a.y;
  const Segment2d s(V(a), V(b)), t(V(c), V(d));
  Vec2d pt(-99, -99);
  const int o1 = Cross(a, b, c), o2 = Cross(a, b, d), o3 = Cross(c, d, a), o4 = Cross(c, d, b), den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
  const bool straddle = vp_and(vp_not(vp_or(vp_and(o1 > 0, o2 > 0), vp_and(o1 < 0, o2 < 0))), vp_not(vp_or(vp_and(o3 > 0, o4 > 0), vp_and(o3 < 0, o4 < 0))));
  const bool bb = vp_and(vp_and(Mi(a.x, b.x) <= Ma(c.x, d.x), Mi(c.x, d.x) <= Ma(a.x, b.x)), vp_and(Mi(a.y, b.y) <= Ma(c.y, d.y), Mi(c.y, d.y) <= Ma(a.y, b.y)));
  const bool cross = vp_and(den != 0, straddle), meet = vp_and(straddle, bb);
  const int call = vp_choice("call", 5);
  switch (call) {
    case 0: {
      const bool i1 = s.Intersect(t, &pt);
      vp_assert(i1 == cross, "crossing segments that are not parallel intersect, others do not");
      if (i1) {
        // pt = a + (b-a) u with u = cross/den
        const double u = double((c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x)) / den;
        vp_assert(NearV(pt, Vec2d(a.x + e.x * u, a.y + e.y * u)), "the reported point is the crossing point");
        vp_reach("inside");
      }
      break; }
    case 1: vp_assert(s.IntersectOrCoincide(t) == meet, "segments intersect or coincide exactly when they share a point"); break;
    case 2: vp_assert(t.Intersect(s) == cross, "intersection is symmetric"); break;
    case 3: vp_assert(t.IntersectOrCoincide(s) == meet, "coincidence is symmetric"); break;
    case 4: vp_assert(s.Flip().Intersect(t.Flip()) == cross, "independent of the direction of the segments"); break;
  }
#elif MODE == 3
  // the quick test compares the bounding boxes of the segments
  P c{0, 0}, d{2, 1}, a, b;
  a.x = vp_int("ax", -4, 4); b.x = vp_int("bx", -4, 4); a.y = 0; b.y = 1;
  const int k = vp_choice("dir", 4);
  c.y = vp_int("cy", -4, 4); d.y = c.y + (k & 1 ? 2 : -2);
  if (k & 2) { std::swap(a.x, a.y); std::swap(b.x, b.y); std::swap(c.x, c.y); std::swap(d.x, d.y); }
  const bool bb = vp_and(vp_and(Mi(a.x, b.x) <= Ma(c.x, d.x), Mi(c.x, d.x) <= Ma(a.x, b.x)), vp_and(Mi(a.y, b.y) <= Ma(c.y, d.y), Mi(c.y, d.y) <= Ma(a.y, b.y)));
  vp_assert(Segment2d(V(a), V(b)).MightIntersect(Segment2d(V(c), V(d))) == bb, "the quick test compares bounding boxes");
  vp_assert(Segment2d(V(c), V(d)).MightIntersect(Segment2d(V(a), V(b))) == bb, "the quick test is symmetric");
  vp_reach("inside");
#elif MODE == 1
  static const P kEnd[] = {{3, 0}, {2, 2}, {2, 1}, {0, 0}, {-1, 3}, {0, -4}};
  const P e = kEnd[vp_choice("first", 6)], a{5, -3}, b{a.x + e.x, a.y + e.y};
  P q = Pt("q", -16, 16);
  const Segment2d s(V(a), V(b)), f = s.Flip();
  const double d2 = s.DistanceSqrToPoint(V(q));
  const int len2 = e.x * e.x + e.y * e.y, dot = (q.x - a.x) * e.x + (q.y - a.y) * e.y, cr = Cross(a, b, q);
  const int da = (q.x - a.x) * (q.x - a.x) + (q.y - a.y) * (q.y - a.y), db = (q.x - b.x) * (q.x - b.x) + (q.y - b.y) * (q.y - b.y);
  const double want = len2 == 0 ? da : vp_ite(dot < 0, da, vp_ite(dot > len2, db, double(cr * cr) / (len2 ? len2 : 1)));
  vp_assert(Near(d2, want), "squared distance to the nearest point of the segment");
  vp_assert(Near(f.DistanceSqrToPoint(V(q)), d2), "distance does not depend on direction");
  if (cr == 0) vp_reach("inside");
  double perp = 0;
  const auto side = s.SideOfPoint(V(q), len2 ? &perp : nullptr);
  const int sg = vp_itei(side == Segment2d::ON_LEFT_SIDE, 1, vp_itei(side == Segment2d::ON_RIGHT_SIDE, -1, 0));
  vp_assert(sg == Sgn(cr), "left, right or on the line");
  if (len2) vp_assert(Near(perp * std::sqrt((double)len2), -cr), "signed perpendicular distance is positive on the right");
  vp_assert(V(q).IsLeftOfLine(V(a), V(b)) == (cr > 0), "left of the directed line");
  vp_assert(NearV(s.center(), Vec2d((a.x + b.x) / 2.0, (a.y + b.y) / 2.0)), "centre");
  vp_assert(Near(s.length() * s.length(), len2), "length");
  vp_assert(Near(s.Sqr(), len2), "squared length, once the length is known");
  const Segment2d m = s.MoveCenter(V(q));
  vp_assert(NearV(m.center(), V(q)) && NearV(m.end() - m.start(), V(e)), "moving the centre keeps the vector");
  const Segment2d h = s.ShiftCenter(V(q));
  vp_assert(NearV(h.start(), V(a) + V(q)) && NearV(h.end(), V(b) + V(q)), "shifting moves both ends");
  vp_assert(NearV(f.start(), V(b)) && NearV(f.end(), V(a)), "flipping swaps the ends");
#elif MODE == 2
  // heading, rotation and sampling
  static const P kEnd[] = {{3, 4}, {0, 2}, {-5, 12}, {-2, 0}, {4, -3}, {-8, -6}};
  const P e = kEnd[vp_choice("first", 6)], a = Pt("a", -64, 64), b{a.x + e.x, a.y + e.y}, q = Pt("q", -64, 64);
  Segment2d s(V(a), V(b));
  const double len = std::sqrt((double)e.x * e.x + e.y * e.y);
  const bool cached = vp_choice("cached", 2);
  if (cached) { s.heading(); s.length(); s.inv_length(); }
  static const double kT[] = {0.0, M_PI / 2, M_PI, -M_PI / 2, 0.5, 3.0};
  const double th = kT[vp_choice("theta", 6)], c = std::cos(th), sn = std::sin(th);
  auto dir = [&](const Segment2d& g) {
    const Vec2d v = g.end() - g.start();
    bool ok = vp_and(Near(g.length() * g.cos_heading(), v.x()), Near(g.length() * g.sin_heading(), v.y()));
    ok = vp_and(ok, vp_and(Near(g.length() * std::cos(g.heading()), v.x()), Near(g.length() * std::sin(g.heading()), v.y())));
    double ch, sh; g.trig_heading(&ch, &sh);
    ok = vp_and(ok, vp_and(Near(g.length() * ch, v.x()), Near(g.length() * sh, v.y())));
    return vp_and(ok, vp_and(NearV(g.Tangent() * g.length(), v), NearV(g.PerpUnit() * g.length(), v.Perp())));
  };
  vp_assert(dir(s), "heading, tangent and normal point along the segment");
  vp_assert(dir(s.Flip()), "heading after flipping");
  vp_assert(dir(s.ShiftCenter(V(q))), "heading after shifting");
  auto rot = [&](P o, Vec2d p) { const Vec2d v = p - V(o); return Vec2d(c * v.x() - sn * v.y() + o.x, sn * v.x() + c * v.y() + o.y); };
  const Segment2d r = s.RotateAroundPoint(V(q), th);
  vp_assert(NearV(r.start(), rot(q, V(a))) && NearV(r.end(), rot(q, V(b))), "rotating around a point");
  vp_assert(dir(r), "heading after rotating");
  vp_assert(std::fabs(r.heading()) < M_PI + 1e-9, "the heading stays within half a turn");
  const Segment2d r0 = s.RotateAroundOrigin(th);
  vp_assert(NearV(r0.start(), rot(P{0, 0}, V(a))) && NearV(r0.end(), rot(P{0, 0}, V(b))), "rotating around the origin");
  vp_assert(dir(r0) && std::fabs(r0.heading()) < M_PI + 1e-9, "heading after rotating around the origin");
  const Segment2d rc = s.RotateAroundCenter(th);
  vp_assert(NearV(rc.center(), s.center()), "rotating around the centre keeps the centre");
  Segment2d copy; copy = r; vp_assert(dir(copy) && NearV(copy.start(), r.start()), "copying");
  const double k = vp_grid("dist", 0, 64, 2);
  Vec2d p;
  const bool before = s.Sample(k, &p);
  vp_assert(before == (k < len), "a sample is reported past the end exactly when it is");
  vp_assert(NearV(p, Vec2d(a.x + e.x * (k / len), a.y + e.y * (k / len))), "a sample lies at its distance along the line");
  const double step = 0.5 + 0.75 * vp_choice("step", 4);
  const auto pts = Segment2d::SamplePoints(V(a), V(b), step);
  const int n = (int)std::ceil(len / step - 1e-9);
  double sum = 0; for (int i = 0; i < n; ++i) sum += step / len;  // rounding may add a sample at the very end
  vp_assert((int)pts.size() == n || ((int)pts.size() == n + 1 && std::fabs(n * step - len) < 1e-9 && sum < 1), "number of samples");
  for (int i = 0; i < (int)pts.size(); ++i) vp_assert(NearV(pts[i], Vec2d(a.x + e.x * (i * step / len), a.y + e.y * (i * step / len))), "samples start at the first end, evenly spaced");
  const Segment2d z(V(a), 0.25, 0.0);
  vp_assert(Near(z.heading(), 0.25) && Near(z.length(), 0) && NearV(z.Tangent(), Vec2d(0, 0)), "an empty segment keeps its given heading");
  double zc, zs; z.trig_heading(&zc, &zs);
  vp_assert(Near(zc, std::cos(0.25)) && Near(zs, std::sin(0.25)) && Near(z.cos_heading(), zc) && Near(z.sin_heading(), zs), "direction of an empty segment");
  vp_assert(Near(z.Flip().heading(), 0.25 - M_PI) || Near(z.Flip().heading(), 0.25 + M_PI), "flipping an empty segment turns its heading");
  vp_reach("inside");
#endif
  vp_reach("end");
}
