// G03: axis-aligned boxes against the point-set definition; box tree against brute force.
#include <algorithm>
#include <string>
#include "vp.h"
#include "waymo_open_dataset/math/aabox2d.h"
using namespace waymo::open_dataset;
using Box = AABox2d<double>;
struct B4 { double x0, y0, x1, y1; };
static B4 Ext(const Box& b) { B4 r; b.GetMin(&r.x0, &r.y0); b.GetMax(&r.x1, &r.y1); return r; }
static Box Any(const char* n) {
  std::string s = n;
  return Box(vp_grid((s + "cx").c_str(), -1024, 1024, 4), vp_grid((s + "cy").c_str(), -1024, 1024, 4),
             vp_grid((s + "hx").c_str(), 0, 512, 4), vp_grid((s + "hy").c_str(), 0, 512, 4));
}
static bool In(const B4& e, double x, double y) { return vp_and(vp_and(e.x0 <= x, x <= e.x1), vp_and(e.y0 <= y, y <= e.y1)); }
static bool Eq(const B4& a, const B4& b) { return vp_and(vp_and(a.x0 == b.x0, a.y0 == b.y0), vp_and(a.x1 == b.x1, a.y1 == b.y1)); }
static double Mx(double a, double b) { return vp_ite(a < b, b, a); }
static double Mn(double a, double b) { return vp_ite(b < a, b, a); }
extern "C" void vp_property() {
#if MODE == 0
  const Box a = Any("a"), b = Any("b");
  const B4 A = Ext(a), B = Ext(b);
  const double x = vp_grid("x", -4096, 4096, 4), y = vp_grid("y", -4096, 4096, 4);
  vp_all ok;
  ok &= vp_and(A.x0 == a.cx() - a.hx(), A.x1 == a.cx() + a.hx()); ok &= vp_and(A.y0 == a.cy() - a.hy(), A.y1 == a.cy() + a.hy());
  vp_assert(ok, "extent is centre plus or minus half offsets");
  double bx, by, bw, bh; a.GetXYWH(&bx, &by, &bw, &bh);
  vp_assert(vp_and(vp_and(bx == A.x0, by == A.y0), vp_and(bw == A.x1 - A.x0, bh == A.y1 - A.y0)), "corner and size");
  Box i; i.Init(A.x0, A.y0, A.x1, A.y1);
  vp_assert(Eq(Ext(i), A), "initialising from an extent gives that extent");
  const bool in = a.Inside(x, y), in2 = In(A, x, y);
  vp_assert(in == in2, "containment is the interval test");
  if (in) vp_reach("inside");
  const double d2 = a.DistanceSqrToPoint(x, y);
  const double dx = Mx(0, Mx(x - A.x1, A.x0 - x)), dy = Mx(0, Mx(y - A.y1, A.y0 - y));
  vp_assert(d2 == dx * dx + dy * dy, "squared distance to the nearest point of the box");
  Box t = a; const double tx = vp_grid("tx", -1024, 1024, 4), ty = vp_grid("ty", -1024, 1024, 4);
  t.Translate(tx, ty);
  const B4 T = Ext(t);
  vp_assert(vp_and(vp_and(T.x0 == A.x0 + tx, T.x1 == A.x1 + tx), vp_and(T.y0 == A.y0 + ty, T.y1 == A.y1 + ty)), "translation moves the extent");
#elif MODE == 1
  const Box a = Any("a"), b = Any("b");
  const B4 A = Ext(a), B = Ext(b);
  const double l = Mx(A.x0, B.x0), r = Mn(A.x1, B.x1), lo = Mx(A.y0, B.y0), hi = Mn(A.y1, B.y1);
  const bool common = vp_and(l <= r, lo <= hi);
  const bool ov = a.Overlap(b);
  vp_assert(ov == common, "overlap exactly when a common point exists");
  vp_assert(b.Overlap(a) == ov, "overlap is symmetric");
  vp_assert(a.Overlap(a), "a box overlaps itself");
  Box u = a; u.Union(b);
  const B4 U = Ext(u);
  vp_all ok;
  ok &= U.x0 == Mn(A.x0, B.x0); ok &= U.y0 == Mn(A.y0, B.y0); ok &= U.x1 == Mx(A.x1, B.x1); ok &= U.y1 == Mx(A.y1, B.y1);
  vp_assert(ok, "the union is the smallest box containing both");
  if (ov) vp_reach("inside");
#elif MODE == 2
  // one box symbolic in one axis only: the product stays linear in the solver
  Box a = Any("a"), b = Any("b");
  const int ax = vp_choice("axis", 2);
  double c1 = vp_int("c1", -2, 2), h1 = vp_int("h1", 0, 2), h2 = vp_int("h2", 0, 2);
  c1 = vp_conc((int)c1); h1 = vp_conc((int)h1); h2 = vp_conc((int)h2);
  if (ax) { a.set_cy(c1); a.set_hy(h1); b.set_cy(0); b.set_hy(h2); } else { a.set_cx(c1); a.set_hx(h1); b.set_cx(0); b.set_hx(h2); }
  const B4 A = Ext(a), B = Ext(b);
  const double w = Mx(0, Mn(A.x1, B.x1) - Mx(A.x0, B.x0)), h = Mx(0, Mn(A.y1, B.y1) - Mx(A.y0, B.y0));
  const double ia = a.ComputeIntersectionArea(b);
  vp_assert(ia == w * h, "intersection area is the area of the common points");
  vp_assert(b.ComputeIntersectionArea(a) == ia, "intersection area is symmetric");
  if (ia > 0) vp_reach("inside");
#else
  // tree: N boxes, N >= 5 is split; every query returns exactly the overlapping other boxes
  static const int perms[][NB] = PERMS;
  const int np = sizeof(perms) / sizeof(perms[0]);
  const int* perm = perms[vp_choice("order", np)];
  std::vector<Box> boxes(NB);
  double last = 0;
  for (int k = 0; k < NB; ++k) {
    const double c = vp_grid("key", 0, 64, 2);
    vp_assume(c >= last); last = c;
    const double s = SYMY(k) ? vp_grid("other", -16, 16, 2) : double(k % 3 - 1), h = SYMH(k) ? vp_grid("half", 0, 16, 2) : 1.0;
#ifdef YKEY
    boxes[perm[k]] = k < YKEY ? Box(k % 2, c, 1.0, h) : Box(20 + k % 2, c, 1.0, h);
    (void)s;
#else
    boxes[perm[k]] = Box(c, s, h, 1.0);
#endif
  }
  AABox2dTree<double> tree;
#ifdef REUSE
  { std::vector<Box> other(boxes.begin(), boxes.begin() + 2); for (auto& b : other) b.Translate(1, 1); tree.BuildTree(other); }
#endif
  tree.BuildTree(boxes);
  const int q = perm[vp_choice("query", NQ) * NB / NQ];
  std::vector<int> hits(1, 77);
  tree.CollectOverlaps(q, &hits);
  std::vector<int> seen(NB, 0);
  for (int h : hits) { vp_assert(h >= 0 && h < NB && h != q, "indices of other boxes"); ++seen[h]; }
  const B4 Q = Ext(boxes[q]);
  for (int k = 0; k < NB; ++k) if (k != q) {
    const B4 K = Ext(boxes[k]);
    const bool c = vp_and(vp_and(Q.x0 <= K.x1, K.x0 <= Q.x1), vp_and(Q.y0 <= K.y1, K.y0 <= Q.y1));
    vp_assert(seen[k] <= 1, "each once");
    vp_assert((seen[k] == 1) == c, "exactly the overlapping boxes");
  }
  if (!hits.empty()) vp_reach("inside");
  AABox2dTree<double> none; none.BuildTree({});
#endif
  vp_reach("end");
}
