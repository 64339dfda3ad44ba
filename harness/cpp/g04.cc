// G04: modulo, wrapping, angles, clamping.
#include <cmath>
#include <cstdint>
#include "vp.h"
#include "waymo_open_dataset/math/math_util.h"
using namespace waymo::open_dataset;
static bool Near(double a, double b, double e) { return vp_and(a - b < e, b - a < e); }
template <class T> static void IsMod(T x, T y, T r, double e) {
  vp_assert(vp_and(r >= 0, r < y), "the remainder is in [0, modulus)");
  const double q = (double(x) - double(r)) / double(y), k = std::floor(q + 0.5); vp_assert(Near(q, k, e), "the remainder differs by a whole number of moduli");
}
extern "C" void vp_property() {
#if MODE == 0  // any small value and any small modulus
  const int xi = vp_int("x", -512, 511), yi = vp_int("modulus", 1, 63);
  const int r = PositiveModulo<int>(xi, yi);
  vp_assert(r >= 0, "the remainder is in [0, modulus)"); vp_assert(r < yi, "the remainder is in [0, modulus)"); vp_assert((xi - r) % yi == 0, "the remainder differs by a whole number of moduli");
  if (xi < 0) vp_reach("negative");
#elif MODE == 1  // 32 and 64 bits
  const int ys[9] = {1, 2, 3, 7, 10, 360, 65536, 1073741823, 999999937}; const int yi = ys[vp_choice("modulus", 9)];
  if (vp_choice("wide", 2)) { const long y = vp_choice("huge", 2) ? long(yi) << 31 : yi, x = vp_long("x", -9223372036854775807L, 9223372036854775800L), r = PositiveModulo<long>(x, y); vp_assert(r >= 0 && r < y, "the remainder is in [0, modulus)"); vp_assert(x < 0 ? ((x + 1) + (y - 1 - r)) % y == 0 : (x - r) % y == 0, "the remainder differs by a whole number of moduli"); if (x < 0) vp_reach("negative"); }
  else { const int x = vp_int("x", -2147483647 - 1, 2147483647), r = PositiveModulo<int>(x, yi); vp_assert(r >= 0 && r < yi, "the remainder is in [0, modulus)"); vp_assert((long(x) - r) % yi == 0, "the remainder differs by a whole number of moduli"); if (x < 0) vp_reach("negative"); }
#elif MODE == 2  // angles
  const double x = vp_grid("angle", -16384, 16384, 8);
  const double r = NormalizeAngle<double>(x); vp_assert(vp_and(r >= -M_PI, r < M_PI), "a normalised angle is in [-pi, pi)");
  const double q = (x - r) / (2 * M_PI); vp_assert(Near(q, std::floor(q + 0.5), 1e-9), "a normalised angle differs by whole turns");
  if (x < -M_PI) vp_reach("negative");
#elif MODE == 3  // any range
  const double los[4] = {-180, 0, 10, -0.375}, len[4] = {360, 1, 0.75, 49}; const double lo = los[vp_choice("from", 4)], n = len[vp_choice("length", 4)], x = vp_grid("value", -8192, 8192, 5);
  const double r = WrapToRange<double>(lo, lo + n, x); vp_assert(vp_and(r >= lo, r < lo + n), "a wrapped value is in the range");
  const double q = (x - r) / n; vp_assert(Near(q, std::floor(q + 0.5), 1e-9), "a wrapped value differs by a whole number of ranges");
  if (x < lo) vp_reach("negative");
#elif MODE == 4  // exact multiples and their neighbours (evaluated)
  const int k = vp_choice("multiple", 129) - 64, off = vp_choice("beside", 3) - 1; const double ys[8] = {2 * M_PI, 49, 0.1, 3, 360, 1e-3, 7.5, 1e6}; const int yk = vp_choice("modulus", 8);
  auto at = [&](double v) { return off == 0 ? v : std::nextafter(v, off * 1e30); }; auto atf = [&](float v) { return off == 0 ? v : std::nextafterf(v, off * 1e30f); };
  const double y = ys[yk], x = at(k * y); IsMod<double>(x, y, PositiveModulo<double>(x, y), 1e-9);
  const float yf = y, xf = atf(k * yf); IsMod<float>(xf, yf, PositiveModulo<float>(xf, yf), 1e-4);
  const double a = at(k * M_PI), r = NormalizeAngle<double>(a); vp_assert(r >= -M_PI && r < M_PI, "a normalised angle is in [-pi, pi)"); const double q = (a - r) / (2 * M_PI); vp_assert(Near(q, std::floor(q + 0.5), 1e-9), "a normalised angle differs by whole turns");
  const float af = atf(k * float(M_PI)), rf = NormalizeAngle<float>(af); vp_assert(rf >= -float(M_PI) && rf < float(M_PI), "a normalised angle is in [-pi, pi)"); const double qf = (double(af) - rf) / (2 * M_PI); vp_assert(Near(qf, std::floor(qf + 0.5), 1e-4), "a normalised angle differs by whole turns");
  if (k < 0) vp_reach("negative");
#else  // clamping
  const double lo = vp_grid("lowest", -4096, 4096, 4), hi = vp_grid("highest", -4096, 4096, 4), x = vp_grid("value", -8192, 8192, 4); vp_assume(lo <= hi);
  const double r = BoundToRange<double>(lo, hi, x); vp_assert(r == vp_ite(x < lo, lo, vp_ite(x > hi, hi, x)), "the nearest point of the range");
  const int il = vp_int("from", -2147483647 - 1, 2147483647), ih = vp_int("to", -2147483647 - 1, 2147483647), v = vp_int("number", -2147483647 - 1, 2147483647); vp_assume(il <= ih);
  const int ir = BoundToRange<int>(il, ih, v); vp_assert(ir >= il && ir <= ih && (ir == v || (ir == il && v < il) || (ir == ih && v > ih)), "the nearest point of the range");
  vp_assert(Min<int>(v, il) == (v < il ? v : il) && Max<int>(v, il) == (v < il ? il : v), "minimum and maximum"); if (v < il) vp_reach("negative");
#endif
  vp_reach("end");
}
