// M22: classification of ground truth trajectories.
#include "mo.h"
namespace { const double PI = 3.141592653589793;
struct Hd { double h, c, s; }; const Hd HD[5] = {{0, 1, 0}, {1.5707963267948966, 0, 1}, {-3.0, -0.9899924966004454, -0.1411200080598672}, {0.6435011087932844, 0.8, 0.6}, {8.0, -0.14550003380861354, 0.9893582466233818}}; }
extern "C" void vp_property() {
  const int N = 5, cur = MODE == 1 ? 1 : vp_choice("current", 3);
  Track t; t.set_id(1); t.set_object_type(Track::TYPE_VEHICLE);
  const Hd hd = HD[vp_choice("heading", NHEAD)];
  const double x0[2] = {0, -120.5}, y0[2] = {0, 33.25}; const int pl = MODE == 1 ? 1 : vp_choice("origin", 2);
  std::vector<bool> ok(N);
  for (int i = 0; i < N; ++i) { auto* s = t.add_states(); ok[i] = MODE == 1 && i < 4 ? i != 2 : vp_choice("valid", 2); s->set_valid(ok[i]); s->set_center_x(1000 + 50 * i); s->set_center_y(-700); s->set_heading(1.1); s->set_velocity_x(30); s->set_velocity_y(3); }
  int last = -1; for (int i = cur + 1; i < N; ++i) if (ok[i]) last = i;
  if (!ok[cur] || last < 0) { vp_assert(!ClassifyTrack(cur, t).has_value(), "no valid state now or later: no type"); vp_reach("none"); vp_reach("end"); return; }
  auto* a = t.mutable_states(cur); auto* b = t.mutable_states(last);
  a->set_center_x(x0[pl]); a->set_center_y(y0[pl]); a->set_heading(hd.h);
#if MODE == 0  // the displacement varies, the heading change and speeds are fixed
  const double du = vp_grid("ahead", -160, 400, 3) + 0.03125, dv = vp_grid("aside", -200, 200, 3) + 0.03125;  // never exactly sideways or straight ahead
  const double dhs[6] = {0, 0.5, -0.5, 0.55, -1.6, 3.0}; const double dh = dhs[vp_choice("turn", 6)];
  const double sp = 5, se = 1;
#elif MODE == 1  // the heading change varies
  const double dus[3] = {10, -6, 2}, dvs[4] = {0.5, -0.5, 4, -4}; const double du = dus[vp_choice("ahead", 3)], dv = dvs[vp_choice("aside", 4)];
  const double dh = vp_grid("turn", -448, 448, 6); const double sp = 5, se = 1;
#else  // the speeds and the distance vary (stationary or not)
  const double sp = vp_grid("speed", 0, 96, 4), se = vp_grid("endspeed", 0, 96, 4), du = vp_grid("ahead", -96, 96, 4), dv = 0, dh = 0;
#endif
  a->set_velocity_x(3 * sp / 5); a->set_velocity_y(-4 * sp / 5); b->set_velocity_x(0); b->set_velocity_y(-se);
  b->set_center_x(x0[pl] + hd.c * du - hd.s * dv); b->set_center_y(y0[pl] + hd.s * du + hd.c * dv); b->set_heading(hd.h + dh);
  const auto r = ClassifyTrack(cur, t);
  vp_assert(r.has_value(), "a valid state now and later: exactly one type");
  const int got = *r; const double e = 1e-3;
  // heading change in [-pi, pi]
  const double d0 = vp_ite(dh > PI, dh - 2 * PI, vp_ite(dh < 0 - PI, dh + 2 * PI, dh)), d = vp_ite(d0 > PI, d0 - 2 * PI, vp_ite(d0 < 0 - PI, d0 + 2 * PI, d0));
  auto impl = [](bool p, bool q) { return vp_or(vp_not(p), q); };
  const double top = vp_ite(sp < se, se, sp), D2 = du * du + dv * dv;
#if MODE == 2
  const bool still = vp_and(top < 2 - e, Abs(du) < 3 - e), moving = vp_or(top > 2 + e, Abs(du) > 3 + e);
#else
  const bool still = false, moving = true;
#endif
  const bool keep = Abs(d) < PI / 6 - e, turn = Abs(d) > PI / 6 + e, in = Abs(dv) < 2.5 - e, out = Abs(dv) > 2.5 + e, left = dv > e, right = dv < 0 - e, fwd = du > e, back = du < 0 - e;
  vp_assert(impl(still, got == TrajectoryType::STATIONARY), "slow and close: stationary");
  vp_assert(impl(moving, got != TrajectoryType::STATIONARY), "fast or far: not stationary");
  vp_assert(impl(vp_and(moving, vp_and(keep, in)), got == TrajectoryType::STRAIGHT), "straight");
  vp_assert(impl(vp_and(moving, vp_and(keep, vp_and(out, left))), got == TrajectoryType::STRAIGHT_LEFT), "straight left");
  vp_assert(impl(vp_and(moving, vp_and(keep, vp_and(out, right))), got == TrajectoryType::STRAIGHT_RIGHT), "straight right");
  vp_assert(impl(vp_and(moving, vp_and(turn, vp_and(left, fwd))), got == TrajectoryType::LEFT_TURN), "left turn");
  vp_assert(impl(vp_and(moving, vp_and(turn, vp_and(left, back))), got == TrajectoryType::LEFT_U_TURN), "left U-turn");
  vp_assert(impl(vp_and(moving, vp_and(turn, vp_and(right, fwd))), got == TrajectoryType::RIGHT_TURN), "right turn");
  vp_assert(impl(vp_and(moving, vp_and(turn, vp_and(right, back))), got == TrajectoryType::RIGHT_U_TURN), "right U-turn");
  if (got >= TrajectoryType::RIGHT_TURN) vp_reach("turn"); if (got == TrajectoryType::STATIONARY) vp_reach("still");
  vp_reach("end"); vp_reach("inside");
}
