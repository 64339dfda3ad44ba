// M16: longitudinal-error-tolerant affinity, alignment, overlap and matching.
#include <cmath>
#include "mh.h"
typedef Config::LongitudinalErrorTolerantConfig Let;
typedef Label::Box Box;
static Box Make(double x, double y, double z, double l, double w, double h, double t) {
  Box b; b.set_center_x(x); b.set_center_y(y); b.set_center_z(z); b.set_length(l); b.set_width(w); b.set_height(h); b.set_heading(t); return b;
}
static double Abs(double v) { return vp_ite(v < 0, 0 - v, v); }
static const double TOL = 1e-6;
extern "C" void vp_property() {
#if MODE == 0
  // longitudinal affinity: one box symbolic, the other, the sensor and the tolerance from lists
  static const double sensors[][3] = {{0, 0, 0}, {1.5, -0.5, 2}};
  static const double tols[][2] = {{0.25, 0.5}, {0.125, 3}, {0, 2}};
  static const double fixed[][3] = {{20, 0, 0}, {12, -9, 8}, {-0.5, 2, 0.25}};
  const int si = vp_choice("sensor", 2), ti = vp_choice("tolerance", 3), fi = vp_choice("fixed", NFIXED);
  const double* S = sensors[si]; const double* F = fixed[fi];
  Let c; c.mutable_sensor_location()->set_x(S[0]); c.mutable_sensor_location()->set_y(S[1]); c.mutable_sensor_location()->set_z(S[2]);
  c.set_longitudinal_tolerance_percentage(tols[ti][0]); c.set_min_longitudinal_tolerance_meter(tols[ti][1]);
#if SYMGT
  // both on a ray from the sensor, the ground truth at a symbolic range; the prediction off the ray
  const double r = vp_grid("range", 1, 400, 3), off = vp_grid("off", -64, 64, 3), px = vp_grid("px", -64, 512, 3);
  static const double dirs[][3] = {{1, 0, 0}, {0, 3, 4}};
  const int d = vp_choice("dir", 2);
  const Box gt = Make(S[0] + dirs[d][0] * r, S[1] + dirs[d][1] * r, S[2] + dirs[d][2] * r, 4, 2, 2, 0);
  // prediction = sensor + px * dir + off * (a direction across)
  const double ax[2][3] = {{0, 1, 0}, {1, 0, 0}};
  const Box pd = Make(S[0] + dirs[d][0] * px + ax[d][0] * off, S[1] + dirs[d][1] * px + ax[d][1] * off, S[2] + dirs[d][2] * px + ax[d][2] * off, 4, 2, 2, 0);
  const double unit = d ? 5 : 1, along = px * unit, range = r * unit;
#else
  const double x = vp_grid("x", -256, 512, 3), y = vp_grid("y", -256, 256, 3), z = vp_grid("z", -64, 64, 3);
  vp_assume(vp_not(vp_and(vp_and(x == 0, y == 0), z == 0)));
  const Box gt = Make(S[0] + F[0], S[1] + F[1], S[2] + F[2], 4, 2, 2, 0), pd = Make(S[0] + x, S[1] + y, S[2] + z, 4, 2, 2, 0);
  const double range = std::sqrt(F[0] * F[0] + F[1] * F[1] + F[2] * F[2]), along = (x * F[0] + y * F[1] + z * F[2]) / range;
#endif
  const double a = ComputeLongitudinalAffinity(pd, gt, c);
  const double pct = tols[ti][0] * range, tol = vp_ite(pct > tols[ti][1], pct, tols[ti][1]);
  const double err = Abs(along - range);
  vp_assert(vp_and(a >= 0, a <= 1), "lies in [0,1]");
  vp_assert(vp_or(err >= tol, Abs(a * tol - (tol - err)) < TOL), "decreases linearly within the tolerance");
  vp_assert(vp_or(err < tol, a < TOL), "zero from the tolerance on");
  if (a > 0.5) vp_reach("inside");
#elif MODE == 1
  // alignment: what moves and where to
  static const double ps[][3] = {{8, 0, 0}, {4, -2, 4}, {0.5, 0.25, -1}};
  const Let::AlignType type = (Let::AlignType)(1 + vp_choice("type", 6));
#if SYMPD
  static const double rays[][3] = {{1, 0, 0}, {2, -1, 2}};
  static const double gts[][3] = {{20, 0, 0}, {12, -9, 8}};
  const double* R = rays[vp_choice("ray", 2)]; const double* T = gts[vp_choice("gt", 2)];
  const double k = vp_grid("k", 8, 256, 3);
  const double P[3] = {R[0] * k, R[1] * k, R[2] * k}, G[3] = {T[0], T[1], T[2]};
#else
  const double* Q = ps[vp_choice("pd", 3)];
  const double P[3] = {Q[0], Q[1], Q[2]}, G[3] = {vp_grid("x", -256, 512, 3), vp_grid("y", -256, 256, 3), vp_grid("z", -64, 64, 3)};
#endif
  const Box pd = Make(P[0], P[1], P[2], 4, 2, 1.5, 0.75), gt = Make(G[0], G[1], G[2], 5, 3, 2, -2);
  const Box r = AlignedPredictionBox(pd, gt, type);
  vp_assert(vp_and(vp_and(r.length() == 4, r.width() == 2), vp_and(r.height() == 1.5, r.heading() == 0.75)), "sizes and heading kept");
  const double C[3] = {r.center_x(), r.center_y(), r.center_z()};
  auto at = [&](const double* v) { return vp_and(vp_and(Abs(C[0] - v[0]) < TOL, Abs(C[1] - v[1]) < TOL), Abs(C[2] - v[2]) < TOL); };
  const double dot = P[0] * G[0] + P[1] * G[1] + P[2] * G[2], pp = P[0] * P[0] + P[1] * P[1] + P[2] * P[2];
  const bool beyond = vp_and(dot >= 0, dot < pp);  // the prediction lies beyond the nearest point of its line of sight
  const bool closer = dot > pp;                     // between the origin and that point
  // the nearest point of the line of sight: nothing left along it
  const bool across = Abs((G[0] - C[0]) * P[0] + (G[1] - C[1]) * P[1] + (G[2] - C[2]) * P[2]) < TOL * 1000;
  const bool onray = vp_and(vp_and(Abs(C[0] * P[1] - C[1] * P[0]) < TOL * 1000, Abs(C[1] * P[2] - C[2] * P[1]) < TOL * 1000), Abs(C[0] * P[2] - C[2] * P[0]) < TOL * 1000);
  const bool near = vp_and(across, onray), stays = at(P);
  auto iff = [](bool c, bool a, bool b) { return vp_or(vp_and(c, a), vp_and(vp_not(c), b)); };
  if (type == Let::TYPE_NOT_ALIGNED) vp_assert(stays, "not aligned: nothing moves");
  if (type == Let::TYPE_CENTER_ALIGNED) vp_assert(at(G), "center aligned: moved to the ground truth");
  if (type == Let::TYPE_RANGE_ALIGNED) vp_assert(near, "range aligned: nearest point of the line of sight");
  if (type == Let::TYPE_FURTHER_ONLY_RANGE_ALIGNED) vp_assert(iff(beyond, near, stays), "further only: moves back exactly when beyond");
  if (type == Let::TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED) vp_assert(iff(beyond, stays, near), "any closer: moves exactly when not beyond");
  if (type == Let::TYPE_BETWEEN_ORIGIN_AND_GT_ONLY_RANGE_ALIGNED) vp_assert(iff(closer, near, stays), "between: moves exactly when closer than the ground truth");
  if (closer) vp_reach("inside");
#elif MODE == 2
  // tolerant overlap: plain overlap of the aligned box in the sensor's frame, also through the function objects
  const double X = vp_grid("x", 80, 200, 3), sx = vp_grid("sx", -16, 16, 3);
  const Let::AlignType type = (Let::AlignType)(1 + vp_choice("type", 6));
  const Box::Type bt = vp_choice("box", 2) ? Box::TYPE_2D : Box::TYPE_3D;
  const double h = vp_choice("heading", 2) ? 0.3 : 0;
  Let c; c.mutable_sensor_location()->set_x(sx); c.mutable_sensor_location()->set_y(0.5); c.mutable_sensor_location()->set_z(-1);
  c.set_longitudinal_tolerance_percentage(0.25); c.set_min_longitudinal_tolerance_meter(0.5); c.set_align_type(type); c.set_enabled(true);
  // placed on one line of sight (y = 0.5, z = -1), 300 m out so that the overlap is exact
  const Box pd = Make(sx + 300 + X, 0.5, -1, 4, 2, 1.5, h), gt = Make(sx + 320, 0.5, -1, 4, 2, 2, 0);
  const Box pd0 = Make(300 + X, 0, 0, 4, 2, 1.5, h), gt0 = Make(320, 0, 0, 4, 2, 2, 0);
  const double iou = ComputeLetIoU(pd, gt, c.sensor_location(), type, bt), want = ComputeIoU(AlignedPredictionBox(pd0, gt0, type), gt0, bt);
  const double aff = ComputeLongitudinalAffinity(pd, gt, c);
  ComputeIoUFunc f; ComputeLongitudinalAffinityFunc g;
  { Let d = c; f = GetComputeLetIoUFunc(d.sensor_location(), d.align_type(), bt); g = GetComputeLongitudinalAffinityFunc(d);
    d.mutable_sensor_location()->set_x(1000); d.mutable_sensor_location()->set_y(-70); d.set_longitudinal_tolerance_percentage(0.01); d.set_min_longitudinal_tolerance_meter(9); d.set_align_type(Let::TYPE_UNKNOWN); }
  vp_assert(vp_and(iou >= 0, iou <= 1), "lies in [0,1]");
  vp_assert(Abs(iou - want) < TOL, "overlap of the aligned box in the frame of the sensor");
  vp_assert(f(pd, gt) == iou, "the overlap function keeps its own configuration");
  vp_assert(g(pd, gt) == aff, "the affinity function keeps its own configuration");
  if (iou > 0.25) vp_reach("inside");
#else
  // matching: never without affinity, never below the threshold, and the best total of discounted overlaps
  const int kind = vp_choice("kind", 2);
  Table iou(2, NG), aff(2, NG);
  for (auto& x : iou.v) x = vp_gridf("iou", 0, 16, 4);
  static const float as[] = {0, 0.5, 1};
  for (auto& x : aff.v) x = as[vp_choice("aff", 3)];
  std::vector<float> thr(Label::Type_MAX + 1, 0.f); thr[Label::TYPE_VEHICLE] = vp_gridf("thr", 0, 16, 4);
  std::vector<Object> pds, gts;
  for (int i = 0; i < 2; ++i) pds.push_back(MakeObject(i, Label::TYPE_VEHICLE, i ? 0.5f : 0.75f));
  const int other = vp_choice("other", 2);
  for (int i = 0; i < NG; ++i) gts.push_back(MakeObject(100 + i, i == 0 && other ? Label::TYPE_PEDESTRIAN : Label::TYPE_VEHICLE));
  Config cfg; cfg.set_matcher_type(kind ? MatcherProto::TYPE_SCORE_FIRST : MatcherProto::TYPE_HUNGARIAN); cfg.set_box_type(Box::TYPE_3D);
  for (float t : thr) cfg.add_iou_thresholds(t);
  cfg.mutable_let_metric_config()->set_enabled(true); cfg.mutable_let_metric_config()->set_align_type(Let::TYPE_RANGE_ALIGNED);
  std::unique_ptr<Matcher> m = Matcher::Create(cfg);
  m->SetCustomIoUComputeFunc([&](const Box& a, const Box& b) -> double { return iou.at(BoxIndex(a), BoxIndex(b) - 100); });
  m->SetCustomLongitudinalAffinityFunc([&](const Box& a, const Box& b) -> double { return aff.at(BoxIndex(a), BoxIndex(b) - 100); });
  m->SetPredictions(pds); m->SetGroundTruths(gts); m->SetPredictionSubset({0, 1}); std::vector<int> gs(NG); std::iota(gs.begin(), gs.end(), 0); m->SetGroundTruthSubset(gs);
  std::vector<int> pm, gm; m->Match(&pm, &gm);
  auto adm = [&](int i, int j) { return aff.at(i, j) != 0 && !(j == 0 && other) && iou.at(i, j) >= thr[Label::TYPE_VEHICLE]; };
  auto weight = [&](int i, int j) { return (double)iou.at(i, j) * aff.at(i, j); };
  double total = 0;
  for (int i = 0; i < 2; ++i) if (pm[i] >= 0) {
    vp_assert(gm[pm[i]] == i, "mutual");
    vp_assert(aff.at(i, pm[i]) != 0 && !(pm[i] == 0 && other), "never a pair without affinity");
    vp_assert(iou.at(i, pm[i]) >= thr[Label::TYPE_VEHICLE], "reaches the threshold");
    total += weight(i, pm[i]); vp_reach("inside");
  }
  if (kind == 0) {
    vp_all best;
    for (int a = -1; a < NG; ++a) for (int b = -1; b < NG; ++b) {
      if (a >= 0 && a == b) continue;
      const bool ok = vp_and(a < 0 ? true : adm(0, a), b < 0 ? true : adm(1, b));
      const double sum = (a < 0 ? 0 : weight(0, a)) + (b < 0 ? 0 : weight(1, b));
      best &= vp_or(vp_not(ok), sum <= total + 1e-5);
    }
    vp_assert(best, "no admissible matching with more discounted overlap");
  } else {
    // the prediction with the higher score comes first
    double top = -1; for (int j = 0; j < NG; ++j) top = vp_ite(vp_and(adm(0, j), weight(0, j) > top), weight(0, j), top);
    vp_assert(pm[0] < 0 ? top < 0 : Abs(weight(0, pm[0]) - top) < 1e-5, "the first prediction takes its best discounted overlap");
  }
#endif
  vp_reach("end");
}
