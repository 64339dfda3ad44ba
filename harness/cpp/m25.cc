// M25: heading accuracy, speed estimation, ground truth credited for a prediction.
#include <cmath>
#include "mh.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
extern "C" void vp_property() {
#if MODE == 0
  Config config;
  config.set_matcher_type(MatcherProto::TYPE_HUNGARIAN);
  config.set_box_type(Label::Box::TYPE_3D);
  for (int i = 0; i <= Label::Type_MAX; ++i) config.add_iou_thresholds(0.5f);
  auto m = Matcher::Create(config);
  std::vector<Object> p(1, MakeObject(0, Label::TYPE_VEHICLE)), g(1, MakeObject(100, Label::TYPE_VEHICLE));
  const double a = vp_grid("a", -HRANGE * 64, HRANGE * 64, 6), b = vp_grid("b", -HRANGE * 64, HRANGE * 64, 6);
  p[0].mutable_object()->mutable_box()->set_heading(a);
  g[0].mutable_object()->mutable_box()->set_heading(b);
  m->SetPredictions(p); m->SetGroundTruths(g);
  const float h = internal::ComputeHeadingAccuracy(*m, 0, 0);
  vp_assert(h >= 0 && h <= 1, "heading accuracy lies in [0,1]");
  // distance of a-b to the nearest multiple of a full turn
  double d = a - b, best = 1e9;
  for (int k = -TURNS; k <= TURNS; ++k) { const double e = std::fabs(d - k * 2 * M_PI); best = vp_ite(e < best, e, best); }
  const double err = double(h) - (1.0 - best / M_PI);
  vp_assert(err < 1e-5 && err > -1e-5, "falls linearly with the wrapped heading error");
  std::swap(p[0], g[0]);
  m->SetPredictions(p); m->SetGroundTruths(g);
  vp_assert(std::fabs(internal::ComputeHeadingAccuracy(*m, 0, 0) - h) < 1e-5, "symmetric");
  if (h > 0.99f) vp_reach("aligned");
#elif MODE == 1
  Config config;
  config.set_matcher_type(MatcherProto::TYPE_HUNGARIAN);
  config.set_box_type(Label::Box::TYPE_3D);
  for (int i = 0; i <= Label::Type_MAX; ++i) config.add_iou_thresholds(0.5f);
  const int NG = 3;
  Table iou(2, NG);
  for (auto& x : iou.v) x = vp_gridf("iou", 0, 16, 4);
  std::vector<Object> p, g;
  for (int i = 0; i < 2; ++i) p.push_back(MakeObject(i, Label::TYPE_VEHICLE));
  for (int j = 0; j < NG; ++j) g.push_back(MakeObject(100 + j, Label::TYPE_VEHICLE));
  auto m = Matcher::Create(config);
  m->SetCustomIoUComputeFunc([&](const Label::Box& a, const Label::Box& b) -> double { return iou.at(BoxIndex(a), BoxIndex(b) - 100); });
  m->SetPredictions(p); m->SetGroundTruths(g);
  const auto P = std::vector<int>{vp_choice("order", 2) ? 1 : 0, 0}; const auto G = ChooseSubset("gts", NG);
  m->SetPredictionSubset(P); m->SetGroundTruthSubset(G);
  const double thr = vp_grid("thr", 0, 16, 4);
  const int r = internal::FindGTWithLargestIoU(*m, 0, thr);
  vp_assert(r >= -1 && r < (int)G.size(), "index into the subset");
  for (int j = 0; j < (int)G.size(); ++j) {
    if (r < 0) vp_assert(iou.at(P[0], G[j]) < thr, "none only when no ground truth reaches the threshold");
    else vp_assert(iou.at(P[0], G[j]) <= iou.at(P[0], G[r]), "the ground truth with the largest overlap");
  }
  if (r >= 0) { vp_assert(iou.at(P[0], G[r]) >= thr, "reaches the threshold"); vp_reach("aligned"); }
#else
  const int np = 1 + vp_choice("np", 2), ng = vp_choice("ng", 3), nf = 1 + vp_choice("frames", 2);
  std::vector<std::vector<Object>> p(nf), g(nf);
  auto put = [](Object* o, bool sym) {
    auto* b = o->mutable_object()->mutable_box();
    b->set_center_x(sym ? vp_int("x", -6, 6) : 0); b->set_center_y(sym ? vp_int("y", -6, 6) : 0); b->set_center_z(sym ? vp_int("z", -2, 2) : 0);
  };
  for (int f = 0; f < nf; ++f) {
    for (int i = 0; i < np; ++i) { p[f].push_back(MakeObject(i, Label::TYPE_VEHICLE, 0.5f)); put(&p[f].back(), i == 0); p[f].back().mutable_object()->set_id("p"); }
    for (int j = 0; j < ng; ++j) {
      g[f].push_back(MakeObject(j, Label::TYPE_VEHICLE)); put(&g[f].back(), f == 0);
      if (f) g[f].back().mutable_object()->mutable_box()->set_center_x(j * 3 - 2);
      g[f].back().mutable_object()->mutable_metadata()->set_speed_x(vp_grid("vx", -64, 64, 2)); g[f].back().mutable_object()->mutable_metadata()->set_speed_y(vp_grid("vy", -64, 64, 2));
    }
  }
  const auto q = internal::EstimateObjectSpeed(p, g);
  vp_assert((int)q.size() == nf, "frames");
  for (int f = 0; f < nf; ++f) {
    vp_assert(q[f].size() == p[f].size(), "one output per prediction");
    for (int i = 0; i < np; ++i) {
      const auto& m = q[f][i].object().metadata();
      auto d2 = [&](int j) { auto &a = p[f][i].object().box(), &b = g[f][j].object().box(); double x = a.center_x() - b.center_x(), y = a.center_y() - b.center_y(), z = a.center_z() - b.center_z(); return x * x + y * y + z * z; };
      int best = -1;
      for (int j = 0; j < ng; ++j) if (best < 0 || d2(j) < d2(best)) best = j;
      if (best < 0) vp_assert(m.speed_x() == 0 && m.speed_y() == 0, "no ground truth, no speed");
      else vp_assert(m.speed_x() == g[f][best].object().metadata().speed_x() && m.speed_y() == g[f][best].object().metadata().speed_y(), "speed of the nearest ground truth");
      vp_assert(q[f][i].score() == 0.5f && q[f][i].object().id() == "p" && q[f][i].object().box().center_x() == p[f][i].object().box().center_x() && m.has_speed_x() && m.has_speed_y(), "nothing else changes");
      if (best == 1) vp_reach("aligned");
    }
  }
#endif
  vp_reach("end");
}
