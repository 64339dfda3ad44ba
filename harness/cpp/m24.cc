// M24: confidences and conversion of challenge submissions.
#include "mo.h"
extern "C" void vp_property() {
#if MODE == 0
  MultimodalPrediction p; const int n = vp_choice("n", 5);
  std::vector<float> c(n); float sum = 0; const float unit = vp_choice("tiny", 2) ? 1.0f / 65536 : 1;
  for (int i = 0; i < n; ++i) { c[i] = vp_gridf("confidence", 0, 1024, 5) * unit; p.add_joint_predictions()->set_confidence(c[i]); if (vp_choice("objects", 2)) p.mutable_joint_predictions(i)->add_trajectories(); sum = sum + c[i]; }
  const std::vector<float> r = GetNormalizedConfidences(p);
  vp_assert((int)r.size() == n, "one confidence per prediction");
  double total = 0; vp_all ok, order, ratio;
  for (int i = 0; i < n; ++i) { total = total + r[i]; ok &= r[i] >= 0; for (int j = 0; j < n; ++j) { order &= vp_or(vp_not(c[i] < c[j]), r[i] < r[j]); order &= vp_or(vp_not(c[i] == c[j]), r[i] == r[j]); } ratio &= vp_or(sum == 0, Abs(r[i] * (double)sum - c[i]) <= 1e-5 * (double)sum); ratio &= vp_or(sum > 0, Abs(r[i] * n - 1) < 1e-6); }
  vp_assert(ok, "not negative"); vp_assert(n == 0 || Abs(total - 1) < 1e-5, "sums to one"); vp_assert(order, "keeps the order"); vp_assert(ratio, "proportional, or uniform when all are zero");
#else
  ChallengeScenarioPredictions in; in.set_scenario_id("abc"); ScenarioPredictions out;
  const int kind = vp_choice("kind", 3);  // nothing, single, joint
  struct Tr { int id; std::vector<float> x, y; }; struct J { float c; std::vector<Tr> t; }; std::vector<std::vector<J>> want; bool good = kind != 0; bool bad = false;
  auto fill = [&](Trajectory* t, Tr* w) {
    const int n = vp_choice("length", 4), m = vp_choice("uneven", 2) ? n : n + 1;
    for (int i = 0; i < n; ++i) { w->x.push_back(vp_gridf("x", -32768, 32768, 4)); t->add_center_x(w->x.back()); }
    for (int i = 0; i < m; ++i) { w->y.push_back(vp_gridf("y", -32768, 32768, 4)); t->add_center_y(w->y.back()); }
    if (n != m) bad = true;
  };
  if (kind == 1) {
    auto* set = in.mutable_single_predictions(); const int np = vp_choice("objects", 3);
    for (int k = 0; k < np; ++k) { auto* sp = set->add_predictions(); const int id = vp_int("id", -2000000000, 2000000000); sp->set_object_id(id); const int nt = vp_choice("trajectories", 3 - k);
      want.emplace_back(); for (int j = 0; j < nt; ++j) { auto* st = sp->add_trajectories(); J w; w.c = vp_gridf("confidence", -64, 64, 5); st->set_confidence(w.c); w.t.resize(1); w.t[0].id = id; fill(st->mutable_trajectory(), &w.t[0]); want.back().push_back(w); } }
  } else if (kind == 2) {
    auto* jp = in.mutable_joint_prediction(); const int nj = vp_choice("joint", 3); want.emplace_back();
    for (int j = 0; j < nj; ++j) { auto* jt = jp->add_joint_trajectories(); J w; w.c = vp_gridf("confidence", -64, 64, 5); jt->set_confidence(w.c); const int no = j == 0 ? 2 : 2 - vp_choice("fewer", 2) * (1 - 2 * vp_choice("more", 2)); if (no != 2) bad = true;
      for (int o = 0; o < no; ++o) { Tr tr; tr.id = vp_int("id", -2000000000, 2000000000); auto* ot = jt->add_trajectories(); ot->set_object_id(tr.id); if (j == 0) fill(ot->mutable_trajectory(), &tr); else { tr.x = {3, 4}; tr.y = {5, 6}; for (int q = 0; q < 2; ++q) { ot->mutable_trajectory()->add_center_x(tr.x[q]); ot->mutable_trajectory()->add_center_y(tr.y[q]); } } w.t.push_back(tr); }
      want.back().push_back(w); }
  }
  const bool ok = ConvertChallengePredictions(in, &out).ok();
  vp_assert(ok == (good && !bad), "accepted exactly when consistent");
  if (ok) {
    vp_assert(out.scenario_id() == "abc" && out.multi_modal_predictions_size() == (int)want.size(), "every object is kept");
    vp_all same;
    for (size_t k = 0; k < want.size(); ++k) {
      const auto& mm = out.multi_modal_predictions(k); vp_assert(mm.joint_predictions_size() == (int)want[k].size(), "every prediction is kept");
      for (size_t j = 0; j < want[k].size(); ++j) {
        const auto& jt = mm.joint_predictions(j); same &= jt.confidence() == want[k][j].c; vp_assert(jt.trajectories_size() == (int)want[k][j].t.size(), "every trajectory is kept");
        for (size_t o = 0; o < want[k][j].t.size(); ++o) { const auto& tr = jt.trajectories(o); const Tr& w = want[k][j].t[o]; same &= tr.object_id() == w.id;
          vp_assert(tr.center_x_size() == (int)w.x.size() && tr.center_y_size() == (int)w.y.size(), "no sample is added or lost");
          for (size_t i = 0; i < w.x.size(); ++i) { same &= tr.center_x(i) == w.x[i]; same &= tr.center_y(i) == w.y[i]; } }
      }
    }
    vp_assert(same, "ids, confidences and samples are kept in order");
    // the submission check accepts exactly the shape of its kind
    bool one = true, two = want.size() <= 1; for (auto& m : want) for (auto& j : m) { one &= j.t.size() == 1; two &= j.t.size() == 2; }
    vp_assert(ValidateChallengePredictions(out, MotionChallengeSubmission::MOTION_PREDICTION).ok() == one, "motion submissions predict single objects");
    vp_assert(ValidateChallengePredictions(out, MotionChallengeSubmission::INTERACTION_PREDICTION).ok() == two, "interaction submissions predict one pair");
    vp_assert(!ValidateChallengePredictions(out, MotionChallengeSubmission::UNKNOWN).ok(), "other kinds are refused");
    if (!want.empty() && !want[0].empty()) vp_reach("inside");
  }
#endif
  vp_reach("end");
}
