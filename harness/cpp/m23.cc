// M23: accumulation of motion statistics and the reported entries.
#include "mo.h"
#include "waymo_open_dataset/metrics/config_util.h"
namespace { const Track::ObjectType TY[3] = {Track::TYPE_VEHICLE, Track::TYPE_PEDESTRIAN, Track::TYPE_CYCLIST}; const int ST[2] = {5, 9}; }
extern "C" void vp_property() {
#if MODE == 0
  const int N = 3; BucketedMetricsStats in[N];
  const int field = FIELD;
  struct Cell { double tot[5] = {0, 0, 0, 0, 0}; double n[5] = {0, 0, 0, 0, 0}; bool any = false, custom = false; int traj = 0, straj = 0; std::vector<PredictionSample> smp, ssmp; }; Cell want[3][2];
  for (int k = 0; k < N; ++k) {
    const int mask = k == 0 ? vp_choice("present", 8) : k == 1 ? (vp_choice("present1", 2) ? 0x29 : 0x02) : 0x11;
    for (int t = 0; t < 3; ++t) for (int s = 0; s < 2; ++s) if (mask >> (2 * t + s) & 1) {
      MetricsStats& m = in[k].stats[TY[t]][ST[s]]; Cell& w = want[t][s]; w.any = true;
      Accumulator* a[5] = {&m.min_average_displacement, &m.min_final_displacement, &m.miss_rate, &m.overlap_rate, 0};
      if (k != 1) { a[4] = &m.custom_metrics["mine"]; w.custom = true; }
      const int f = (field + t + 2 * s + 3 * k) % 5;  // one field per cell is arbitrary, the others are fixed
      for (int i = 0; i < 5; ++i) if (a[i]) {
        const double tt = i == f ? vp_grid("total", 0, 65536, 4) : 3 * i + k; const int nn = i == f ? vp_int("count", 0, 100000) : i + 1;
        a[i]->total = tt; a[i]->num_measurements = nn; w.tot[i] = w.tot[i] + tt; w.n[i] = w.n[i] + nn;
      }
      if (k != 2) {
        m.mean_average_precision.pr_buckets.resize(TrajectoryType::NUM_TYPES); auto& b = m.mean_average_precision.pr_buckets[3]; b.num_trajectories = k + 1; w.traj += k + 1;
        for (int i = 0; i < 2; ++i) { b.samples.push_back(PredictionSample(0.25f * i + 0.5f * k, (i + k + t) % 2)); w.smp.push_back(b.samples.back()); }
        m.soft_mean_average_precision.pr_buckets.resize(TrajectoryType::NUM_TYPES); auto& sb = m.soft_mean_average_precision.pr_buckets[5]; sb.num_trajectories = 2 * k + 3; w.straj += 2 * k + 3;
        sb.samples.push_back(PredictionSample(0.125f + 0.25f * k, (k + t) % 2)); w.ssmp.push_back(sb.samples.back());
      }
    }
  }
  BucketedMetricsStats total;
  const int how = vp_choice("grouping", 4);
  if (how == 0) { total.Accumulate(in[0]); total.Accumulate(in[1]); total.Accumulate(in[2]); }
  if (how == 1) { BucketedMetricsStats b = in[1]; b.Accumulate(in[2]); total = in[0]; total.Accumulate(b); }
  if (how == 2) { BucketedMetricsStats b; b.Accumulate(in[2]); b.Accumulate(in[0]); total.Accumulate(in[1]); total.Accumulate(b); }
  if (how == 3) { total = in[2]; total.Accumulate(in[1]); BucketedMetricsStats b, c; b.Accumulate(in[0]); c.Accumulate(b); total.Accumulate(c); total.Accumulate(BucketedMetricsStats()); }
  auto check = [&](MetricsStats& m, const Cell& w) {
    Accumulator none; auto it = m.custom_metrics.find("mine"); vp_assert(w.custom == (it != m.custom_metrics.end()), "custom metrics are kept");
    const Accumulator* a[5] = {&m.min_average_displacement, &m.min_final_displacement, &m.miss_rate, &m.overlap_rate, w.custom ? &it->second : &none}; vp_all ok;
    for (int i = 0; i < 5; ++i) { ok &= a[i]->total == w.tot[i]; ok &= a[i]->num_measurements == w.n[i]; }
    vp_assert(ok, "sums and counts per type and step");
    for (int soft = 0; soft < 2; ++soft) if (!w.smp.empty()) {
      auto& bs = soft ? m.soft_mean_average_precision.pr_buckets : m.mean_average_precision.pr_buckets; const auto& ws = soft ? w.ssmp : w.smp; const int at = soft ? 5 : 3;
      vp_assert((int)bs.size() == TrajectoryType::NUM_TYPES, "buckets"); auto& b = bs[at];
      for (int i = 0; i < (int)bs.size(); ++i) if (i != at) vp_assert(bs[i].samples.empty() && bs[i].num_trajectories == 0, "other types stay empty");
      vp_assert(b.num_trajectories == (soft ? w.straj : w.traj) && b.samples.size() == ws.size(), "samples and trajectories add up");
      auto key = [](const PredictionSample& x, const PredictionSample& y) { return x.confidence != y.confidence ? x.confidence < y.confidence : x.true_positive < y.true_positive; };
      auto s1 = b.samples, s2 = ws; std::sort(s1.begin(), s1.end(), key); std::sort(s2.begin(), s2.end(), key);
      for (size_t i = 0; i < s1.size(); ++i) vp_assert(s1[i].confidence == s2[i].confidence && s1[i].true_positive == s2[i].true_positive, "samples are kept");
    }
  };
  int cells = 0;
  for (int t = 0; t < 3; ++t) for (int s = 0; s < 2; ++s) {
    const bool there = total.stats.count(TY[t]) && total.stats[TY[t]].count(ST[s]); vp_assert(there == want[t][s].any, "an entry exactly where some input has one");
    if (there) { check(total.stats[TY[t]][ST[s]], want[t][s]); ++cells; }
  }
  auto across = total.AccumulateAcrossTypes();
  for (int s = 0; s < 2; ++s) { Cell w; for (int t = 0; t < 3; ++t) { const Cell& c = want[t][s]; if (!c.any) continue; w.any = true; w.custom |= c.custom; w.traj += c.traj; w.straj += c.straj; w.ssmp.insert(w.ssmp.end(), c.ssmp.begin(), c.ssmp.end()); for (int i = 0; i < 5; ++i) { w.tot[i] = w.tot[i] + c.tot[i]; w.n[i] = w.n[i] + c.n[i]; } w.smp.insert(w.smp.end(), c.smp.begin(), c.smp.end()); }
    vp_assert(w.any == (across.count(ST[s]) == 1), "one entry per step across types"); if (w.any) check(across[ST[s]], w); }
  const MotionMetrics mt = ComputeMotionMetrics(&total);
  vp_assert(mt.metrics_bundles_size() == cells, "one reported entry per type and step");
  bool seen[3][2] = {}; 
  for (const auto& b : mt.metrics_bundles()) {
    int t = -1, s = -1; for (int i = 0; i < 3; ++i) if (b.object_filter() == TY[i]) t = i; for (int i = 0; i < 2; ++i) if (b.measurement_step() == ST[i]) s = i;
    vp_assert(t >= 0 && s >= 0 && want[t][s].any && !seen[t][s], "entries are of the types and steps given"); seen[t][s] = true; const Cell& w = want[t][s];
    const double v[5] = {b.min_ade(), b.min_fde(), b.miss_rate(), b.overlap_rate(), w.custom ? (double)b.custom_metrics().at("mine") : 0}; vp_all ok, zero;
    for (int i = 0; i < 5; ++i) { ok &= vp_or(w.n[i] == 0, Abs(v[i] * w.n[i] - w.tot[i]) <= 1e-6 * w.tot[i]); zero &= vp_or(w.n[i] != 0, v[i] == 0); }
    vp_assert(ok, "reported means are sum over count"); vp_assert(zero, "without measurements the mean is zero");
  }
  vp_reach("inside");
#elif MODE == 1
  MotionMetricsConfig c; const int n = vp_choice("steps", 4); std::vector<int> st; for (int i = 0; i < n; ++i) { st.push_back(7 * ((i * 2) % 3) + vp_choice("step", 3)); AddStep(&c, st.back(), 1, 2); }
  const auto names = GetBreakdownNamesFromMotionConfig(c); const std::string ty[3] = {"TYPE_VEHICLE_", "TYPE_PEDESTRIAN_", "TYPE_CYCLIST_"};
  vp_assert((int)names.size() == 3 * n, "one name per type and step");
  for (int t = 0; t < 3; ++t) for (int i = 0; i < n; ++i) vp_assert(names[t * n + i] == ty[t] + std::to_string(st[i]), "types in order, steps in the order of the configuration");
#else  // whole computation over several scenarios, in every order of the table
  const int T = 2, R = 1, H = 1; MotionMetricsConfig c = MakeConfig(H, T * R, R, 2); AddStep(&c, 0, 1e9, 1e9); AddStep(&c, 1, 1e9, 1e9);
  vp_hash_salt = vp_choice("hash_order", 4);
  absl::flat_hash_map<std::string, ScenarioPredictions> preds; absl::flat_hash_map<std::string, Scenario> scens; double tot[2][2] = {}; int cnt[2][2] = {}; bool any[2] = {};
  const int N = 3; const bool missing = vp_choice("missing", 2);
  for (int k = 0; k < N; ++k) {
    Scenario s; ScenarioPredictions p; const std::string id = "scene" + std::to_string(k); s.set_scenario_id(id); p.set_scenario_id(id);
    const int no = k == 2 ? 0 : 1 + (k == 0);
    for (int o = 0; o < no; ++o) {
      const int type = (k + o) % 2; any[type] = true; Track* t = AddTrack(&s, 10 + o, TY[type], H + 1 + T); s.add_tracks_to_predict()->set_track_index(o); t->mutable_states(H)->set_valid(false);
      auto* jp = p.add_multi_modal_predictions()->add_joint_predictions(); std::vector<float> x(T), y(T, 0);
      double sum = 0; int ns = 0;
      for (int i = 0; i < T; ++i) { const bool ok = vp_choice("valid", 2); t->mutable_states(H + 1 + i)->set_valid(ok); const double d = vp_grid("far", 0, 4096, 4); t->mutable_states(H + 1 + i)->set_center_x(d); if (ok) { sum = sum + d; ++ns; } if (ns) { tot[type][i] = tot[type][i] + sum / ns; ++cnt[type][i]; } }
      AddTrajectory(jp, 10 + o, x, y);
    }
    preds[id] = p; if (!(missing && k == 1)) scens[id] = s;
  }
  scens["unused"] = Scenario();
  MotionMetrics mt; const bool ok = ComputeMotionMetrics(c, preds, scens, &mt).ok();
  vp_assert(ok == !missing, "an error exactly when a scenario is missing"); if (!ok) { vp_reach("end"); return; }
  vp_assert(mt.metrics_bundles_size() == 4, "one entry per type and step");
  for (const auto& b : mt.metrics_bundles()) { const int t = b.object_filter() == TY[1], i = b.measurement_step(); vp_assert(Abs(b.min_ade() * cnt[t][i] - tot[t][i]) < 1e-3, "means over all scenarios"); vp_assert(b.overlap_rate() == 0 && b.mean_average_precision() == 0, "nothing else is reported"); }
  vp_reach("inside");
#endif
  vp_reach("end");
}
