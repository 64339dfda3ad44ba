// M14: merging tracking measurements and the summary scores.  Symbolic: all counts and costs.
#include "mh.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#ifndef NS
#define NS 2
#endif
#ifndef NCUT
#define NCUT 2
#endif
#ifndef NB
#define NB 1
#endif
using MV = std::vector<TrackingMeasurements>;
static const int kObj[5] = {0, 1, 3, 4, 10};
extern "C" void vp_property() {
  Config config;
  const int ns = MERGE ? vp_choice("scenes", NS + 1) : 1;
  const bool det = MERGE ? vp_choice("details", 2) : false;
  const int cmax = MERGE ? 1000000 : 40;
  std::vector<MV> f(ns);
  for (int s = 0; s < ns; ++s) for (int b = 0; b < NB; ++b) {
    TrackingMeasurements m;
    m.mutable_breakdown()->set_generator_id(Breakdown::OBJECT_TYPE);
    m.mutable_breakdown()->set_shard(b);
    m.mutable_breakdown()->set_difficulty_level(Label::LEVEL_2);
    for (int c = 0; c < NCUT; ++c) {
      auto* e = m.add_measurements();
      e->set_score_cutoff(0.25f + c * 0.5f);
      e->set_num_misses(vp_int("misses", 0, cmax));
      e->set_num_fps(vp_int("fps", 0, cmax));
      e->set_num_mismatches(vp_int("mismatches", 0, cmax));
      e->set_matching_cost(vp_grid("cost", 0, 1024, 4));
      e->set_num_matches(MERGE ? vp_int("matches", 0, cmax) : kObj[vp_choice("matches_c", 4)]);
      e->set_num_objects_gt(MERGE ? vp_int("objects", 1, 1) * (s == 0 ? 4 : 0) : kObj[vp_choice("objects", 5)]);
      if (det) e->add_details()->add_fp_pred_ids("s" + std::to_string(s));
    }
    f[s].push_back(m);
  }
  std::vector<int> p(ns);
  std::iota(p.begin(), p.end(), 0);
  bool reversed = false;
  do {
    std::vector<MV> g;
    for (int i : p) g.push_back(f[i]);
    if (MERGE && vp_choice("empty_scene", 2)) g.insert(g.begin() + vp_choice("empty_at", 2) * ns, MV());
    const std::vector<TrackingMetrics> r = ComputeTrackingMetrics(config, g);
    vp_assert((int)r.size() == (ns ? NB : 0), "one metrics entry per breakdown");
    for (int b = 0; b < (int)r.size(); ++b) {
      const TrackingMetrics& m = r[b];
      vp_assert(m.breakdown().generator_id() == Breakdown::OBJECT_TYPE && m.breakdown().shard() == b && m.breakdown().difficulty_level() == Label::LEVEL_2, "breakdown of the entry");
      vp_assert(m.measurements().measurements_size() == NCUT, "one measurement per cutoff");
      vp_all ok;
      bool dok = true;
      for (int c = 0; c < NCUT; ++c) {
        int mi = 0, fp = 0, mm = 0, ma = 0, ob = 0, nd = 0; double co = 0;
        for (int i : p) { const auto& x = f[i][b].measurements(c); mi += x.num_misses(); fp += x.num_fps(); mm += x.num_mismatches(); ma += x.num_matches(); ob += x.num_objects_gt(); co += x.matching_cost(); nd += x.details_size(); }
        const auto& y = m.measurements().measurements(c);
        ok &= y.num_misses() == mi; ok &= y.num_fps() == fp; ok &= y.num_mismatches() == mm; ok &= y.num_matches() == ma;
        ok &= y.num_objects_gt() == ob; ok &= y.matching_cost() == co; ok &= y.score_cutoff() == f[0][b].measurements(c).score_cutoff();
        dok = dok && y.details_size() == nd;
        for (int k = 0; dok && k < nd; ++k) dok = y.details(k).fp_pred_ids(0) == "s" + std::to_string(p[k]);
      }
      vp_assert(ok, "merged counts are the sums over the scenes");
      vp_assert(dok, "details of every scene are kept in order");
      if (!MERGE) {
        // independent definition of the scores
        double best = 0; int bi = -1;
        for (int c = 0; c < NCUT; ++c) {
          const auto& x = f[0][b].measurements(c);
          const int n = vp_conc(x.num_objects_gt());
          if (n == 0) continue;
          const double mota = 1.0 - double(x.num_misses() + x.num_fps() + x.num_mismatches()) / n;
          if (mota > best + 1e-3) { best = mota; bi = c; }
          else if (mota > best - 1e-3 && mota > 1e-3) vp_assume(mota == best);
          else vp_assume(mota <= 0 || mota < best);
        }
        if (bi < 0) {
          vp_assert(m.mota() == 0 && m.motp() == 0 && m.miss() == 0 && m.fp() == 0 && m.mismatch() == 0, "no score without a positive MOTA");
        } else {
          const auto& x = f[0][b].measurements(bi);
          const double n = vp_conc(x.num_objects_gt());
          auto near = [](double a, double b) { double d = a - b; return vp_and(d < 1e-4, d > -1e-4); };
          vp_assert(m.score_cutoff() == x.score_cutoff(), "the lowest cutoff with the highest MOTA is chosen");
          vp_assert(near(m.mota(), best), "MOTA is one minus the sum of the ratios, maximal over the cutoffs");
          vp_assert(near(m.miss(), x.num_misses() / n), "miss ratio");
          vp_assert(near(m.fp(), x.num_fps() / n), "false-positive ratio");
          vp_assert(near(m.mismatch(), x.num_mismatches() / n), "mismatch ratio");
          const int nm = vp_conc(x.num_matches());
          if (nm == 0) vp_assert(m.motp() == 0, "MOTP without matches");
          else vp_assert(near(m.motp(), x.matching_cost() / nm), "MOTP is the average matching error");
          if (bi > 0) vp_reach("later cutoff");
        }
      }
    }
  } while (std::next_permutation(p.begin(), p.end()));
  vp_reach("end");
}
