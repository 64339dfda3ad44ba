// S03: roadgraph samples.
#include "sc.h"
#include <functional>
typedef std::vector<double> V3;
static std::vector<V3> want; static std::vector<int64_t> wid; static std::vector<int> wty, wlast; static std::vector<double> wlen;  // expected samples; wlen: length of the step to the next sample when known
static Scenario s; static Cfg c;
static void Emit(int64_t id, int ty, const std::vector<V3>& pts) { const int n0 = want.size(); for (size_t i = 0; i < pts.size() && int(want.size()) < c.max_roadgraph_samples(); ++i) { want.push_back(pts[i]); wid.push_back(id); wty.push_back(ty); wlast.push_back(0); } if (int(want.size()) > n0) wlast.back() = 1; }
static bool Near(double a, double b, double e) { return vp_and(a - b < e, b - a < e); }
static double Cub(double p0, double p1, double p2, double p3, double a) { // Catmull-Rom in Hermite form
  const double h00 = 2 * a * a * a - 3 * a * a + 1, h10 = a * a * a - 2 * a * a + a, h01 = -2 * a * a * a + 3 * a * a, h11 = a * a * a - a * a;
  return h00 * p1 + h10 * ((p2 - p0) * 0.5) + h01 * p2 + h11 * ((p3 - p1) * 0.5); }
static std::vector<V3> Line(const std::vector<V3>& p) {
  const double src = c.source_polyline_spacing(), sp = c.polyline_sample_spacing() > 0 ? c.polyline_sample_spacing() : src; const int n = p.size(); std::vector<V3> r;
  for (int k = 0;; ++k) { const double u = k * sp / src; const int i = int(u + 1e-9); if (i >= n - 1) break; const double a = u - i; V3 q(3);
    for (int d = 0; d < 3; ++d) q[d] = i < 1 || i > n - 3 ? p[i][d] + a * (p[i + 1][d] - p[i][d]) : Cub(p[i - 1][d], p[i][d], p[i + 1][d], p[i + 2][d], a); r.push_back(q); }
  if (r.empty() || true) { // the end point, unless it coincides with the last sample
    bool add = r.empty(); if (!add) { double q = 0; for (int d = 0; d < 3; ++d) q += (p[n - 1][d] - r.back()[d]) * (p[n - 1][d] - r.back()[d]); add = q > 1e-4; } if (add) r.push_back(p[n - 1]); }
  return r; }
static std::vector<V3> Area(const std::vector<V3>& p, const std::vector<double>& len) {
  std::vector<V3> r; const int n = p.size(); const double sp = c.polygon_sample_spacing();
  for (int i = 0; i < n; ++i) { const V3 &a = p[i], &b = p[(i + 1) % n]; int m = 1; if (sp > 0) { m = int(len[i] / sp); if (m < 1) m = 1; }
    for (int j = 0; j < m; ++j) { V3 q(3); for (int d = 0; d < 3; ++d) q[d] = a[d] + (b[d] - a[d]) * j / m; r.push_back(q); } }
  r.push_back(p[0]); return r; }
static google::protobuf::RepeatedPtrField<MapPoint>* Poly(MapFeature* f, int kind, int sub) {
  switch (kind) { case 0: f->mutable_lane()->set_type(LaneCenter::LaneType(sub)); return f->mutable_lane()->mutable_polyline();
    case 1: f->mutable_road_line()->set_type(RoadLine::RoadLineType(sub)); return f->mutable_road_line()->mutable_polyline();
    case 5: f->mutable_road_edge()->set_type(RoadEdge::RoadEdgeType(sub)); return f->mutable_road_edge()->mutable_polyline();
    case 3: return f->mutable_crosswalk()->mutable_polygon(); case 4: return f->mutable_speed_bump()->mutable_polygon(); case 6: return f->mutable_driveway()->mutable_polygon(); }
  return nullptr; }
static const int LINEBASE[7] = {0, 5, 17, 18, 19, 14, 20}, NSUB[7] = {4, 9, 1, 1, 1, 3, 1};  // documented numbers of the types, in priority order
static void Check(bool dirs) {
  s.set_scenario_id("m"); s.set_sdc_track_index(0); s.add_timestamps_seconds(0); auto* k = s.add_tracks(); k->set_id(5); k->set_object_type(Track::TYPE_VEHICLE); k->add_states()->set_valid(true); s.add_tracks_to_predict()->set_track_index(0);
  c.set_max_num_agents(1); c.set_max_num_modeled_agents(1); c.set_num_past_steps(1); c.set_num_future_steps(0); c.set_max_traffic_light_control_points_per_step(1);
  std::map<std::string, int> cnt; auto r = ScenarioToExample(s, c, &cnt); vp_assert(r.ok(), "conversion succeeds"); const auto& e = *r; const int R = c.max_roadgraph_samples(); const std::string p = "roadgraph_samples/";
  vp_assert(Layout(e, c), "feature lengths"); int got = 0; for (int i = 0; i < R; ++i) got += I(e, p + "valid", i) == 1;
  vp_assert(got == int(want.size()), "as many samples as the features give and the budget allows");
  for (int i = 0; i < R; ++i) { const bool v = i < got; vp_assert(I(e, p + "valid", i) == (v ? 1 : 0), "samples first, then padding");
    if (!v) { bool z = I(e, p + "id", i) == -1 && I(e, p + "type", i) == -1; for (int d = 0; d < 3; ++d) z = z && F(e, p + "xyz", 3 * i + d) == -1 && F(e, p + "dir", 3 * i + d) == -1; vp_assert(z, "padding is marked"); continue; }
    vp_assert(I(e, p + "id", i) == wid[i], "id of the feature"); vp_assert(I(e, p + "type", i) == wty[i], "type of the feature");
    vp_all near; for (int d = 0; d < 3; ++d) near &= Near(F(e, p + "xyz", 3 * i + d), want[i][d], 1e-3); vp_assert(near, "sample position");
    if (wlast[i]) { bool z = true; for (int d = 0; d < 3; ++d) z = z && F(e, p + "dir", 3 * i + d) == 0; vp_assert(z, "no direction at the last sample of a feature"); }
    else if (dirs) { // unit vector towards the next sample: d * |step| = step
      vp_all ok; for (int d = 0; d < 3; ++d) ok &= Near(F(e, p + "dir", 3 * i + d) * wlen[i], want[i + 1][d] - want[i][d], 1e-3 * 8); vp_assert(ok, "direction to the next sample"); } }
  if (got == R) vp_reach("full"); if (got < R && got) vp_reach("padded"); vp_reach("end");
}
#ifndef BITS
#define BITS 3
#define SPAN 2048
#endif
extern "C" void vp_property() {
  want.clear(); wid.clear(); wty.clear(); wlast.clear(); wlen.clear(); s.Clear(); c.Clear();
#if MODE == 0  // one polyline with any coordinates, every spacing and budget
  const double src[3] = {0.5, 0.5, 1.0}, sp[6] = {0, 0.5, 1.0, 0.25, 0.75, 0.375}; c.set_source_polyline_spacing(src[vp_choice("source", NSRC)]); c.set_polyline_sample_spacing(sp[vp_choice("spacing", 6)]);
  const int n = 1 + vp_choice("points", NPTS); const int kind = vp_choice("kind", 2) ? 5 : 1, sub = 1; const int64_t id = vp_long("id", -(1L << 40), 1L << 40);
  auto* f = s.add_map_features(); f->set_id(id); auto* pl = Poly(f, kind, sub); std::vector<V3> p;
  for (int i = 0; i < n; ++i) { V3 q{double(vp_grid("x", -SPAN, SPAN, BITS)), double(vp_grid("y", -SPAN, SPAN, BITS)), BITS == 3 ? double(i % 2) : 0}; p.push_back(q); P3(pl->Add(), q[0], q[1], q[2]); }
  std::vector<V3> all = Line(p); c.set_max_roadgraph_samples(1 + vp_choice("budget", 4) * 3); Emit(id, LINEBASE[kind] + sub, all); Check(false);
#elif MODE == 1  // a polyline along straight runs of known length: directions
  c.set_source_polyline_spacing(0.5); c.set_polyline_sample_spacing(vp_choice("spacing", 2) ? 1.0 : 0.5); const int n = 4;
  const double ux[4] = {0.6, 0, -0.28, 0.48}, uy[4] = {0.8, -1, 0.96, 0.6}, uz[4] = {0, 0, 0, 0.64}; const int h = vp_choice("heading", 4);
  auto* f = s.add_map_features(); f->set_id(3); auto* pl = Poly(f, 0, 2); V3 q{10, -20, 3}; std::vector<V3> p; std::vector<double> L;
  // along one direction with (symbolic) steps; samples are source points when the spacings agree
  for (int i = 0; i < n; ++i) { p.push_back(q); P3(pl->Add(), q[0], q[1], q[2]); const double g = vp_grid("step", 2, 64, 4); L.push_back(g); q = {q[0] + ux[h] * g, q[1] + uy[h] * g, q[2] + uz[h] * g}; }
  const bool one = c.polyline_sample_spacing() == 1.0; c.set_max_roadgraph_samples(2 + vp_choice("budget", 3)); std::vector<V3> all;
  if (!one) all = p; else all = {p[0], p[2], p[3]}; Emit(3, 2, all); wlen = one ? std::vector<double>{L[0] + L[1], L[2], 0} : std::vector<double>{L[0], L[1], L[2], 0}; Check(true);
#elif MODE == 2  // polygons: rectangles and segments with any side lengths
  const double sp[3] = {0, 1.0, 2.5}; c.set_polygon_sample_spacing(sp[vp_choice("spacing", 3)]); const int kinds[3] = {3, 4, 6}; const int kind = kinds[vp_choice("kind", 3)], n = 1 + vp_choice("points", 4);
  const double w = vp_grid("width", 0, 24, 3), h = vp_grid("height", 0, 24, 3), x = vp_grid("x", -800, 800, 3), y = vp_grid("y", -800, 800, 3); std::vector<V3> p; std::vector<double> len; vp_assume(w != 0); vp_assume(h != 0);
  if (n == 1) { p = {{x, y, 1}}; len = {0}; } else if (n == 2) { p = {{x, y, 1}, {x + w, y, 1}}; len = {w, w}; } else if (n == 3) { p = {{x, y, 1}, {x + 3 * w, y, 1}, {x + 3 * w, y + 4 * w, 1}}; len = {3 * w, 4 * w, 5 * w}; }
  else { p = {{x, y, 1}, {x + w, y, 1}, {x + w, y, 1 + h}, {x, y, 1 + h}}; len = {w, h, w, h}; }
  auto* f = s.add_map_features(); f->set_id(12); auto* pl = Poly(f, kind, 0); for (auto& q : p) P3(pl->Add(), q[0], q[1], q[2]);
  c.set_max_roadgraph_samples(1 + vp_choice("budget", 4) * 4); const auto all = Area(p, len); Emit(12, LINEBASE[kind], all);
  for (int i = 0; i < n; ++i) { const double q = c.polygon_sample_spacing(); int m = q > 0 ? int(len[i] / q) : 1; if (m < 1) m = 1; for (int j = 0; j < m; ++j) wlen.push_back(len[i] / m); } wlen.push_back(0);
  Check(true);
#else  // several features of any kinds in any order: priority, ids, types, budget
  const int N = MODE == 3 ? 2 : 3; c.set_source_polyline_spacing(0.5); c.set_polyline_sample_spacing(0.5); c.set_polygon_sample_spacing(0); c.set_max_roadgraph_samples(vp_choice("budget", 4) * 2 + 1);
  struct Fe { int kind, sub; std::vector<V3> p; int64_t id; }; std::vector<Fe> fs;
  for (int i = 0; i < N; ++i) { Fe g; g.kind = vp_choice("kind", 8) ; g.sub = g.kind < 7 && MODE == 3 ? vp_choice("type", NSUB[g.kind]) : 0; g.id = vp_long("id", -1000, 1L << 40); auto* f = s.add_map_features(); f->set_id(g.id);
    const int n = g.kind == 2 ? 1 : 2 + i % 2; for (int j = 0; j < n; ++j) g.p.push_back({vp_grid("x", -800, 800, 3), 10.0 * i + j, 2});
    if (g.kind == 2) P3(f->mutable_stop_sign()->mutable_position(), g.p[0][0], g.p[0][1], g.p[0][2]); else if (g.kind < 7) { auto* pl = Poly(f, g.kind, g.sub); for (auto& q : g.p) P3(pl->Add(), q[0], q[1], q[2]); } fs.push_back(g); }
  for (int k = 0; k < 7; ++k) for (auto& g : fs) if (g.kind == k) { auto p = g.p; if (k == 3 || k == 4 || k == 6) p.push_back(p[0]); Emit(g.id, LINEBASE[k] + g.sub, p); }
  Check(false);
#endif
}
