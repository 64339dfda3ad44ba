// Shared helpers for the scenario conversion harnesses.
#pragma once
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"
#include "vp.h"
using namespace waymo::open_dataset;
typedef MotionExampleConversionConfig Cfg;
inline const tensorflow::Feature* Feat(const tensorflow::Example& e, const std::string& k) { auto it = e.features().feature().find(k); return it == e.features().feature().end() ? nullptr : &it->second; }
inline int FSize(const tensorflow::Example& e, const std::string& k) { auto* f = Feat(e, k); return f ? f->float_list().value_size() : 0; }
inline int ISize(const tensorflow::Example& e, const std::string& k) { auto* f = Feat(e, k); return f ? f->int64_list().value_size() : 0; }
inline float F(const tensorflow::Example& e, const std::string& k, int i) { return Feat(e, k)->float_list().value(i); }
inline int64_t I(const tensorflow::Example& e, const std::string& k, int i) { return Feat(e, k)->int64_list().value(i); }
static const char* const TIMES[3] = {"past/", "current/", "future/"};
static const char* const SF[11] = {"x", "y", "z", "width", "length", "height", "velocity_x", "velocity_y", "speed", "bbox_yaw", "vel_yaw"};
inline double Abs(double x) { return vp_ite(x < 0, 0 - x, x); }
inline void P3(MapPoint* p, double x, double y, double z) { p->set_x(x); p->set_y(y); p->set_z(z); }
// every declared feature of an example has exactly its configured length
inline bool Layout(const tensorflow::Example& e, const Cfg& c) {
  bool ok = true; const int A = c.max_num_agents(), P = c.num_past_steps(), Fu = c.num_future_steps(), R = c.max_roadgraph_samples(), L = c.max_traffic_light_control_points_per_step();
  const int n[3] = {P - 1, 1, Fu}; int seen = 1;
  auto f = [&](const std::string& k, int want) { ok = ok && FSize(e, k) == want && ISize(e, k) == 0; if (Feat(e, k)) ++seen; };
  auto i = [&](const std::string& k, int want) { ok = ok && ISize(e, k) == want && FSize(e, k) == 0; if (Feat(e, k)) ++seen; };
  for (auto k : {"id", "type"}) f(std::string("state/") + k, A);
  for (auto k : {"is_sdc", "tracks_to_predict", "objects_of_interest", "difficulty_level"}) i(std::string("state/") + k, A);
  i("state/is_context", A);
  for (int t = 0; t < 3; ++t) {
    const std::string p = std::string("state/") + TIMES[t], q = std::string("traffic_light_state/") + TIMES[t];
    for (auto k : SF) f(p + k, A * n[t]);
    for (auto k : {"timestamp_micros", "valid"}) i(p + k, A * n[t]);
    for (auto k : {"x", "y", "z"}) f(q + k, L * n[t]);
    for (auto k : {"state", "id", "valid"}) i(q + k, L * n[t]);
    i(q + "timestamp_micros", n[t]);
  }
  for (auto k : {"id", "type", "valid"}) i(std::string("roadgraph_samples/") + k, R);
  for (auto k : {"xyz", "dir"}) f(std::string("roadgraph_samples/") + k, 3 * R);
  auto* s = Feat(e, "scenario/id"); return ok && s && s->bytes_list().value_size() == 1;
}
