// M09: breakdown shards and names.  Symbolic: positions, sizes, speeds, types.
#include <cmath>
#include <set>
#include "mh.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
static const Breakdown::GeneratorId kGen[7] = {Breakdown::ONE_SHARD, Breakdown::OBJECT_TYPE, Breakdown::RANGE, Breakdown::VELOCITY, Breakdown::ALL_BUT_SIGN, Breakdown::SIZE, Breakdown::CAMERA};
static const int kNum[7] = {1, 4, 12, 20, 2, 8, 20};
static const char* kTypeName[5] = {"TYPE_UNKNOWN", "TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_SIGN", "TYPE_CYCLIST"};
static std::string WantName(int g, int s) {
  static const char* r[3] = {"[0, 30)", "[30, 50)", "[50, +inf)"};
  static const char* z[2] = {"small", "large"};
  static const char* v[5] = {"STATIONARY", "SLOW", "MEDIUM", "FAST", "VERY_FAST"};
  static const char* c[5] = {"FRONT", "FRONT-LEFT", "FRONT-RIGHT", "SIDE-LEFT", "SIDE-RIGHT"};
  switch (g) {
    case 0: return "ONE_SHARD";
    case 1: return std::string("OBJECT_TYPE_") + kTypeName[s + 1];
    case 2: return std::string("RANGE_") + kTypeName[s / 3 + 1] + "_" + r[s % 3];
    case 3: return std::string("VELOCITY_") + kTypeName[s / 5 + 1] + "_" + v[s % 5];
    case 4: return s ? "SIGN" : "ALL_BUT_SIGN";
    case 5: return std::string("SIZE_") + kTypeName[s / 2 + 1] + "_" + z[s % 2];
    default: return std::string("CAMERA_") + kTypeName[s / 5 + 1] + "_" + c[s % 5];
  }
}
extern "C" void vp_property() {
#if MODE < 7
  const int g = MODE;
  auto gen = BreakdownGenerator::Create(kGen[g]);
  vp_assert(gen->NumShards() == kNum[g] && gen->Id() == kGen[g], "number of shards");
  vp_assert(gen->IsGroundTruthOnlyBreakdown() == (g == 3 || g == 6), "ground-truth-only breakdowns");
  Object o;
  const int type = vp_int("type", 0, 4);
  o.mutable_object()->set_type(static_cast<Label::Type>(type));
  int want = -1; bool fixed = true;
#if MODE == 0
  want = 0;
#elif MODE == 1
  want = type - 1;
#elif MODE == 4
  want = type == Label::TYPE_SIGN ? 1 : 0;
#elif MODE == 2
  const double x = vp_grid("x", -256, 256, 2), y = vp_grid("y", -256, 256, 2), z = vp_grid("z", -256, 256, 2);
  auto* b = o.mutable_object()->mutable_box();
  b->set_center_x(x); b->set_center_y(y); b->set_center_z(z);
  const double d = x * x + y * y + z * z;
  const int k = d < 900 ? 0 : d < 2500 ? 1 : 2;
  want = type == 0 ? -1 : 3 * (type - 1) + k;
#elif MODE == 5
  const double l = vp_grid("l", 0, 80, 3), w = vp_grid("w", 0, 80, 3), h = vp_grid("h", 0, 80, 3);
  auto* b = o.mutable_object()->mutable_box();
  b->set_length(l); b->set_width(w); b->set_height(h);
  want = type == 0 ? -1 : 2 * (type - 1) + ((l >= 7 || w >= 7 || h >= 7) ? 1 : 0);
#elif MODE == 3
  const double x = vp_grid("vx", -256, 256, 4), y = vp_grid("vy", -256, 256, 4);
  const int has = vp_choice("has", 4);
  auto* m = o.mutable_object()->mutable_metadata();
  if (has & 1) m->set_speed_x(x);
  if (has & 2) m->set_speed_y(y);
  const double d = has == 3 ? x * x + y * y : 0.0;
  const double t = 0.2f;
  const int k = d < t * t ? 0 : d < 1 ? 1 : d < 9 ? 2 : d < 100 ? 3 : 4;
  want = type == 0 ? -1 : 5 * (type - 1) + k;
  const auto all = gen->ShardsForMatching(o);
  if (type == 0) vp_assert(all.empty(), "an object without a type is matched in no shard");
  else { bool ok = all.size() == 5; for (int i = 0; ok && i < 5; ++i) ok = all[i] == 5 * (type - 1) + i; vp_assert(ok, "matched in every velocity shard of its type"); }
#else
  const int how = vp_choice("camera_source", 3);
  std::vector<int> cams;
  if (how == 0) {
    const int cam = vp_choice("camera", 9);
    o.set_camera_name(static_cast<CameraName::Name>(cam));
    want = type == 0 || cam < 1 || cam > 5 ? -1 : 5 * (type - 1) + cam - 1;
    const auto all = gen->ShardsForMatching(o);
    vp_assert(want < 0 ? all.empty() : all.size() == 1 && all[0] == want, "an image object is matched in its own shard");
  } else {
    const int x = vp_int("x", -5, 5), y = vp_int("y", -5, 5);
    auto* b = o.mutable_object()->mutable_box();
    b->set_center_x(x); b->set_center_y(y);
    auto ang = [&](double lo, double hi) {  // direction strictly between two angles (degrees, span < 180)
      const double a = lo * M_PI / 180, c = hi * M_PI / 180;
      if (x == 0 && y == 0) return lo < 0 && hi > 0;
      return std::cos(a) * y - std::sin(a) * x > 0 && std::cos(c) * y - std::sin(c) * x < 0;
    };
    static const double mid[5] = {0, 45, -45, 90, -90};
    for (int c = 0; c < 5; ++c) if (ang(mid[c] - 25.2, mid[c] + 25.2)) cams.push_back(c);
    const auto all = gen->ShardsForMatching(o);
    bool ok = type == 0 ? all.empty() : all.size() == cams.size();
    if (type) for (size_t i = 0; ok && i < cams.size(); ++i) ok = all[i] == 5 * (type - 1) + cams[i];
    vp_assert(ok, "matched in the cameras whose field of view covers it");
    if (how == 1) {
      static const char* nm[10] = {"UNKNOWN", "FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT", "REAR_LEFT", "REAR", "REAR_RIGHT", "nonsense"};
      const int cam = vp_choice("visible", 10);
      o.mutable_object()->set_most_visible_camera_name(nm[cam]);
      want = type == 0 || cam < 1 || cam > 5 ? -1 : 5 * (type - 1) + cam - 1;
    } else {
      want = type == 0 || cams.empty() ? -1 : 5 * (type - 1) + cams[0];
    }
  }
#endif
  const int s = gen->Shard(o);
  vp_assert(s >= -1 && s < kNum[g], "shard is in range");
  vp_assert(s == want, "shard follows the documented boundaries");
  // neither score nor the remaining fields decide the shard
  o.set_score(0.5f); o.set_frame_timestamp_micros(1); o.mutable_object()->set_id("x"); o.mutable_object()->set_num_lidar_points_in_box(3);
  vp_assert(gen->Shard(o) == s, "a prediction and a ground truth at the same place share the shard");
#else
  // names
  Config config;
  const int n = 1 + vp_choice("generators", 2);
  std::vector<std::string> want;
  for (int i = 0; i < n; ++i) {
    const int g = vp_choice("g", 7), lv = vp_choice("levels", 4);
    config.add_breakdown_generator_ids(kGen[g]);
    auto* d = config.add_difficulties();
    std::vector<std::string> ln;
    if (lv & 1) { d->add_levels(Label::LEVEL_1); ln.push_back("LEVEL_1"); }
    if (lv & 2) { d->add_levels(Label::LEVEL_2); ln.push_back("LEVEL_2"); }
    if (ln.empty()) ln.push_back("LEVEL_2");
    auto gen = BreakdownGenerator::Create(kGen[g]);
    std::set<std::string> seen;
    for (int s = 0; s < gen->NumShards(); ++s) {
      vp_assert(gen->ShardName(s) == WantName(g, s), "shard name");
      vp_assert(seen.insert(gen->ShardName(s)).second, "shard names are unique");
      for (auto& l : ln) want.push_back(WantName(g, s) + "_" + l);
    }
  }
  vp_assert(GetBreakdownNamesFromConfig(config) == want, "one name per shard and level in the order of the metrics");
  MotionMetricsConfig mc;
  const int ns = vp_choice("steps", 3);
  std::vector<std::string> mw;
  std::vector<int> st;
  for (int i = 0; i < ns; ++i) { st.push_back(vp_choice("step", 3) * 4 + 3); mc.add_step_configurations()->set_measurement_step(st.back()); }
  for (const char* t : {"TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_CYCLIST"}) for (int s : st) mw.push_back(std::string(t) + "_" + std::to_string(s));
  vp_assert(GetBreakdownNamesFromMotionConfig(mc) == mw, "motion breakdown names");
#endif
  vp_reach("end");
}
