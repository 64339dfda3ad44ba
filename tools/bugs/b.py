H = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); std::exit(1); } } while (0)
'''
CAM = H + r'''
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"
using namespace waymo::open_dataset;
'''
MOT = H + r'''
#include "absl/container/flat_hash_map.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
using namespace waymo::open_dataset;
// one history step and n future steps at the prediction rate; two seconds per step
static MotionMetricsConfig Cfg(int n, int k = 6) {
  MotionMetricsConfig c; c.set_track_steps_per_second(1); c.set_prediction_steps_per_second(1); c.set_track_history_samples(0); c.set_track_future_samples(n);
  c.set_speed_lower_bound(1); c.set_speed_upper_bound(2); c.set_speed_scale_lower(1); c.set_speed_scale_upper(1); c.set_max_predictions(k);
  auto* s = c.add_step_configurations(); s->set_measurement_step(n - 1); s->set_lateral_miss_threshold(1); s->set_longitudinal_miss_threshold(2); return c;
}
static Track* AddTrack(Scenario* s, int id, int n, double x, double y, double vx, double heading = 0) {
  auto* t = s->add_tracks(); t->set_id(id); t->set_object_type(Track::TYPE_VEHICLE);
  for (int i = 0; i <= n; ++i) { auto* o = t->add_states(); o->set_valid(true); o->set_center_x(x + vx * i); o->set_center_y(y); o->set_length(2); o->set_width(1); o->set_height(1); o->set_heading(heading); o->set_velocity_x(vx); o->set_velocity_y(0); }
  return t;
}
static SingleTrajectory* AddTraj(MultimodalPrediction* m, int id, std::vector<double> x, std::vector<double> y, float conf = 1) {
  auto* j = m->add_joint_predictions(); j->set_confidence(conf); auto* t = j->add_trajectories(); t->set_object_id(id); for (double v : x) t->add_center_x(v); for (double v : y) t->add_center_y(v); return t;
}
'''
SC = H + r'''
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
using namespace waymo::open_dataset;
static Scenario Base(MotionExampleConversionConfig* c) {
  c->set_num_past_steps(1); c->set_num_future_steps(1); c->set_max_num_agents(2); c->set_max_num_modeled_agents(1); c->set_max_roadgraph_samples(12); c->set_max_traffic_light_control_points_per_step(1);
  c->set_source_polyline_spacing(0.5); c->set_polyline_sample_spacing(0.5); c->set_polygon_sample_spacing(1);
  Scenario s; s.set_scenario_id("s"); s.set_sdc_track_index(0); for (int i = 0; i < 2; ++i) s.add_timestamps_seconds(i);
  auto* t = s.add_tracks(); t->set_id(1); t->set_object_type(Track::TYPE_VEHICLE); for (int i = 0; i < 2; ++i) t->add_states()->set_valid(true); s.add_tracks_to_predict()->set_track_index(0); return s;
}
'''
def bug(i, prop, edits, needs, breaks, cc=None, py=None): BUGS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, **(dict(cc=cc) if cc else dict(py=py)))
bug("lever-arm-frame", "K02", [("wdl_limited/camera/camera_model.cc", """      n_tfm_vehicle0.rotation() * vehicle_tfm_cam.translation();
""", """      vehicle_tfm_cam.translation();
""")], "a turning vehicle whose heading in the world is not zero and a camera away from the vehicle origin", "the camera velocity used for the rolling shutter is that of a point elsewhere on the vehicle",
CAM + r'''int main() {
  CameraCalibration c; for (double v : {1000., 1000., 500., 400., 0., 0., 0., 0., 0.}) c.add_intrinsic(v); c.set_width(1000); c.set_height(800); c.set_rolling_shutter_direction(CameraCalibration::LEFT_TO_RIGHT);
  const double ext[16] = {1, 0, 0, 3, 0, 1, 0, 0, 0, 0, 1, 2, 0, 0, 0, 1}, pose[16] = {0, -1, 0, 20, 1, 0, 0, 30, 0, 0, 1, 0, 0, 0, 0, 1};
  CameraImage im; for (int i = 0; i < 16; ++i) { c.mutable_extrinsic()->add_transform(ext[i]); im.mutable_pose()->add_transform(pose[i]); }
  im.set_camera_trigger_time(100); im.set_shutter(0); im.set_camera_readout_done_time(100.04); im.set_pose_timestamp(100.02); auto* v = im.mutable_velocity(); v->set_v_x(0); v->set_v_y(0); v->set_v_z(0); v->set_w_x(0); v->set_w_y(0); v->set_w_z(1);
  CameraModel m(c); m.PrepareProjection(im);
  // a point ahead (world +y) and 3 m to the left of the camera at (20, 33, 2)
  double a, b, d; EXPECT(m.WorldToImageWithDepth(20 - 3, 33 + 10, 2, true, &a, &b, &d));
  const double t = (a / 1000 - 0.5) * 0.04;  // exposure of the pixel relative to the pose; the camera turns by t and moves sideways by 3 t
  const double x = 10 + 3 * t, y = 3 - 3 * t - 10 * t; EXPECT(std::fabs(a - (500 - 1000 * y / x)) < 0.3);
}''')
bug("line-end-threshold", "S03", [("data_conversion/scenario_conversion.cc", "        (last_point - points.back()).Sqr() > kThreshold * kThreshold) {", "        (last_point - points.back()).Sqr() > kThreshold) {")],
 "a polyline whose last point is between 1 and 10 cm away from the last sample", "the end point of the polyline is missing",
SC + r'''int main() { MotionExampleConversionConfig c; Scenario s = Base(&c); c.set_polyline_sample_spacing(1.0); auto* f = s.add_map_features(); f->set_id(7); auto* l = f->mutable_road_line(); l->set_type(RoadLine::TYPE_SOLID_SINGLE_WHITE);
  for (double x : {0., 0.5, 1., 1.05}) { auto* p = l->add_polyline(); p->set_x(x); p->set_y(0); p->set_z(0); }
  auto r = ScenarioToExample(s, c); EXPECT(r.ok()); const auto& v = r->features().feature().at("roadgraph_samples/xyz").float_list(); EXPECT(std::fabs(v.value(6) - 1.05) < 1e-4); }''')
bug("turn-angle-wrap", "M22", [("metrics/motion_metrics_utils.cc", "      NormalizeAngle(end_state.heading() - start_state.heading());", "      end_state.heading() - start_state.heading();")],
 "a track that goes straight while its heading crosses from pi to -pi", "a straight drive is counted as a turn",
MOT + r'''int main() { Scenario s; auto* t = AddTrack(&s, 1, 3, 0, 0, -20, 3.1); t->mutable_states(3)->set_heading(-3.1); auto c = ClassifyTrack(0, *t); EXPECT(c.has_value()); EXPECT(*c == TrajectoryType::STRAIGHT); }''')
bug("map-skip-after-hit", "M21", [("metrics/motion_metrics.cc", "const bool skip_result = is_match && already_found_positive;", "const bool skip_result = already_found_positive;")],
 "a wrong prediction less confident than the matching one", "false positives after the first match do not lower the precision",
MOT + r'''int main() { auto c = Cfg(3); absl::flat_hash_map<std::string, Scenario> ss; absl::flat_hash_map<std::string, ScenarioPredictions> pp;
  for (int k = 0; k < 2; ++k) { const std::string id(1, 'a' + k); auto& s = ss[id]; s.set_scenario_id(id); s.set_current_time_index(0); for (int i = 0; i <= 3; ++i) s.add_timestamps_seconds(i); AddTrack(&s, 1, 3, 0, 0, 4); s.add_tracks_to_predict()->set_track_index(0); auto& p = pp[id]; p.set_scenario_id(id); auto* m = p.add_multi_modal_predictions();
    AddTraj(m, 1, {4, 8, 12}, {0, 0, 0}, k ? 0.125 : 1); AddTraj(m, 1, {4, 8, 12}, {9, 9, 9}, 0.5); }
  MotionMetrics r; EXPECT(ComputeMotionMetrics(c, pp, ss, &r).ok()); bool any = false; for (auto& b : r.metrics_bundles()) if (b.object_filter() == Track::TYPE_VEHICLE) { any = true; EXPECT(std::fabs(b.soft_mean_average_precision() - 0.75) < 0.01); } EXPECT(any); }''')
bug("miss-frame-current", "M19", [("metrics/motion_metrics.cc", ".Rotate(-track_state.heading());", ".Rotate(-track.states(config.track_history_samples()).heading());")],
 "an object whose heading changes between now and the measurement step, and different lateral and longitudinal thresholds", "the displacement is measured along the wrong axes",
MOT + r'''int main() { auto c = Cfg(3); absl::flat_hash_map<std::string, Scenario> ss; absl::flat_hash_map<std::string, ScenarioPredictions> pp; auto& s = ss["a"]; s.set_scenario_id("a"); s.set_current_time_index(0); for (int i = 0; i <= 3; ++i) s.add_timestamps_seconds(i);
  auto* t = AddTrack(&s, 1, 3, 0, 0, 4); t->mutable_states(3)->set_heading(M_PI / 2); s.add_tracks_to_predict()->set_track_index(0); auto& p = pp["a"]; p.set_scenario_id("a"); AddTraj(p.add_multi_modal_predictions(), 1, {4, 8, 13.5}, {0, 0, 0});
  MotionMetrics r; EXPECT(ComputeMotionMetrics(c, pp, ss, &r).ok()); bool any = false; for (auto& b : r.metrics_bundles()) if (b.object_filter() == Track::TYPE_VEHICLE) { any = true; EXPECT(b.miss_rate() == 1); } EXPECT(any); }''')
bug("overlap-skips-last", "M20", [("metrics/motion_metrics.cc", "for (int step = 0; step <= last_trajectory_step; ++step) {", "for (int step = 0; step < std::max(1, last_trajectory_step); ++step) {")],
 "a predicted trajectory that first touches another object at the measurement step", "the overlap is not counted",
MOT + r'''int main() { auto c = Cfg(3); absl::flat_hash_map<std::string, Scenario> ss; absl::flat_hash_map<std::string, ScenarioPredictions> pp; auto& s = ss["a"]; s.set_scenario_id("a"); s.set_current_time_index(0); for (int i = 0; i <= 3; ++i) s.add_timestamps_seconds(i);
  AddTrack(&s, 1, 3, 0, 0, 4); AddTrack(&s, 2, 3, 12, 0, 0); s.add_tracks_to_predict()->set_track_index(0); auto& p = pp["a"]; p.set_scenario_id("a"); AddTraj(p.add_multi_modal_predictions(), 1, {4, 8, 12}, {0, 0, 0});
  MotionMetrics r; EXPECT(ComputeMotionMetrics(c, pp, ss, &r).ok()); bool any = false; for (auto& b : r.metrics_bundles()) if (b.object_filter() == Track::TYPE_VEHICLE) { any = true; EXPECT(b.overlap_rate() == 1); } EXPECT(any); }''')
bug("joint-object-set-size", "M17", [("metrics/motion_metrics.cc", "    if (ids != trajectory_ids) {", "    if (ids.size() != trajectory_ids.size()) {")],
 "a prediction group whose joint predictions cover different objects, equally many", "an inconsistent group is accepted",
MOT + r'''int main() { auto c = Cfg(3); Scenario s; s.set_scenario_id("a"); s.set_current_time_index(0); for (int i = 0; i <= 3; ++i) s.add_timestamps_seconds(i); AddTrack(&s, 1, 3, 0, 0, 4); AddTrack(&s, 2, 3, 0, 9, 4); for (int i = 0; i < 2; ++i) s.add_tracks_to_predict()->set_track_index(i);
  ScenarioPredictions p; p.set_scenario_id("a"); auto* m = p.add_multi_modal_predictions(); AddTraj(m, 1, {4, 8, 12}, {0, 0, 0}); AddTraj(m, 2, {4, 8, 12}, {9, 9, 9}, 0.5);
  auto* m2 = p.add_multi_modal_predictions(); AddTraj(m2, 2, {4, 8, 12}, {9, 9, 9});
  BucketedMetricsStats st; EXPECT(!ComputeMetricsStats(c, p, s, &st).ok()); }''')
bug("inside-last-vertex", "G07", [("math/polygon2d.cc", "start_ix = mid_ix;", "start_ix = mid_ix + 1;")],
 "a convex polygon with enough vertices for the logarithmic search", "points in one of the sectors are reported as outside",
H + r'''
#include "waymo_open_dataset/math/polygon2d.h"
#include "waymo_open_dataset/math/vec2d.h"
using namespace waymo::open_dataset;
int main() { std::vector<Vec2d> p; for (int i = 0; i < 24; ++i) p.push_back(Vec2d(10 * std::cos(i * M_PI / 12), 10 * std::sin(i * M_PI / 12))); Polygon2d q(p); for (int a = -40; a <= 40; ++a) for (int b = -40; b <= 40; ++b) { const Vec2d v(a * 0.25, b * 0.25); double m = 1e9; for (int i = 0; i < 24; ++i) { Vec2d e = p[(i + 1) % 24] - p[i], f = v - p[i]; m = std::fmin(m, e.x() * f.y() - e.y() * f.x()); } if (m > 1e-6) EXPECT(q.PointInside(v)); if (m < -1e-6) EXPECT(!q.PointInside(v)); } }''')
bug("lights-after-gap", "S04", [("data_conversion/scenario_conversion.cc", "    const auto* dynamic_map_state =\n        (t_timestamps_step >= dynamic_map_states.size())", "    const auto* dynamic_map_state =\n        (t_timestamps_step + 1 >= dynamic_map_states.size() &&\n         t > num_past_steps)")],
 "a scenario with traffic lights up to its last step and at least two future steps", "the lights of the last step are missing",
SC + r'''int main() { MotionExampleConversionConfig c; Scenario s = Base(&c); c.set_num_future_steps(3); for (int i = 2; i < 4; ++i) { s.add_timestamps_seconds(i); s.mutable_tracks(0)->add_states()->set_valid(true); } for (int i = 0; i < 4; ++i) { auto* l = s.add_dynamic_map_states()->add_lane_states(); l->set_lane(40 + i); l->set_state(TrafficSignalLaneState::LANE_STATE_GO); }
  auto r = ScenarioToExample(s, c); EXPECT(r.ok()); const auto& v = r->features().feature().at("traffic_light_state/future/id").int64_list(); EXPECT(v.value(0) == 41); EXPECT(v.value(2) == 43); }''')
PYT = "from waymo_open_dataset.utils.compression import delta_encoder\nimport numpy as np\n"
bug("empty-range-image", "P01", [("utils/compression/delta_encoder.py", "  if x[0] == 0:\n    lengths = np.r_[0, lengths]", "  if x[0] == 0 and len(lengths) > 1:\n    lengths = np.r_[0, lengths]")],
 "a range image without any return", "an all-empty channel decodes as all-valid or fails",
 py=PYT + r'''
x = np.zeros((2, 3, 1), np.float32)
q = [0.1]
try:
  y = delta_encoder.decompress(delta_encoder.compress(x, q))
except Exception as e:
  print('FAILED', e); raise SystemExit(1)
assert y.shape == x.shape and (y == 0).all(), y
''')
bug("rollouts-all-but-last", "P05", [("utils/sim_agents/submission_specs.py", "  for joint_scene in scenario_rollouts.joint_scenes:\n", "  for joint_scene in scenario_rollouts.joint_scenes[:-1]:\n")],
 "a submission whose last rollout alone is malformed", "the malformed rollout is accepted",
 py=r'''
from waymo_open_dataset.protos import scenario_pb2, sim_agents_submission_pb2
from waymo_open_dataset.utils.sim_agents import submission_specs as ss
T = ss.ChallengeType.SIM_AGENTS
config = ss.get_submission_config(T)
s = scenario_pb2.Scenario(scenario_id='a', current_time_index=10, sdc_track_index=0)
t = s.tracks.add(id=3, object_type=scenario_pb2.Track.TYPE_VEHICLE)
for i in range(91): t.states.add(valid=True)
s.tracks_to_predict.add(track_index=0)
r = sim_agents_submission_pb2.ScenarioRollouts(scenario_id='a')
for k in range(config.n_rollouts):
  j = r.joint_scenes.add()
  n = config.n_simulation_steps - (k == config.n_rollouts - 1)
  z = [0.0] * n
  j.simulated_trajectories.add(object_id=3, center_x=z, center_y=z, center_z=z, heading=z)
try:
  ss.validate_scenario_rollouts(r, s, T)
except ValueError:
  raise SystemExit(0)
print('FAILED: accepted'); raise SystemExit(1)
''')
bug("let-negative-stretch", "M16", [("metrics/iou.cc", "clamped_multiplier = range_multiplier < 1.0 && range_multiplier >= 0.0\n                                 ? range_multiplier\n", "clamped_multiplier = range_multiplier < 1.0\n                                 ? range_multiplier\n")],
 "the alignment that only moves predictions that are further away, and a prediction on the other side of the sensor", "the prediction is mirrored through the sensor onto the ground truth",
H + r'''
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
using namespace waymo::open_dataset;
static Label::Box B(double x) { Label::Box b; b.set_center_x(x); b.set_center_y(0); b.set_center_z(0); b.set_length(4); b.set_width(2); b.set_height(2); b.set_heading(0); return b; }
int main() { typedef Config::LongitudinalErrorTolerantConfig L; L::Location3D s; s.set_x(0); s.set_y(0); s.set_z(0);
  EXPECT(ComputeLetIoU(B(-20), B(20), s, L::TYPE_FURTHER_ONLY_RANGE_ALIGNED, Label::Box::TYPE_3D) < 1e-6); }''')
