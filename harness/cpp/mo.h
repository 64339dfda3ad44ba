// Shared helpers for the motion metrics harnesses.
#pragma once
#include <cmath>
#include <functional>
#include <numeric>
#include <string>
#include <vector>
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/motion_submission.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
#include "vp.h"
using namespace waymo::open_dataset;
// history samples, future samples, track steps per prediction step
inline MotionMetricsConfig MakeConfig(int history, int future, int ratio, int k) {
  MotionMetricsConfig c;
  c.set_track_steps_per_second(ratio); c.set_prediction_steps_per_second(1);
  c.set_track_history_samples(history); c.set_track_future_samples(future); c.set_max_predictions(k);
  return c;
}
inline void AddStep(MotionMetricsConfig* c, int step, float lat, float lon) {
  auto* s = c->add_step_configurations(); s->set_measurement_step(step); s->set_lateral_miss_threshold(lat); s->set_longitudinal_miss_threshold(lon);
}
inline Track* AddTrack(Scenario* s, int id, Track::ObjectType type, int n) {
  Track* t = s->add_tracks(); t->set_id(id); t->set_object_type(type);
  for (int i = 0; i < n; ++i) { auto* st = t->add_states(); st->set_valid(true); st->set_center_x(0); st->set_center_y(0); st->set_length(4); st->set_width(2); st->set_heading(0); st->set_velocity_x(20); st->set_velocity_y(0); }
  return t;
}
inline SingleTrajectory* AddTrajectory(JointTrajectories* j, int id, const std::vector<float>& x, const std::vector<float>& y) {
  SingleTrajectory* t = j->add_trajectories(); t->set_object_id(id);
  for (float v : x) t->add_center_x(v);
  for (float v : y) t->add_center_y(v);
  return t;
}
inline double Abs(double v) { return vp_ite(v < 0, 0 - v, v); }
