// Shared helpers for the camera model harnesses.
#pragma once
#include <cmath>
#include <string>
#include "vp.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"
using namespace waymo::open_dataset;
const double NONE = -1e40;  // not written
struct P3 { double x, y, z; };
struct Rt { double r[9]; double t[3]; };
inline Rt MakeRt(int k) {  // rigid motions; 0..3 are exact, 4 is a 3-4-5 rotation, 5 a general one
  static const double R[6][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, -1, 0, 1, 0, 0, 0, 0, 1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {-1, 0, 0, 0, 0, 1, 0, 1, 0}, {0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1},
                                 {0.36, 0.48, -0.8, -0.8, 0.6, 0, 0.48, 0.64, 0.6}};
  static const double T[6][3] = {{0, 0, 0}, {2, -0.5, 1.75}, {1000, -300, 20}, {1.5, 0, 2}, {-40, 12, 3}, {5, 7, -1}};
  Rt m; for (int i = 0; i < 9; ++i) m.r[i] = R[k][i]; for (int i = 0; i < 3; ++i) m.t[i] = T[k][i]; return m;
}
inline P3 Mul(const Rt& m, P3 p) { return {m.r[0] * p.x + m.r[1] * p.y + m.r[2] * p.z + m.t[0], m.r[3] * p.x + m.r[4] * p.y + m.r[5] * p.z + m.t[1], m.r[6] * p.x + m.r[7] * p.y + m.r[8] * p.z + m.t[2]}; }
inline P3 Rot(const Rt& m, P3 p) { return {m.r[0] * p.x + m.r[1] * p.y + m.r[2] * p.z, m.r[3] * p.x + m.r[4] * p.y + m.r[5] * p.z, m.r[6] * p.x + m.r[7] * p.y + m.r[8] * p.z}; }
inline P3 RotT(const Rt& m, P3 p) { return {m.r[0] * p.x + m.r[3] * p.y + m.r[6] * p.z, m.r[1] * p.x + m.r[4] * p.y + m.r[7] * p.z, m.r[2] * p.x + m.r[5] * p.y + m.r[8] * p.z}; }
inline void Put(const Rt& m, Transform* t) { for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) t->add_transform(m.r[3 * i + j]); t->add_transform(m.t[i]); } for (int i = 0; i < 4; ++i) t->add_transform(i == 3); }
inline CameraCalibration Calib(double fu, double fv, double cu, double cv, int w, int h, const Rt& ext, CameraCalibration::RollingShutterReadOutDirection d) {
  CameraCalibration c; const double in[4] = {fu, fv, cu, cv}; for (double v : in) c.add_intrinsic(v); for (int i = 0; i < 5; ++i) c.add_intrinsic(0);
  Put(ext, c.mutable_extrinsic()); c.set_width(w); c.set_height(h); c.set_rolling_shutter_direction(d); return c;
}
inline void Pose(const Rt& pose, CameraImage* i) { i->clear_pose(); Put(pose, i->mutable_pose()); }
inline double Abs(double v) { return vp_ite(v < 0, 0 - v, v); }
inline bool Near(double a, double b, double e) { return vp_and(a - b < e, b - a < e); }
struct Lens { double k[5]; };
const Lens kLens[4] = {{{0, 0, 0, 0, 0}}, {{-0.3, 0.08, 0, 0, 0}}, {{0.04, -0.35, 0.002, -0.001, 0.05}}, {{0.25, 0, -0.004, 0.003, 0}}};
