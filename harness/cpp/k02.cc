// K02: projection with a rolling shutter.
#include "k.h"
using CC = CameraCalibration;
extern "C" void vp_property() {
  const int cal = vp_choice("calibration", 2);
  const double fu = cal ? 2048 : 1024, fv = cal ? 2056 : 1024, cu = cal ? 953.25 : 320, cv = cal ? 640.5 : 200; const int w = cal ? 1920 : 640, h = cal ? 1280 : 400;
  const CC::RollingShutterReadOutDirection dirs[4] = {CC::TOP_TO_BOTTOM, CC::LEFT_TO_RIGHT, CC::BOTTOM_TO_TOP, CC::RIGHT_TO_LEFT}; const int dk = vp_choice("readout", 4); const auto dir = dirs[dk]; const bool hor = dk % 2;
  const Rt ext = MakeRt(MODE == 3 ? 0 : vp_choice("mounting", 2) * 2), pose = MakeRt(MODE == 3 ? 0 : 1);
  const CameraCalibration calib = Calib(fu, fv, cu, cv, w, h, ext, dir);
  // exposure: trigger, shutter and readout times; the pose is given for some instant near by
  const double trig = 100, shutter = 0.0078125, done = trig + shutter + (vp_choice("readout_time", 2) ? 0.03125 : 0.015625), readout = done - trig - shutter;
  const double pt = trig + (MODE == 0 ? vp_grid("pose_time", -64, 64, 10) : vp_choice("pose_time", 2) * 0.03125 - 0.0078125);
  CameraImage im; Pose(pose, &im); im.set_shutter(shutter); im.set_camera_trigger_time(trig); im.set_camera_readout_done_time(done); im.set_pose_timestamp(pt);
  // time at which the sensor line of a pixel is exposed (middle of the exposure), relative to the pose
  auto when = [&](double u, double v) { const double f = hor ? u / w : v / h; return trig + 0.5 * shutter + readout * (dk < 2 ? f : 1 - f) - pt; };
  Velocity* vel = im.mutable_velocity();
  const bool check = vp_choice("check", 2); double a = NONE, b = NONE, c = NONE;
#if MODE == 0  // nothing moves: the same as with a global shutter
  vel->set_v_x(0); vel->set_v_y(0); vel->set_v_z(0); vel->set_w_x(0); vel->set_w_y(0); vel->set_w_z(0);
  CameraModel m(calib); m.PrepareProjection(im); const double x = XS, y = vp_grid("left", -256, 256, 2), z = vp_grid("up", -256, 256, 2); const P3 p = Mul(pose, Mul(ext, {x, y, z}));
  const bool seen = m.WorldToImageWithDepth(p.x, p.y, p.z, check, &a, &b, &c);
  if (x <= 0) { vp_assert(!seen && a == -1 && b == -1 && c == -1, "a point behind the camera is never visible"); vp_reach("behind"); vp_reach("end"); return; }
  CameraCalibration g = calib; g.set_rolling_shutter_direction(CC::GLOBAL_SHUTTER); CameraModel n(g); n.PrepareProjection(im); double a2 = NONE, b2 = NONE, c2 = NONE; const bool seen2 = n.WorldToImageWithDepth(p.x, p.y, p.z, check, &a2, &b2, &c2);
  vp_assert(vp_and(Near(a, a2, 1e-6), vp_and(Near(b, b2, 1e-6), Near(c, c2, 1e-6))), "without motion the pixel and depth are those of a global shutter");
  const bool edge = vp_or(vp_or(Near(a2, 0, 1e-6), Near(a2, w, 1e-6)), vp_or(Near(b2, 0, 1e-6), Near(b2, h, 1e-6))); vp_assert(vp_or(edge, seen == seen2), "without motion visibility is that of a global shutter");
  P3 q; m.ImageToWorld(a, b, c, &q.x, &q.y, &q.z); vp_assert(vp_and(Near(p.x, q.x, 1e-6), vp_and(Near(p.y, q.y, 1e-6), Near(p.z, q.z, 1e-6))), "back-projecting the pixel at its depth returns the point");
  if (seen) vp_reach("inside");
#else
  // velocity of the vehicle in the world and of the point, turn rate about the optical axis; the camera frame is carried along
  const double vs[4] = {0, 12, -25, 6}; P3 V{0, 0, 0}, O{0, 0, 0}, U{0, 0, 0};
#if MODE == 1  // sideways and vertical motion of camera and point, in the camera frame
  const double lat = vs[vp_choice("sideways", 4)], up = vs[vp_choice("upward", 2)]; const int pk = vp_choice("point_moves", 3); if (pk == 1) U = {0, -8, 3}; if (pk == 2) U = {0, 15, 0}; const P3 VC{0, lat, up};
#elif MODE == 2  // the vehicle turns such that the camera rolls about its axis
  const double rates[3] = {0.5, -1, 0.25}; const double roll = rates[vp_choice("roll", 3)]; const P3 VC{0, 0, 0};
#else  // forward motion and yaw
  const double fw = vs[vp_choice("forward", 4)], yr = vp_choice("yaw", 3) * 0.25 - 0.25; const P3 VC{fw, 0, 0};
#endif
#if MODE == 2
  const P3 WC{roll, 0, 0};
#elif MODE == 3
  const P3 WC{0, 0, yr};
#else
  const P3 WC{0, 0, 0};
#endif
  const P3 vw = Rot(pose, Rot(ext, VC)), wv = Rot(ext, WC), ww = Rot(pose, wv), arm = Rot(pose, P3{ext.t[0], ext.t[1], ext.t[2]});
  // the velocity given is that of the vehicle origin; the camera is mounted at arm's length from it
  const P3 lever{ww.y * arm.z - ww.z * arm.y, ww.z * arm.x - ww.x * arm.z, ww.x * arm.y - ww.y * arm.x};
  vel->set_v_x(vw.x - lever.x); vel->set_v_y(vw.y - lever.y); vel->set_v_z(vw.z - lever.z); vel->set_w_x(wv.x); vel->set_w_y(wv.y); vel->set_w_z(wv.z);
  CameraModel m(calib); m.PrepareProjection(im);
  const double xs[3] = {4, 10, 50}; const double x = xs[vp_choice("ahead", 3)];
#if MODE >= 2  // (enumerated)
  const double gs[7] = {-0.375, -0.21875, -0.0625, 0, 0.125, 0.25, 0.34375}; const double y = gs[vp_choice("left", 7)] * x, z = gs[vp_choice("up", 7)] * x;
#else
  const double y = vp_grid("left", -256, 256, 3), z = vp_grid("up", -256, 256, 3);
#endif
  const P3 p = Mul(pose, Mul(ext, {x, y, z})), pu = Rot(pose, Rot(ext, U));
  const bool moving = U.y != 0 || U.z != 0;
  const bool seen = moving ? m.WorldToImageMovingPointWithDepth(p.x, p.y, p.z, pu.x, pu.y, pu.z, check, &a, &b, &c) : m.WorldToImageWithDepth(p.x, p.y, p.z, check, &a, &b, &c);
  if (a == NONE) { vp_assert(!seen, "nothing is reported when the search for the exposure time fails"); vp_reach("failed"); vp_reach("end"); return; }
  const double t = when(a, b);  // exposure of the reported pixel, relative to the pose
  // camera frame coordinates of the point at that time: p + t u, seen from the camera moved by t v and turned by t w (to first order)
  const P3 r{x + t * (U.x - VC.x), y + t * (U.y - VC.y), z + t * (U.z - VC.z)};
  const P3 s{r.x - t * (WC.y * r.z - WC.z * r.y), r.y - t * (WC.z * r.x - WC.x * r.z), r.z - t * (WC.x * r.y - WC.y * r.x)};
  vp_assert(vp_and(Near((a - cu) * s.x, 0 - fu * s.y, TOL * x), Near((b - cv) * s.x, 0 - fv * s.z, TOL * x)), "the pixel is where the point is seen at the pixel's own exposure time");
  vp_assert(Near(c, s.x, 1e-3), "the depth is that at the pixel's own exposure time");
  const bool in = vp_and(vp_and(a >= 0, a < w), vp_and(b >= 0, b < h)); vp_assert(seen == (check ? in : true), "reported as visible exactly inside the image, or anywhere when bounds are not checked");
  if (!moving) { P3 q; m.ImageToWorld(a, b, c, &q.x, &q.y, &q.z); vp_assert(vp_and(Near(p.x, q.x, BACK), vp_and(Near(p.y, q.y, BACK), Near(p.z, q.z, BACK))), "back-projecting the pixel at its depth returns the point"); }
  if (seen) vp_reach("inside");
#endif
  vp_reach("end");
}
