// K01: projection into an image and back with a global shutter.
#include "k.h"
extern "C" void vp_property() {
  const int cal = vp_choice("calibration", 2);
  const double fu = cal ? 2048 : 1000, fv = cal ? 2055.5 : 1000, cu = cal ? 953.25 : 320, cv = cal ? 640.5 : 200; const int w = cal ? 1920 : 640, h = cal ? 1280 : 400;
#if MODE == 0  // pixel and depth to the world and back, no distortion
  const int rot = VARY ? 0 : vp_choice("rotation", 3); const Rt ext = MakeRt(rot == 0 ? 2 : rot == 1 ? 4 : 1), pose = MakeRt(rot == 0 ? 1 : rot == 1 ? 3 : 5);
  CameraModel m(Calib(fu, fv, cu, cv, w, h, ext, CameraCalibration::GLOBAL_SHUTTER)); CameraImage im; Pose(pose, &im); m.PrepareProjection(im);
  const double ds[3] = {0.25, 8, 75.5};
  const double u = vp_grid("u", -2400, 9600, 2), v = vp_grid("v", -2400, 7200, 2), d = VARY ? vp_grid("depth", 1, 6400, 6) : ds[vp_choice("depth", 3)];
  P3 p; m.ImageToWorld(u, v, d, &p.x, &p.y, &p.z);
  const P3 cam{d, 0 - (u - cu) / fu * d, 0 - (v - cv) / fv * d};
  const P3 wv = Mul(ext, cam), ww = Mul(pose, wv);
  vp_assert(vp_and(Near(p.x, ww.x, 1e-8), vp_and(Near(p.y, ww.y, 1e-8), Near(p.z, ww.z, 1e-8))), "a pixel with depth is the point on its ray at that depth");
  P3 q; m.ImageToVehicleGlobalShutter(u, v, d, &q.x, &q.y, &q.z);
  vp_assert(vp_and(Near(q.x, wv.x, 1e-8), vp_and(Near(q.y, wv.y, 1e-8), Near(q.z, wv.z, 1e-8))), "the same point in the vehicle frame");
  const bool check = vp_choice("check", 2); double a = NONE, b = NONE, c = NONE;
  const bool seen = VARY || vp_choice("with_depth", 2) ? m.WorldToImageWithDepth(p.x, p.y, p.z, check, &a, &b, &c) : m.WorldToImage(p.x, p.y, p.z, check, &a, &b);
  vp_assert(vp_and(Near(a, u, 1e-6), Near(b, v, 1e-6)), "projecting the point returns the pixel");
  vp_assert(vp_or(c == NONE, Near(c, d, 1e-8)), "projecting the point returns the depth");
  vp_assert(seen == (check ? m.InImage(a, b) : true), "reported as visible exactly inside the image, or anywhere when bounds are not checked");
  const bool in = vp_and(vp_and(u >= 0, u < w), vp_and(v >= 0, v < h));
  vp_assert(m.InImage(u, v) == in, "inside the image: 0 <= u < width and 0 <= v < height");
  if (seen && check) vp_reach("inside");
#elif MODE == 1  // any point, no distortion
  const int rot = vp_choice("rotation", 3); const Rt ext = MakeRt(rot), pose = MakeRt(3 - rot);
  CameraModel m(Calib(fu, fv, cu, cv, w, h, ext, CameraCalibration::GLOBAL_SHUTTER)); CameraImage im; Pose(pose, &im);
  if (vp_choice("prepared_before", 2)) { CameraImage o; Pose(MakeRt(4), &o); m.PrepareProjection(o); }
  m.PrepareProjection(im);
  const double x = vp_grid("ahead", -64, 128, 2), y = vp_grid("left", -256, 256, 2), z = ZS;
  const P3 p = Mul(pose, Mul(ext, {x, y, z})); const bool check = vp_choice("check", 2); double a = NONE, b = NONE, c = NONE;
  const bool seen = m.WorldToImageWithDepth(p.x, p.y, p.z, check, &a, &b, &c);
  if (x <= 0) { vp_assert(!seen && a == -1 && b == -1 && c == -1, "a point behind the camera is never visible"); vp_reach("behind"); vp_reach("end"); return; }
  vp_assert(vp_and(Near((a - cu) * x, 0 - fu * y, 1e-6), Near((b - cv) * x, 0 - fv * z, 1e-6)), "projection through the pinhole");
  vp_assert(c == x, "depth along the axis");
  const bool in = vp_and(vp_and((a) >= 0, a < w), vp_and(b >= 0, b < h)); vp_assert(seen == (check ? in : true), "reported as visible exactly inside the image, or anywhere when bounds are not checked");
  if (seen) vp_reach("inside");
#elif MODE == 2  // lens distortion
  const Lens L = kLens[1 + vp_choice("lens", 3)]; auto cc = Calib(fu, fv, cu, cv, w, h, MakeRt(0), CameraCalibration::GLOBAL_SHUTTER); for (int i = 0; i < 5; ++i) cc.set_intrinsic(4 + i, L.k[i]);
  CameraModel m(cc); CameraImage im; Pose(MakeRt(0), &im); m.PrepareProjection(im);
  const double fix[5] = {0, 0.25, -0.5, 0.125, -1}; const double s = vp_grid("direction", -192, 192, 7) + 0.00390625, f = fix[vp_choice("across", 5)]; const double un = DIR ? s : f, vn = DIR ? f : s;
  const bool check = vp_choice("check", 2); double a = NONE, b = NONE, c = NONE; const double x = 4;
  const bool seen = m.WorldToImageWithDepth(x, 0 - un * x, 0 - vn * x, check, &a, &b, &c);
  const double r2 = un * un + vn * vn, rd = 1 + L.k[0] * r2 + L.k[1] * r2 * r2 + L.k[4] * r2 * r2 * r2;
  const double ud = cu + fu * (un * rd + 2 * L.k[2] * un * vn + L.k[3] * (r2 + 2 * un * un)), vd = cv + fv * (vn * rd + L.k[2] * (r2 + 2 * vn * vn) + 2 * L.k[3] * un * vn);
  const bool trust = vp_and(rd > 0.8 + 1e-9, rd < 1.2 - 1e-9), far = vp_or(rd < 0.8 - 1e-9, rd > 1.2 + 1e-9);
  vp_assert(c == x, "depth along the axis");
  if (far) { vp_assert(!seen, "too large a distortion is never trusted"); vp_assert(!m.InImage(a, b), "an untrusted point is placed outside the image"); vp_reach("far"); vp_reach("end"); return; }
  if (trust) {
    vp_assert(vp_and(Near(a, ud, 1e-6), Near(b, vd, 1e-6)), "pixel of the documented lens model");
    const bool in = vp_and(vp_and(a >= 0, a < w), vp_and(b >= 0, b < h)); vp_assert(seen == (check ? in : true), "visible exactly inside the image, or anywhere when bounds are not checked");
    vp_reach("inside"); }
#elif MODE == 3  // lens distortion undone: a grid of pixels
  const Lens L = kLens[1 + vp_choice("lens", 3)]; auto cc = Calib(fu, fv, cu, cv, w, h, MakeRt(2), CameraCalibration::GLOBAL_SHUTTER); for (int i = 0; i < 5; ++i) cc.set_intrinsic(4 + i, L.k[i]);
  CameraModel m(cc); CameraImage im; Pose(MakeRt(4), &im); m.PrepareProjection(im);
  const double dx = vp_choice("u", 9) / 8.0, dy = vp_choice("v", 9) / 8.0, u = w * dx, v = h * dy, d = vp_choice("depth", 2) ? 30 : 1.5;
  P3 p; m.ImageToWorld(u, v, d, &p.x, &p.y, &p.z); double a = NONE, b = NONE, c = NONE; const bool seen = m.WorldToImageWithDepth(p.x, p.y, p.z, true, &a, &b, &c);
  vp_assert(Near(a, u, 1e-3) && Near(b, v, 1e-3) && Near(c, d, 1e-6), "projecting the point returns the pixel and depth");
  if (dx > 0 && dx < 1 && dy > 0 && dy < 1) { vp_assert(seen, "visible"); vp_reach("inside"); }
#endif
  vp_reach("end");
}
