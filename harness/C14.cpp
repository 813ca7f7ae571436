// Rotations: matrices, quaternions, Euler angles (mat.h, mat_ext.h, quat.h)
// BOUND: real arithmetic; arbitrary angles, arbitrary unit axes, arbitrary unit quaternions, points with coordinates in [-10^5, 10^5]
// BOUND: rotation between two vectors: six from-vectors (axes and oblique) and arbitrary unit to-vectors, outside and (with error bound) inside the parallel band of 0.001
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/quat.h>
#include <cmath>
using namespace vp;
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> using M4 = vm::mat<T, 4, 4>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T> static T dot_(const V3<T>& a, const V3<T>& b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
template <typename T> static V3<T> cross_(const V3<T>& a, const V3<T>& b) {
  return V3<T>(a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]);
}
template <typename T> static V3<T> app(const M4<T>& m, const V3<T>& p) {
  V3<T> r;
  for (int i = 0; i < 3; ++i) r.v[i] = m.v[0].v[i] * p.v[0] + m.v[1].v[i] * p.v[1] + m.v[2].v[i] * p.v[2] + m.v[3].v[i];
  return r;
}
template <typename T> static void linear(const M4<T>& m) {
  for (int j = 0; j < 4; ++j) {
    eq(m.v[j].v[3], j == 3 ? T(1) : T(0), "a rotation keeps the origin and the homogeneous coordinate");
    eq(m.v[3].v[j], j == 3 ? T(1) : T(0), "a rotation keeps the origin and the homogeneous coordinate");
  }
}
template <typename T> static V3<T> unit(const char* n) {
  const auto v = numvec<T, 3>(n, T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(dot_(v, v) - T(1)) < T(1e-5)); else vp_assume(dot_(v, v) == T(1));
  return v;
}
// Rodrigues' formula: counter-clockwise about the unit axis k
template <typename T> static V3<T> rotated(const V3<T>& p, const V3<T>& k, T c, T s) {
  return c * p + s * cross_(k, p) + ((T(1) - c) * dot_(k, p)) * k;
}

template <typename T> static void constants() {
  const auto p = numvec<T, 3>("p");
  const int a = vp_choose("axis", 3);
  const auto ccw = a == 0 ? M4<T>::rot_90_x_ccw() : a == 1 ? M4<T>::rot_90_y_ccw() : M4<T>::rot_90_z_ccw();
  const auto cw = a == 0 ? M4<T>::rot_90_x_cw() : a == 1 ? M4<T>::rot_90_y_cw() : M4<T>::rot_90_z_cw();
  const auto half = a == 0 ? M4<T>::rot_180_x() : a == 1 ? M4<T>::rot_180_y() : M4<T>::rot_180_z();
  linear(ccw); linear(cw); linear(half);
  V3<T> k(T(0), T(0), T(0));
  k.v[a] = T(1);
  eq(app(ccw, p), rotated(p, k, T(0), T(1)), "quarter turn, counter-clockwise");
  eq(app(cw, p), rotated(p, k, T(0), T(-1)), "quarter turn, clockwise");
  eq(app(half, p), rotated(p, k, T(-1), T(0)), "half turn");
}
VP_REAL(constants_d) { constants<double>(); }
VP_REAL(constants_f) { constants<float>(); }

template <typename T> static void axis_angle() {
  const auto k = unit<T>("axis");
  const T a = num<T>("angle", T(-7), T(7));
  const auto p = numvec<T, 3>("p", T(-10), T(10));
  const auto m = vm::rotation_matrix(k, a);
  linear(m);
  eq(app(m, p), rotated(p, k, T(std::cos(a)), T(std::sin(a))), "rotation about an axis, counter-clockwise");
}
VP_REAL(axis_angle_d) { axis_angle<double>(); }
VP_REAL(axis_angle_f) { axis_angle<float>(); }

template <typename T> static void quaternion() {
  const auto k = unit<T>("axis");
  const T h = num<T>("half", T(-3), T(3));
  const auto p = numvec<T, 3>("p", T(-10), T(10));
  const vm::quat<T> q(k, T(2) * h);
  const T c = T(std::cos(h)), s = T(std::sin(h));
  eq(q.r, c, "the real part is the cosine of half the angle");
  eq(q.v, s * k, "the imaginary part is the axis times the sine of half the angle");
  eq(q * p, rotated(p, k, c * c - s * s, T(2) * s * c), "a quaternion rotates counter-clockwise about its axis");
  const auto m = vm::rotation_matrix(q);
  linear(m);
  eq(app(m, p), rotated(p, k, c * c - s * s, T(2) * s * c), "a quaternion and its matrix rotate alike");
  eq(q.conjugate() * (q * p), p, "the conjugate undoes the rotation");
}
VP_REAL(quaternion_d) { quaternion<double>(); }
VP_REAL(quaternion_f) { quaternion<float>(); }

// Hamilton's algebra
template <typename T> static vm::quat<T> anyq(const char* n) { const T r = num<T>(n, T(-10), T(10)); return vm::quat<T>(r, numvec<T, 3>(n, T(-10), T(10))); }
template <typename T> static void algebra() {
  const auto a = anyq<T>("a"), b = anyq<T>("b");
  const auto v = numvec<T, 3>("v", T(-10), T(10));
  const auto p = a * b;
  eq(p.r, a.r * b.r - dot_(a.v, b.v), "product, real part");
  eq(p.v, a.r * b.v + b.r * a.v + cross_(a.v, b.v), "product, imaginary part");
  eq(a.conjugate().r, a.r, "conjugation keeps the real part");
  eq(a.conjugate().v, V3<T>(-a.v.v[0], -a.v.v[1], -a.v.v[2]), "conjugation negates the imaginary part");
  eq((a * b) * v, a * (b * v), "a product of quaternions rotates by the right factor first");
  const vm::quat<T> d;
  eq(d.r, T(0), "the default quaternion is zero");
  eq(d.v, V3<T>(T(0), T(0), T(0)), "the default quaternion is zero");
  const auto pl = +a;
  eq(pl.r, a.r, "unary plus");
  eq(pl.v, a.v, "unary plus");
}
VP_REAL(algebra_d) { algebra<double>(); }
VP_REAL(algebra_f) { algebra<float>(); }
VP_REAL(quat_matrix) {
  // arbitrary unit quaternion
  const double r = num<double>("r", -1, 1);
  const auto v = numvec<double, 3>("v", -1, 1);
  if (vp_is_replay()) vp_assume(abs_(r * r + dot_(v, v) - 1.0) < 1e-6); else vp_assume(r * r + dot_(v, v) == 1.0);
  const vm::quat<double> q(r, v);
  const auto p = numvec<double, 3>("p", -10, 10);
  const auto m = vm::rotation_matrix(q);
  linear(m);
  eq(app(m, p), q * p, "a unit quaternion and its matrix rotate alike");
  const vm::quat<float> f(q);
  eq(f.r, float(r), "conversion");
  for (int i = 0; i < 3; ++i) eq(f.v.v[i], float(v.v[i]), "conversion");
}
// axis and angle of a quaternion
template <typename T> static void axis_of() {
  const auto k = unit<T>("axis");
  const T w = num<T>("w", T(-1), T(1)); // cosine of half the angle
  vp_assume(w <= T(0.99) && w >= T(-0.99));
  const T h = T(std::acos(w));
  const vm::quat<T> q(k, T(2) * h);
  const T a = q.angle();
  le(T(0), a, "the angle of a quaternion is not negative");
  le(a, vm::constants<T>::two_pi(), "the angle of a quaternion is at most a full turn");
  eq(T(std::cos(a / T(2))), w, "the angle of a quaternion is the rotation angle");
  eq(q.axis(), k, "the axis of a quaternion is the rotation axis");
}
VP_REAL(axis_of_d) { axis_of<double>(); }
VP_REAL(axis_of_f) { axis_of<float>(); }

// first roll about x, then pitch about y, then yaw about z
template <typename T> static void euler() {
  const T r = num<T>("roll", T(-7), T(7)), p = num<T>("pitch", T(-7), T(7)), y = num<T>("yaw", T(-7), T(7));
  const auto v = numvec<T, 3>("v", T(-10), T(10));
  const auto m = vm::rotation_matrix(r, p, y);
  linear(m);
  auto w = rotated(v, V3<T>(T(1), T(0), T(0)), T(std::cos(r)), T(std::sin(r)));
  w = rotated(w, V3<T>(T(0), T(1), T(0)), T(std::cos(p)), T(std::sin(p)));
  w = rotated(w, V3<T>(T(0), T(0), T(1)), T(std::cos(y)), T(std::sin(y)));
  eq(app(m, v), w, "roll, then pitch, then yaw");
}
VP_REAL(euler_d) { euler<double>(); }
VP_REAL(euler_f) { euler<float>(); }
// the Euler angles of a rotation matrix describe the same rotation
template <typename T> static void euler_back() {
  const T r = num<T>("roll", T(-3), T(3)), p = num<T>("pitch", T(-3), T(3)), y = num<T>("yaw", T(-3), T(3));
  if (vp_is_replay()) vp_assume(abs_(T(std::cos(p))) > T(0.01));
  const auto m = vm::rotation_matrix(r, p, y);
  const auto e = vm::rotation_matrix_to_euler_angles(m);
  const auto n = vm::rotation_matrix(e.v[0], e.v[1], e.v[2]);
  eq(n, m, "the Euler angles of a rotation reproduce it");
}
VP_REAL(euler_back_d) { euler_back<double>(); }
VP_REAL(euler_back_f) { euler_back<float>(); }
// gimbal lock: pitch of exactly a quarter turn
VP_REAL(euler_lock) {
  const double r = num<double>("roll", -3, 3), y = num<double>("yaw", -3, 3);
  const int up = vp_choose("up", 2);
  const double cr = std::cos(r), sr = std::sin(r), cy = std::cos(y), sy = std::sin(y), sp = up ? 1.0 : -1.0;
  // Y * P * R with cos(pitch) = 0
  const M4<double> m(0.0, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, 0.0, 0.0, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, 0.0, -sp, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0);
  const auto e = vm::rotation_matrix_to_euler_angles(m);
  const auto n = vm::rotation_matrix(e.v[0], e.v[1], e.v[2]);
  eq(n, m, "the Euler angles of a rotation in gimbal lock reproduce it");
}

// rotation of one unit vector onto another
template <typename T> static void fromto(bool band) {
  const int k = vp_choose("from", 6);
  V3<T> from(T(0), T(0), T(0));
  if (k < 3) from.v[k] = T(1);
  else if (k == 3) from.v[2] = T(-1);
  else if (k == 4) { from.v[0] = T(0.6); from.v[1] = T(-0.8); }
  else { from.v[1] = T(0.28); from.v[2] = T(0.96); }
  const auto to = unit<T>("to");
  const T co = dot_(from, to);
  if (!vp_is_replay()) vp_assume(co <= T(1) && co >= T(-1)); // Cauchy-Schwarz, a hint to the solver
  if (!band) {
    vp_assume(co <= T(0.99) && co >= T(-0.99));
    const vm::quat<T> q(from, to);
    eq(q * from, to, "the quaternion rotates the first vector onto the second");
    const auto n = cross_(from, to);
    eq(q * n, n, "about the axis perpendicular to both");
    const auto m = vm::rotation_matrix(from, to);
    linear(m);
    eq(app(m, from), to, "the matrix rotates the first vector onto the second");
  } else {
    vp_assume(co > T(0.9991) || co < T(-0.9991));
    const vm::quat<T> q(from, to);
    const auto r = q * from - to;
    const T d = dot_(r, r);
    le(d, T(0.0021), "nearly parallel vectors are rotated onto each other up to a small error");
    const auto n = q.r * q.r + dot_(q.v, q.v);
    eq(n, T(1), "the quaternion is a unit quaternion");
  }
}
VP_REAL(fromto_d) { fromto<double>(false); }
VP_REAL(fromto_f) { fromto<float>(false); }
VP_REAL(fromto_band_d) { fromto<double>(true); }
