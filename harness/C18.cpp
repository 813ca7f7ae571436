// Intersections of rays and lines with planes, boxes, spheres and tori, and of planes (intersection.h)
// BOUND: real arithmetic; coordinates, distances and radii in [-10^6, 10^6] (boxes, tori: [-10^5, 10^5]); arbitrary directions (unit length for planes and spheres)
// BOUND: sphere: eight directions and a fixed centre in three dimensions (thorough: any); box: in three dimensions the smaller corner is fixed and four sign patterns of the direction are covered (thorough: any)
// BOUND: plane/plane: pairs of eight unit normals (axes and oblique) with arbitrary distances, and four normals with arbitrary unit normals more than 0.001 from parallel
// BOUND: torus: the quartic solver is replaced by its contract (it reports up to four roots of the polynomial it is given; property C04)
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/bbox.h>
#include <vecmath/line.h>
#include <vecmath/plane.h>
#include <vecmath/ray.h>
#include <vecmath/intersection.h>
#include <cmath>
#include <tuple>
using namespace vp;
template <typename T, std::size_t S> using V = vm::vec<T, S>;
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T, std::size_t S> static T dot_(const V<T, S>& a, const V<T, S>& b) {
  T r = T(0);
  for (std::size_t i = 0; i < S; ++i) r = r + a.v[i] * b.v[i];
  return r;
}
template <typename T, std::size_t S> static V<T, S> unit(const char* n) {
  const auto v = numvec<T, S>(n, T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(dot_(v, v) - T(1)) < T(1e-5)); else vp_assume(dot_(v, v) == T(1));
  return v;
}
template <typename T, std::size_t S> static void ray_plane() {
  const auto n = unit<T, S>("normal"), o = numvec<T, S>("o"), d = unit<T, S>("d");
  const T w = num<T>("distance");
  const T r = vm::intersect_ray_plane(vm::ray<T, S>(o, d), vm::plane<T, S>(w, n));
  const T c = dot_(d, n), h = w - dot_(o, n);
  const T m = vp_is_replay() ? T(1e-3) : T(0);
  if (vp_is_replay()) vp_assume(abs_(c) < T(0.0005) || abs_(c) > T(0.05));
  if (nan(r)) vp_check((c <= T(0.001) && c >= T(-0.001)) || (c > T(0) ? h < T(-0.001) * c + m : h > T(-0.001) * c - m), "a ray misses a plane only if it is parallel or points away");
  else {
    eq(r * c, h, "the point of intersection lies on the plane");
    le(T(-0.001), r, "the point of intersection is not behind the origin");
    vp_check(c > T(0.001) || c < T(-0.001), "a ray parallel to a plane does not intersect it");
  }
}
VP_REAL(ray_plane_d2) { ray_plane<double, 2>(); }
VP_REAL(ray_plane_d3) { ray_plane<double, 3>(); }
VP_REAL(ray_plane_f3) { ray_plane<float, 3>(); }
template <typename T> static void line_plane() {
  const auto n = unit<T, 3>("normal"), o = numvec<T, 3>("o"), d = unit<T, 3>("d");
  const T w = num<T>("distance");
  const T r = vm::intersect_line_plane(vm::line<T, 3>(o, d), vm::plane<T, 3>(w, n));
  const T c = dot_(d, n), h = w - dot_(o, n);
  if (vp_is_replay()) vp_assume(abs_(c) < T(0.0005) || abs_(c) > T(0.05));
  if (nan(r)) vp_check(c <= T(0.001) && c >= T(-0.001), "a line misses a plane only if it is parallel");
  else {
    eq(r * c, h, "the point of intersection lies on the plane");
    vp_check(c > T(0.001) || c < T(-0.001), "a line parallel to a plane does not intersect it");
  }
}
VP_REAL(line_plane_d) { line_plane<double>(); }
VP_REAL(line_plane_f) { line_plane<float>(); }

template <typename T> static V3<T> dir(int k) {
  static const T D[8][3] = {{1, 0, 0}, {0, -1, 0}, {2, -1, -2}, {0, 0, 1}, {-3, 4, 0}, {0, 3, -4}, {-2, 1, 2}, {1, 2, 2}};
  const T l = k < 2 || k == 3 ? T(1) : k == 4 || k == 5 ? T(5) : T(3);
  return V3<T>(D[k][0] / l, D[k][1] / l, D[k][2] / l);
}
template <typename T> static void both(const vm::line<T, 3>& l, const V3<T>& n, const V3<T>& m, T a, T b) {
  eq(dot_(l.point, n), a, "the line lies in the first plane"); eq(dot_(l.direction, n), T(0), "the line lies in the first plane");
  eq(dot_(l.point, m), b, "the line lies in the second plane"); eq(dot_(l.direction, m), T(0), "the line lies in the second plane");
  eq(dot_(l.direction, l.direction), T(1), "the direction has unit length");
  const V3<T> x(n.v[1] * m.v[2] - n.v[2] * m.v[1], n.v[2] * m.v[0] - n.v[0] * m.v[2], n.v[0] * m.v[1] - n.v[1] * m.v[0]);
  le(T(0), dot_(l.direction, x), "the direction is that of the cross product of the normals");
}
template <typename T> static void plane_plane() {
  const int i = vp_choose("first", 8), j = vp_choose("second", 8);
  const auto n = dir<T>(i), m = dir<T>(j);
  const T a = num<T>("a"), b = num<T>("b");
  const auto l = vm::intersect_plane_plane(vm::plane<T, 3>(a, n), vm::plane<T, 3>(b, m));
  if (i == j || (i == 2 && j == 6) || (i == 6 && j == 2)) {
    for (int k = 0; k < 3; ++k) { eq(l.point.v[k], T(0), "parallel planes do not intersect"); eq(l.direction.v[k], T(0), "parallel planes do not intersect"); }
  } else both(l, n, m, a, b);
}
VP_REAL(plane_plane_d) { plane_plane<double>(); }
VP_REAL(plane_plane_f) { plane_plane<float>(); }
template <typename T> static void plane_any() {
  const auto n = dir<T>(vp_choose("first", 4)), m = unit<T, 3>("second");
  const T c = dot_(n, m);
  if (vp_is_replay()) vp_assume(c < T(0.99) && c > T(-0.99)); else vp_assume(c * c < T(0.999998));
  const T a = num<T>("a"), b = num<T>("b");
  both(vm::intersect_plane_plane(vm::plane<T, 3>(a, n), vm::plane<T, 3>(b, m)), n, m, a, b);
}
VP_REAL(plane_any_d) { plane_any<double>(); }

// r: the reported distance.  It lies in the box; any t >= 0 in the box is not before (outside) or not after (inside) it.
template <typename T, std::size_t S> static void ray_box(bool fixed) {
  V<T, S> lo, hi;
  for (std::size_t i = 0; i < S; ++i) { lo.v[i] = fixed ? T(3) * T(i) - T(2) : num<T>("min", T(-10), T(10)); hi.v[i] = num<T>("max", T(-10), T(10)); vp_assume(lo.v[i] <= hi.v[i]); }
  const auto o = numvec<T, S>("o", T(-20), T(20));
  auto d = numvec<T, S>("d", T(-4), T(4));
  if (fixed && S == 3) { // a sign for each component of the direction
    static const int sg[4][3] = {{1, -1, 0}, {-1, 1, 1}, {0, 1, -1}, {1, 0, -1}};
    const int k = vp_choose("signs", 4);
    for (std::size_t i = 0; i < S; ++i) {
      if (sg[k][i] > 0) vp_assume(d.v[i] > T(0)); else if (sg[k][i] < 0) vp_assume(d.v[i] < T(0)); else d.v[i] = T(0);
    }
  }
  const T t = num<T>("t", T(0), T(100));
  bool z = true, in = true, hit = true;
  const T m = vp_is_replay() ? T(1e-2) : T(0);
  for (std::size_t i = 0; i < S; ++i) {
    z = z & (d.v[i] == T(0));
    in = in & (o.v[i] >= lo.v[i]) & (o.v[i] <= hi.v[i]);
    if (vp_is_replay()) { vp_assume(d.v[i] == T(0) || abs_(d.v[i]) > T(0.05)); vp_assume(abs_(o.v[i] - lo.v[i]) > T(0.01) || o.v[i] == lo.v[i]); vp_assume(abs_(o.v[i] - hi.v[i]) > T(0.01) || o.v[i] == hi.v[i]); }
    const T x = o.v[i] + t * d.v[i];
    hit = hit & (x >= lo.v[i] + (d.v[i] == T(0) ? T(0) : m)) & (x <= hi.v[i] - (d.v[i] == T(0) ? T(0) : m));
  }
  vp_assume(!z);
  const T r = vm::intersect_ray_bbox(vm::ray<T, S>(o, d), vm::bbox<T, S>(lo, hi));
  if (nan(r)) vp_check(!hit, "a ray misses a box only if no point of it lies in the box");
  else {
    le(T(0), r, "the point of intersection is not behind the origin");
    for (std::size_t i = 0; i < S; ++i) {
      le(lo.v[i], o.v[i] + r * d.v[i], "the point of intersection lies in the box");
      le(o.v[i] + r * d.v[i], hi.v[i], "the point of intersection lies in the box");
    }
    if (hit & in) vp_check(t <= r + m, "a ray starting inside a box hits it where it leaves");
    if (hit & !in) vp_check(t >= r - m, "a ray starting outside a box hits it where it enters");
  }
}
VP_REAL(ray_box_d1) { ray_box<double, 1>(false); }
VP_REAL(ray_box_d2) { ray_box<double, 2>(false); }
VP_REAL(ray_box_d3) { ray_box<double, 3>(true); }
VP_REAL(ray_box_f2) { ray_box<float, 2>(true); }
VP_REAL_T(ray_box_any) { ray_box<double, 3>(false); }

template <typename T, std::size_t S> static void ray_sphere(const V<T, S>& d, const V<T, S>& c) {
  const auto o = numvec<T, S>("o");
  const T R = num<T>("radius", T(0.01), T(1000000));
  const T r = vm::intersect_ray_sphere(vm::ray<T, S>(o, d), c, R);
  const V<T, S> w = o - c;
  const T wd = dot_(w, d), q = dot_(w, w) - R * R;
  if (vp_is_replay()) vp_assume(abs_(q) > T(0.01) && abs_(wd * wd - q) > T(0.1) && abs_(wd) > T(0.01));
  if (nan(r)) vp_check(wd * wd < q || (wd > T(0) && q > T(0)), "a ray misses a sphere only if it does not reach it");
  else {
    le(T(0), r, "the point of intersection is not behind the origin");
    eq(r * r + T(2) * wd * r + q, T(0), "the point of intersection lies on the sphere");
    const T s = T(-2) * wd - r; // the other point
    vp_check(s <= T(0) || s >= r || (vp_is_replay() && s < T(1e-3)), "the closest point of intersection is reported");
  }
}
VP_REAL(ray_sphere_d2) { ray_sphere<double, 2>(unit<double, 2>("d"), numvec<double, 2>("centre")); }
VP_REAL(ray_sphere_d3) { ray_sphere<double, 3>(dir<double>(vp_choose("direction", 8)), V3<double>(1, -2, 3)); }
VP_REAL(ray_sphere_f3) { ray_sphere<float, 3>(dir<float>(vp_choose("direction", 8)), V3<float>(1, -2, 3)); }
VP_REAL_T(ray_sphere_any) { ray_sphere<double, 3>(unit<double, 3>("d"), numvec<double, 3>("centre")); }

// contract of the quartic solver: up to four values, roots of the given polynomial
static int torus_n; static double torus_s[4], torus_c[5];
extern "C" std::tuple<std::size_t, double, double, double, double> vp_stub_solve_quartic(double a, double b, double c, double d, double e, double) {
  torus_c[0] = e; torus_c[1] = d; torus_c[2] = c; torus_c[3] = b; torus_c[4] = a;
  torus_n = vp_choose("~roots", 5);
  for (int i = 0; i < 4; ++i) {
    torus_s[i] = vm::nan<double>();
    if (i < torus_n) {
      const double s = vp_f64("~root");
      vp_assume(s >= -100 && s <= 100);
      torus_s[i] = s;
    }
  }
  return {std::size_t(torus_n), torus_s[0], torus_s[1], torus_s[2], torus_s[3]};
}
VP_CFG(torus, "stub=1")
VP_REAL(torus) {
  const auto c = numvec<double, 3>("centre", -10, 10), o = numvec<double, 3>("o", -10, 10), d = numvec<double, 3>("d", -1, 1);
  const double M = num<double>("major", 1, 1000), m = num<double>("minor", 0.1, 1000), t = num<double>("t", -100, 100);
  torus_n = -1;
  const double r = vm::intersect_ray_torus(vm::ray<double, 3>(o, d), c, M, m);
  const auto p = o + (vp_is_replay() ? r : t) * d - c;
  if (vp_is_replay()) {
    if (!nan(r)) {
      const double g = std::sqrt(p.v[0] * p.v[0] + p.v[1] * p.v[1]) - M;
      vp_check(std::abs(std::sqrt(g * g + p.v[2] * p.v[2]) - m) < 0.2, "the roots of the polynomial are the points of the torus");
    }
    return;
  }
  vp_check(torus_n >= 0, "a quartic equation is solved");
  // (x^2 + y^2 + z^2 + M^2 - m^2)^2 - 4 M^2 (x^2 + y^2) at the point of the ray at t
  const double k = dot_(p, p) + M * M - m * m, dd = dot_(d, d);
  const double F = k * k - 4 * M * M * (p.v[0] * p.v[0] + p.v[1] * p.v[1]);
  const double P = (((torus_c[4] * t + torus_c[3]) * t + torus_c[2]) * t + torus_c[1]) * t + torus_c[0];
  eq(P * dd * dd, F * torus_c[4], "the roots of the polynomial are the points of the torus");
  if (nan(r)) {
    for (int i = 0; i < torus_n; ++i) vp_check(torus_s[i] <= 0, "a ray misses a torus only if no point of it lies on the torus");
  } else {
    vp_check(r > 0, "the point of intersection is not behind the origin");
    bool one = false;
    for (int i = 0; i < torus_n; ++i) one = one | (r == torus_s[i]);
    vp_check(one, "the point of intersection is one of the roots");
    for (int i = 0; i < torus_n; ++i) vp_check(torus_s[i] <= 0 || torus_s[i] >= r, "the closest point of intersection is reported");
  }
}
