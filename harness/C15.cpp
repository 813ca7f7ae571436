// Planes (plane.h)
// BOUND: real arithmetic; planes with arbitrary unit normals and distances in [-10^6, 10^6], points in [-10^6, 10^6]; dimension 3 (point distance, status, flipping: also 2)
// BOUND: transformations: rotations about and shears/scalings along the axes composed with translations; three-point construction: points with coordinates in [-10^5, 10^5]
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <cmath>
#include <tuple>
#include <vector>
using namespace vp;
extern "C" double vp_stub_sqrt_c(double v) { return std::sqrt(v); }
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T, std::size_t S> static T dot_(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  T r = T(0);
  for (std::size_t i = 0; i < S; ++i) r = r + a.v[i] * b.v[i];
  return r;
}
template <typename T> static V3<T> cross_(const V3<T>& a, const V3<T>& b) {
  return V3<T>(a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]);
}
template <typename T, std::size_t S> static vm::vec<T, S> unit(const char* n) {
  const auto v = numvec<T, S>(n, T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(dot_(v, v) - T(1)) < T(1e-5)); else vp_assume(dot_(v, v) == T(1));
  return v;
}
template <typename T, std::size_t S> static void sides() {
  const auto n = unit<T, S>("normal");
  const T d = num<T>("distance");
  const vm::plane<T, S> p(d, n);
  const auto x = numvec<T, S>("x"), a = numvec<T, S>("a");
  eq(p.distance, d, "a plane has the given distance");
  eq(p.normal, n, "a plane has the given normal");
  eq(p.anchor(), d * n, "the anchor is the point of the plane closest to the origin");
  const T h = dot_(x, n) - d;
  eq(p.point_distance(x), h, "signed distance of a point");
  const vm::plane<T, S> q(a, n);
  eq(q.normal, n, "a plane has the given normal");
  eq(q.point_distance(a), T(0), "a plane contains its anchor");
  const auto f = p.flip();
  eq(f.normal, -n, "flipping negates the normal");
  eq(f.point_distance(x), -h, "flipping negates distances");
  const T e = num<T>("epsilon", T(0), T(1));
  const T m = vp_is_replay() ? T(1e-3) : T(0);
  const auto s = p.point_status(x, e);
  if (s == vm::plane_status::above) vp_check(h > e - m, "points above a plane are farther than epsilon on the side of the normal");
  if (s == vm::plane_status::below) vp_check(h < -e + m, "points below a plane are farther than epsilon on the other side");
  if (s == vm::plane_status::inside) vp_check(h <= e + m && h >= -e - m, "points inside a plane are within epsilon");
  const vm::plane<T, S> z;
  eq(z.distance, T(0), "the default plane is zero");
  for (std::size_t i = 0; i < S; ++i) eq(z.normal.v[i], T(0), "the default plane is zero");
}
VP_REAL(sides_d2) { sides<double, 2>(); }
VP_REAL(sides_d3) { sides<double, 3>(); }
VP_REAL(sides_f3) { sides<float, 3>(); }
VP_REAL(default_status) {
  const vm::plane<double, 3> p(num<double>("distance"), V3<double>(0, 0, 1));
  const auto x = numvec<double, 3>("x");
  const double h = x.v[2] - p.distance;
  const double m = vp_is_replay() ? 1e-9 : 0.0;
  const auto s = p.point_status(x);
  if (s == vm::plane_status::above) vp_check(h > 0.0001 - m, "default tolerance");
  if (s == vm::plane_status::below) vp_check(h < -0.0001 + m, "default tolerance");
  if (s == vm::plane_status::inside) vp_check(h <= 0.0001 + m && h >= -0.0001 - m, "default tolerance");
}

template <typename T> static void at() {
  const auto n = numvec<T, 3>("normal", T(-1), T(1));
  const T d = num<T>("distance");
  const vm::plane<T, 3> p(d, n);
  const auto q = numvec<T, 2>("q");
  const int k = vp_choose("axis", 3);
  if (vp_is_replay()) vp_assume(n.v[k] == T(0) || abs_(n.v[k]) > T(0.001));
  const T a = p.at(q, std::size_t(k)), b = k == 0 ? p.xAt(q) : k == 1 ? p.yAt(q) : p.zAt(q);
  eq(a, b, "access by axis name");
  if (n.v[k] == T(0)) eq(a, T(0), "an axis within the plane yields zero");
  else {
    const V3<T> x(k == 0 ? a : q.v[0], k == 0 ? q.v[0] : k == 1 ? a : q.v[1], k == 2 ? a : q.v[1]);
    eq(dot_(x, n), d, "the completed point lies on the plane");
  }
}
VP_REAL(at_d) { at<double>(); }
VP_REAL(at_f) { at<float>(); }

template <typename T> static void project() {
  const auto n = unit<T, 3>("normal");
  const T d = num<T>("distance");
  const vm::plane<T, 3> p(d, n);
  const auto x = numvec<T, 3>("x"), dir = numvec<T, 3>("direction", T(-1), T(1));
  const auto y = p.project_point(x);
  eq(dot_(y, n), d, "the projection lies on the plane");
  eq(cross_(y - x, n), V3<T>(T(0), T(0), T(0)), "orthogonal projection moves along the normal");
  const auto w = p.project_vector(x);
  eq(dot_(w, n), T(0), "a projected vector is parallel to the plane");
  eq(cross_(w - x, n), V3<T>(T(0), T(0), T(0)), "orthogonal projection moves along the normal");
  const T c = dot_(dir, n);
  if (vp_is_replay()) vp_assume(abs_(c) > T(0.05) || abs_(c) < T(0.0005));
  const auto z = p.project_point(x, dir), v = p.project_vector(x, dir);
  if (c > T(0.001) || c < T(-0.001)) {
    eq(dot_(z, n), d, "the projection along a direction lies on the plane");
    eq(cross_(z - x, dir), V3<T>(T(0), T(0), T(0)), "the projection moves along the direction");
    eq(dot_(v, n), T(0), "a vector projected along a direction is parallel to the plane");
    eq(cross_(v - x, dir), V3<T>(T(0), T(0), T(0)), "the projection moves along the direction");
  } else {
    for (int i = 0; i < 3; ++i) vp_check(nan(z.v[i]) && nan(v.v[i]), "there is no projection along a direction parallel to the plane");
  }
}
VP_REAL(project_d) { project<double>(); }
VP_REAL(project_f) { project<float>(); }

template <typename T> static V3<T> app(const vm::mat<T, 4, 4>& m, const V3<T>& p) {
  V3<T> r;
  for (int i = 0; i < 3; ++i) r.v[i] = m.v[0].v[i] * p.v[0] + m.v[1].v[i] * p.v[1] + m.v[2].v[i] * p.v[2] + m.v[3].v[i];
  return r;
}
// 0: rotation about an axis, 1: scaling (any sign), 2: shear; all with translation
template <typename T> static vm::mat<T, 4, 4> trafo(int kind, T& det) {
  vm::mat<T, 4, 4> m;
  const int k = vp_choose("axis", 3), l = (k + 1) % 3;
  det = T(1);
  if (kind == 0) {
    const T c = num<T>("c", T(-1), T(1)), s = num<T>("s", T(-1), T(1));
    if (vp_is_replay()) vp_assume(abs_(c * c + s * s - T(1)) < T(1e-6)); else vp_assume(c * c + s * s == T(1));
    m.v[k].v[k] = c; m.v[l].v[k] = -s; m.v[k].v[l] = s; m.v[l].v[l] = c;
  } else if (kind == 1) {
    for (int i = 0; i < 3; ++i) { m.v[i].v[i] = num<T>("scale", T(0.015625), T(64)) * (i == k ? T(-1) : T(1)); }
  } else {
    m.v[l].v[k] = num<T>("shear", T(-64), T(64));
  }
  for (int i = 0; i < 3; ++i) m.v[3].v[i] = num<T>("t", T(-10), T(10));
  return m;
}
template <typename T> static void transform(int kind) {
  const auto n = unit<T, 3>("normal");
  const vm::plane<T, 3> p(num<T>("distance", T(-10), T(10)), n);
  T det;
  const auto m = trafo<T>(kind, det);
  const auto x = numvec<T, 3>("x", T(-10), T(10));
  const auto q = p.transform(m);
  eq(dot_(q.normal, q.normal), T(1), "the normal of a transformed plane has unit length");
  // a point of the plane
  const auto y = x - (dot_(x, n) - p.distance) * n;
  eq(dot_(app(m, y), q.normal), q.distance, "transformed points of a plane lie on the transformed plane");
  const T h = dot_(app(m, y + n), q.normal) - q.distance;
  vp_check(h > T(0), "points above a plane stay above it");
  const auto c = p.transform_c(m);
  eq(c.distance, q.distance, "transformation (compile-time variant)");
  eq(c.normal, q.normal, "transformation (compile-time variant)");
}
VP_CFG(transform_rot, "stub=1") VP_CFG(transform_scale, "stub=1") VP_CFG(transform_shear, "stub=1") VP_CFG(transform_f, "stub=1")
VP_REAL(transform_rot) { transform<double>(0); }
VP_REAL(transform_scale) { transform<double>(1); }
VP_REAL(transform_shear) { transform<double>(2); }
VP_REAL(transform_f) { transform<float>(1); }

template <typename T> static void points() {
  // b - a = s * e1, c - a = t * e1 + u * e2 for frames e1, e2 in different orientations
  static const T E[4][6] = {{1, 0, 0, 0, 1, 0}, {0, 0, 1, 1, 0, 0}, {1, 2, -2, 2, 1, 2}, {0, -1, 1, 1, 0, 1}};
  const int k = vp_choose("frame", 4);
  const V3<T> e1(E[k][0], E[k][1], E[k][2]), e2(E[k][3], E[k][4], E[k][5]);
  const auto a = numvec<T, 3>("a", T(-10), T(10));
  const T s = num<T>("s", T(-10), T(10)), t = num<T>("t", T(-10), T(10)), u = num<T>("u", T(-10), T(10));
  if (vp_is_replay()) vp_assume(abs_(s) > T(0.1) && abs_(u) > T(0.1));
  const auto b = a + s * e1, c = a + t * e1 + u * e2;
  const auto w = cross_(t * e1 + u * e2, s * e1);
  const T ww = dot_(w, w);
  const auto r = vm::plane_normal(a, b, c);
  const auto f = vm::from_points(a, b, c);
  vp_check(std::get<0>(f) == std::get<0>(r), "a plane exists iff a normal does");
  if (std::get<0>(r)) {
    const auto& n = std::get<1>(r);
    eq(dot_(n, n), T(1), "the normal has unit length");
    const T nw = dot_(n, w);
    le(T(0), nw, "the normal points towards the viewer who sees the points clockwise");
    eq(nw * nw, ww, "the normal is orthogonal to the plane of the points");
    const auto& p = std::get<1>(f);
    eq(p.normal, n, "the plane has that normal");
    eq(dot_(a, p.normal), p.distance, "the plane contains the points");
    eq(dot_(b, p.normal), p.distance, "the plane contains the points");
    eq(dot_(c, p.normal), p.distance, "the plane contains the points");
  } else if (s != T(0)) {
    vp_check(abs_(u) <= T(0.00001) * (abs_(t) + T(3) * abs_(u)) * T(4), "a plane is refused only if the points are colinear");
  }
}
VP_REAL(points_d) { points<double>(); }
VP_REAL(points_f) { points<float>(); }
template <typename T> static void colinear() {
  const auto a = numvec<T, 3>("a", T(-10), T(10)), d = numvec<T, 3>("d", T(-10), T(10));
  const T s = num<T>("s", T(-64), T(64)), t = num<T>("t", T(-4), T(4));
  if (vp_is_replay()) return;
  vp_check(!std::get<0>(vm::from_points(a, a + s * d, a + t * d)), "there is no plane through colinear points");
}
VP_REAL(colinear_d) { colinear<double>(); }
struct E { int x; V3<double> p; };
VP_REAL(range) {
  const int n = vp_choose("n", 5);
  std::vector<V3<double>> l;
  std::vector<E> g;
  for (int i = 0; i < n; ++i) {
    const auto v = i < 3 ? V3<double>(i == 0 ? 1.0 : i == 1 ? num<double>("u", 2, 5) : 0.0, i == 2 ? num<double>("v", 1, 4) : 0.5, num<double>("z", -4, 4)) : numvec<double, 3>("p");
    l.push_back(v);
    g.push_back(E{i, v});
  }
  const auto r = vm::from_points(l.begin(), l.end());
  const auto q = vm::from_points(g.begin(), g.end(), [](const E& e) { return e.p; });
  const auto s = vm::from_points(l.begin(), l.end(), [](const V3<double>& v) { return V3<double>(v.v[0], v.v[1], v.v[2] + 7.0); });
  if (n < 3) { vp_check(!std::get<0>(r) && !std::get<0>(q) && !std::get<0>(s), "fewer than three points define no plane"); return; }
  const auto w = vm::from_points(l[0], l[1], l[2]);
  vp_check(std::get<0>(r) == std::get<0>(w) && std::get<0>(q) == std::get<0>(w) && std::get<0>(s) == std::get<0>(w), "the first three points define the plane");
  eq(std::get<1>(r).normal, std::get<1>(w).normal, "the first three points define the plane");
  eq(std::get<1>(q).normal, std::get<1>(w).normal, "the first three points define the plane");
  eq(std::get<1>(s).normal, std::get<1>(w).normal, "the given function is applied to every point");
  eq(std::get<1>(r).distance, std::get<1>(w).distance, "the first three points define the plane");
  eq(std::get<1>(q).distance, std::get<1>(w).distance, "the first three points define the plane");
  if (std::get<0>(w)) eq(std::get<1>(s).distance, std::get<1>(w).distance + 7.0 * std::get<1>(w).normal.v[2], "the given function is applied to every point");
}
template <typename T> static void special() {
  const auto x = numvec<T, 3>("x"), d = numvec<T, 3>("d", T(-10), T(10));
  vp_assume(dot_(d, d) >= T(0.01));
  const auto h = vm::horizontal_plane(x);
  eq(h.normal, V3<T>(T(0), T(0), T(1)), "horizontal plane");
  eq(h.distance, x.v[2], "horizontal plane through the point");
  const auto o = vm::orthogonal_plane(x, d);
  const T l = vm::length(d);
  for (int i = 0; i < 3; ++i) eq(o.normal.v[i] * l, d.v[i], "the normal is the normalized direction");
  eq(dot_(x, o.normal), o.distance, "orthogonal plane through the point");
  const auto a = vm::aligned_orthogonal_plane(x, d);
  eq(dot_(x, a.normal), a.distance, "aligned plane through the point");
  eq(dot_(a.normal, a.normal), T(1), "the aligned normal is an axis");
  const T m = dot_(a.normal, d);
  for (int i = 0; i < 3; ++i) {
    le(abs_(d.v[i]), m, "the aligned normal is the axis closest to the direction");
    const T ni = a.normal.v[i];
    eq(ni * ni * ni, ni, "the aligned normal is an axis");
  }
}
VP_REAL(special_d) { special<double>(); }
VP_REAL(special_f) { special<float>(); }
VP_REAL(equality) {
  const vm::plane<double, 3> a(num<double>("da"), numvec<double, 3>("na")), b(num<double>("db"), numvec<double, 3>("nb"));
  bool e = a.distance == b.distance;
  for (int i = 0; i < 3; ++i) e = e && a.normal.v[i] == b.normal.v[i];
  vp_check((a == b) == e, "planes are equal iff distance and normal are");
  vp_check((a != b) == !e, "planes differ iff distance or normal differ");
}
VP_REAL(equality_eps) {
  const vm::plane<double, 3> a(num<double>("da"), numvec<double, 3>("na")), b(num<double>("db"), numvec<double, 3>("nb"));
  const double eps = num<double>("epsilon", 0, 4);
  const bool r = vm::is_equal(a, b, eps);
  bool e = abs_(a.distance - b.distance) <= eps;
  for (int i = 0; i < 3; ++i) e = e && abs_(a.normal.v[i] - b.normal.v[i]) <= eps;
  vp_check(r == e, "planes are equal up to epsilon iff distance and normal are");
}
VP_FP(conversion) {
  const vm::plane<double, 3> a(vp_f64("d"), symvec<double, 3>("n"));
  const vm::plane<float, 3> f(a);
  eq(f.distance, float(a.distance), "conversion converts distance and normal");
  for (int i = 0; i < 3; ++i) eq(f.normal.v[i], float(a.normal.v[i]), "conversion converts distance and normal");
}
