// Lines, rays and segments (abstract_line.h, line.h, ray.h, segment.h)
// BOUND: real arithmetic with coordinates in [-10^6, 10^6], dimension 2 and 3; unit directions arbitrary unless stated
// BOUND: ordering, equality, construction and conversion of segments: IEEE-exact over all non-NaN values; containment and canonical lines: six directions (axes and oblique), arbitrary positive lengths (degenerate segments excluded); lists of up to 3 segments
// BOUND: the compile-time (_c) variants assume that sqrt_c returns the square root
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/abstract_line.h>
#include <vecmath/line.h>
#include <vecmath/ray.h>
#include <vecmath/segment.h>
#include <cmath>
#include <iterator>
#include <vector>
using namespace vp;
extern "C" double vp_stub_sqrt_c(double v) { return std::sqrt(v); }
template <typename T, std::size_t S> using V = vm::vec<T, S>;
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T, std::size_t S> static T dot_(const V<T, S>& a, const V<T, S>& b) {
  T r = T(0);
  for (std::size_t i = 0; i < S; ++i) r = r + a.v[i] * b.v[i];
  return r;
}
// a x b in three, the 2x2 determinant in two dimensions
template <typename T, std::size_t S> static void parallel(const V<T, S>& a, const V<T, S>& b, const char* id) {
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t j = i + 1; j < S; ++j) eq(a.v[i] * b.v[j], a.v[j] * b.v[i], id);
}
template <typename T, std::size_t S> static V<T, S> unit(const char* n) {
  const auto v = numvec<T, S>(n, T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(dot_(v, v) - T(1)) < T(1e-5)); else vp_assume(dot_(v, v) == T(1));
  return v;
}
template <typename T, std::size_t S, typename L> static void along(const L& l, const V<T, S>& o, const V<T, S>& d) {
  const auto p = numvec<T, S>("p");
  const T t = num<T>("t");
  eq(l.get_origin(), o, "the origin of a line");
  eq(l.get_direction(), d, "the direction of a line");
  eq(vm::point_at_distance(l, t), o + t * d, "the point at a distance");
  eq(vm::distance_to_projected_point(l, p), dot_(p - o, d), "the signed distance of the projected point");
  const auto q = vm::project_point(l, p);
  eq(dot_(p - q, d), T(0), "a point is projected orthogonally");
  parallel(q - o, d, "the projected point lies on the line");
}
template <typename T, std::size_t S> static void lines() {
  const auto o = numvec<T, S>("o"), d = unit<T, S>("d");
  along<T, S>(vm::line<T, S>(o, d), o, d);
}
template <typename T, std::size_t S> static void rays() {
  const auto o = numvec<T, S>("o"), d = unit<T, S>("d");
  along<T, S>(vm::ray<T, S>(o, d), o, d);
  const vm::ray<T, S> z;
  const vm::line<T, S> y;
  for (std::size_t i = 0; i < S; ++i) {
    eq(z.origin.v[i], T(0), "a default ray is zero"); eq(z.direction.v[i], T(0), "a default ray is zero");
    eq(y.point.v[i], T(0), "a default line is zero"); eq(y.direction.v[i], T(0), "a default line is zero");
  }
}
VP_REAL(lines_d2) { lines<double, 2>(); }
VP_REAL(lines_d3) { lines<double, 3>(); }
VP_REAL(rays_d3) { rays<double, 3>(); }
VP_REAL(rays_f2) { rays<float, 2>(); }

// directions: axes and oblique unit vectors
template <typename T> static V3<T> dir(int& k) {
  static const T D[6][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {-3, 4, 0}, {2, -1, -2}, {0, -4, -3}};
  k = vp_choose("direction", 6);
  const T l = k < 3 ? T(1) : k == 4 ? T(3) : T(5);
  return V3<T>(D[k][0] / l, D[k][1] / l, D[k][2] / l);
}
template <typename T> static V3<T> app(const vm::mat<T, 4, 4>& m, const V3<T>& p) {
  V3<T> r;
  for (int i = 0; i < 3; ++i) r.v[i] = m.v[0].v[i] * p.v[0] + m.v[1].v[i] * p.v[1] + m.v[2].v[i] * p.v[2] + m.v[3].v[i];
  return r;
}
template <typename T> static vm::mat<T, 4, 4> affine() {
  vm::mat<T, 4, 4> m;
  const int k = vp_choose("kind", 3);
  if (k == 0) { for (int i = 0; i < 3; ++i) m.v[i].v[i] = num<T>("scale", T(0.5), T(4)) * (i == 1 ? T(-1) : T(1)); }
  else if (k == 1) { m.v[1].v[0] = num<T>("shear", T(-4), T(4)); m.v[2].v[1] = num<T>("shear", T(-4), T(4)); }
  else { m.v[0].v[0] = T(0); m.v[1].v[1] = T(0); m.v[1].v[0] = num<T>("m", T(1), T(4)); m.v[0].v[1] = num<T>("m", T(1), T(4)); }
  for (int i = 0; i < 3; ++i) m.v[3].v[i] = num<T>("translation", T(-10), T(10));
  return m;
}
template <typename T> static void transformed(const V3<T>& o, const V3<T>& d, const vm::mat<T, 4, 4>& m, const V3<T>& no, const V3<T>& nd) {
  eq(no, app(m, o), "the origin is transformed");
  eq(dot_(nd, nd), T(1), "the direction has unit length");
  const auto w = app(m, o + d) - app(m, o);
  parallel(nd, w, "transformed points lie on the transformed line");
  le(T(0), dot_(nd, w), "the direction keeps its sense");
}
template <typename T> static void transform() {
  int k;
  const auto d = dir<T>(k);
  const auto o = numvec<T, 3>("o", T(-10), T(10));
  const auto m = affine<T>();
  const vm::line<T, 3> l(o, d);
  const vm::ray<T, 3> r(o, d);
  const auto lt = l.transform(m), lc = l.transform_c(m);
  const auto rt = r.transform(m), rc = r.transform_c(m);
  transformed(o, d, m, lt.point, lt.direction);
  transformed(o, d, m, rt.origin, rt.direction);
  eq(lc.point, lt.point, "compile-time variant"); eq(lc.direction, lt.direction, "compile-time variant");
  eq(rc.origin, rt.origin, "compile-time variant"); eq(rc.direction, rt.direction, "compile-time variant");
}
VP_CFG(transform_d, "stub=1") VP_CFG(transform_f, "stub=1")
VP_REAL(transform_d) { transform<double>(); }
VP_REAL(transform_f) { transform<float>(); }

template <typename T, std::size_t S> static void canonical() {
  const auto p = numvec<T, S>("p", T(-10), T(10)), d = unit<T, S>("d");
  if (vp_is_replay()) { for (std::size_t i = 0; i < S; ++i) vp_assume(d.v[i] == T(0) || abs_(d.v[i]) > T(0.001)); }
  const auto c = vm::line<T, S>(p, d).make_canonical();
  eq(dot_(c.point, d), T(0), "the canonical point is closest to the origin");
  parallel(c.point - p, d, "the canonical point lies on the line");
  parallel(c.direction, d, "the canonical direction is parallel");
  eq(dot_(c.direction, c.direction), T(1), "the canonical direction has unit length");
  bool z = true;
  for (std::size_t i = 0; i < S; ++i) {
    if (z & (c.direction.v[i] < T(0))) vp_check(false, "the first non-zero component of the canonical direction is positive");
    z = z & (d.v[i] == T(0));
  }
}
VP_REAL(canonical_d2) { canonical<double, 2>(); }
VP_REAL(canonical_d3) { canonical<double, 3>(); }
VP_REAL(canonical_f3) { canonical<float, 3>(); }
template <typename T> static void line_equality() {
  int k;
  const auto d = dir<T>(k);
  const auto p = numvec<T, 3>("p", T(-10), T(10));
  const T t = num<T>("t", T(-10), T(10));
  const T s = vp_choose("sense", 2) ? T(1) : T(-1);
  const vm::line<T, 3> a(p, d), b(p + t * d, s * d);
  if (vp_is_replay()) { vp_assume(k < 3); for (int i = 0; i < 3; ++i) vp_assume(p.v[i] * 8 == vm::round(p.v[i] * 8)); vp_assume(t * 8 == vm::round(t * 8)); }
  vp_check(a == b, "lines are equal if they hold the same points");
  vp_check(!(a != b), "lines are equal if they hold the same points");
}
VP_REAL(line_equality_d) { line_equality<double>(); }
VP_REAL(line_equality_f) { line_equality<float>(); }
template <typename T> static void line_inequality() {
  int k;
  const auto d = dir<T>(k);
  const auto p = numvec<T, 3>("p", T(-10), T(10)), q = numvec<T, 3>("q", T(-10), T(10));
  const T s = vp_choose("sense", 2) ? T(1) : T(-1);
  const vm::line<T, 3> a(p, d), b(q, s * d);
  const bool e = a == b;
  vp_check((a != b) == !e, "lines are equal or different");
  if (e) parallel(q - p, d, "lines are equal only if they hold the same points");
  int l;
  const auto f = dir<T>(l);
  if (k != l) vp_check(!(a == vm::line<T, 3>(p, f)) && a != vm::line<T, 3>(p, f), "lines of different directions differ");
}
VP_REAL(line_inequality_d) { line_inequality<double>(); }
template <typename T, typename L> static void same() {
  const V3<T> p = numvec<T, 3>("p"), q = numvec<T, 3>("q"), d = numvec<T, 3>("d"), e = numvec<T, 3>("e");
  const L a(p, d), b(q, e);
  const T eps = num<T>("epsilon", T(0), T(10));
  const bool r = vm::is_equal(a, b, eps);
  bool x = true;
  for (int i = 0; i < 3; ++i) x = x && abs_(p.v[i] - q.v[i]) <= eps;
  for (int i = 0; i < 3; ++i) x = x && abs_(d.v[i] - e.v[i]) <= eps;
  vp_check(r == x, "equality up to epsilon is decided by origin and direction");
}
VP_REAL(same_line) { same<double, vm::line<double, 3>>(); }
VP_REAL(same_ray) { same<double, vm::ray<double, 3>>(); }
VP_FP(ray_equality) {
  const auto p = symvec<double, 3>("p"), q = symvec<double, 3>("q"), d = symvec<double, 3>("d"), e = symvec<double, 3>("e");
  for (int i = 0; i < 3; ++i) vp_assume(!nan(p.v[i]) && !nan(q.v[i]) && !nan(d.v[i]) && !nan(e.v[i]));
  const vm::ray<double, 3> a(p, d), b(q, e);
  bool x = true;
  for (int i = 0; i < 3; ++i) x = x && p.v[i] == q.v[i];
  for (int i = 0; i < 3; ++i) x = x && d.v[i] == e.v[i];
  vp_check((a == b) == x, "rays are equal iff origin and direction are");
  vp_check((a != b) == !x, "rays differ iff origin or direction differ");
}
VP_FP(conversions) {
  const auto p = symvec<double, 3>("p"), d = symvec<double, 3>("d");
  const vm::ray<float, 3> r{vm::ray<double, 3>(p, d)};
  const vm::line<float, 3> l{vm::line<double, 3>(p, d)};
  for (int i = 0; i < 3; ++i) {
    eq(r.origin.v[i], float(p.v[i]), "conversion of a ray"); eq(r.direction.v[i], float(d.v[i]), "conversion of a ray");
    eq(l.point.v[i], float(p.v[i]), "conversion of a line"); eq(l.direction.v[i], float(d.v[i]), "conversion of a line");
  }
}
template <typename T, std::size_t S> static void status() {
  const auto o = numvec<T, S>("o"), d = unit<T, S>("d"), p = numvec<T, S>("p");
  const T h = dot_(p - o, d);
  const T m = vp_is_replay() ? T(1e-3) : T(0);
  const auto s = vm::ray<T, S>(o, d).point_status(p);
  if (s == vm::plane_status::above) vp_check(h > T(0.0001) - m, "points above the origin are in front");
  if (s == vm::plane_status::below) vp_check(h < T(-0.0001) + m, "points below the origin are behind");
  if (s == vm::plane_status::inside) vp_check(h <= T(0.0001) + m && h >= T(-0.0001) - m, "points inside are beside the origin");
}
VP_REAL(status_d2) { status<double, 2>(); }
VP_REAL(status_d3) { status<double, 3>(); }
VP_REAL(status_f3) { status<float, 3>(); }

template <typename T, std::size_t S> static V<T, S> ord(const char* n) {
  const auto v = symvec<T, S>(n);
  for (std::size_t i = 0; i < S; ++i) vp_assume(!nan(v.v[i]));
  return v;
}
template <typename T, std::size_t S> static int cmp(const V<T, S>& a, const V<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i) {
    if (a.v[i] < b.v[i]) return -1;
    if (a.v[i] > b.v[i]) return 1;
  }
  return 0;
}
template <typename T, std::size_t S> static void ends() {
  const auto a = ord<T, S>("a"), b = ord<T, S>("b");
  const vm::segment<T, S> s(a, b), r(b, a);
  const int c = cmp(a, b);
  eq(s.start(), c < 0 ? a : b, "a segment starts at its smaller end");
  eq(s.end(), c < 0 ? b : a, "a segment ends at its greater end");
  eq(r.start(), s.start(), "the order of the end points does not matter");
  eq(r.end(), s.end(), "the order of the end points does not matter");
  eq(s.get_origin(), s.start(), "the origin of a segment is its start");
}
VP_FP(ends_d1) { ends<double, 1>(); }
VP_FP(ends_d2) { ends<double, 2>(); }
VP_FP(ends_f3) { ends<float, 3>(); }
VP_FP(ends_i2) { ends<int, 2>(); }
template <typename T, std::size_t S> static void order() {
  const vm::segment<T, S> a(ord<T, S>("a"), ord<T, S>("b")), b(ord<T, S>("c"), ord<T, S>("d"));
  const int c = cmp(a.start(), b.start());
  const int e = c != 0 ? c : cmp(a.end(), b.end());
  vp_check(vm::compare(a, b) == e, "segments are compared by start, then by end");
  vp_check((a == b) == (e == 0), "segments are equal iff their ends are");
  vp_check((a != b) == (e != 0), "segments differ iff an end differs");
  vp_check((a < b) == (e < 0), "order of segments"); vp_check((a <= b) == (e <= 0), "order of segments");
  vp_check((a > b) == (e > 0), "order of segments"); vp_check((a >= b) == (e >= 0), "order of segments");
}
VP_FP(order_d1) { order<double, 1>(); }
VP_REAL(order_d2) { order<double, 2>(); }
VP_REAL(order_f2) { order<float, 2>(); }
VP_REAL(order_eps) {
  const vm::segment<double, 2> a(numvec<double, 2>("a"), numvec<double, 2>("b")), b(numvec<double, 2>("c"), numvec<double, 2>("d"));
  const double eps = num<double>("epsilon", 0, 10);
  const int c = vm::compare(a, b, eps);
  int e = 0;
  for (int i = 0; i < 4 && e == 0; ++i) {
    const double x = i < 2 ? a.start().v[i] : a.end().v[i - 2], y = i < 2 ? b.start().v[i] : b.end().v[i - 2];
    if (x < y - eps) e = -1; else if (x > y + eps) e = 1;
  }
  vp_check(c == e, "the first coordinate that differs by more than epsilon decides");
  vp_check(vm::is_equal(a, b, eps) == (e == 0), "segments are equal up to epsilon iff no coordinate differs by more");
}
VP_FP(segment_conversion) {
  const auto a = ord<double, 2>("a"), b = ord<double, 2>("b");
  const vm::segment<double, 2> s(a, b);
  const vm::segment<float, 2> f(s);
  const vm::segment<float, 2> g{V<float, 2>(s.start()), V<float, 2>(s.end())};
  vp_check(cmp(f.start(), f.end()) <= 0, "the ends of a converted segment are ordered");
  eq(f.start(), g.start(), "the ends of a segment are converted");
  eq(f.end(), g.end(), "the ends of a segment are converted");
}
template <typename T> static void measures() {
  int k;
  const auto d = dir<T>(k);
  const auto a = numvec<T, 3>("a");
  const T l = num<T>("length", T(0.125), T(1000000));
  const V3<T> b = a + l * d;
  const vm::segment<T, 3> s(a, b);
  eq(s.length(), l, "the length of a segment"); eq(s.length_c(), l, "compile-time variant");
  eq(s.squared_length(), l * l, "the squared length of a segment");
  eq(s.center() * T(2), a + b, "the centre is half way between the ends");
  eq(s.direction() * l, s.end() - s.start(), "the direction points from start to end");
  along<T, 3>(s, s.start(), s.direction());
  const auto t = numvec<T, 3>("offset");
  const auto u = s.translate(t), v = vm::translate(s, t);
  eq(u.start(), s.start() + t, "translation moves both ends"); eq(u.end(), s.end() + t, "translation moves both ends");
  eq(v.start(), s.start() + t, "translation moves both ends"); eq(v.end(), s.end() + t, "translation moves both ends");
}
VP_CFG(measures_d, "stub=1") VP_CFG(measures_f, "stub=1")
VP_REAL(measures_d) { measures<double>(); }
VP_REAL(measures_f) { measures<float>(); }
template <typename T> static void segment_transform() {
  const vm::segment<T, 3> s(numvec<T, 3>("a"), numvec<T, 3>("b"));
  const auto m = affine<T>();
  const auto p = app(m, s.start()), q = app(m, s.end());
  const auto t = s.transform(m);
  const vm::segment<T, 3> e(p, q);
  eq(t.start(), e.start(), "a transformed segment connects the transformed ends");
  eq(t.end(), e.end(), "a transformed segment connects the transformed ends");
}
VP_REAL(segment_transform_d) { segment_transform<double>(); }
template <typename T> static void contains() {
  int k;
  const auto d = dir<T>(k);
  const auto a = numvec<T, 3>("a", T(-10), T(10));
  const T l = num<T>("length", T(0.125), T(100000));
  const vm::segment<T, 3> s(a, a + l * d);
  // a point given by its position along the segment and its offset orthogonal to it
  const T x = num<T>("along", T(-20), T(20)), y = num<T>("off", T(0), T(10));
  const V3<T> o = k == 0 ? V3<T>(T(0), T(0), T(-1)) : k == 1 ? V3<T>(T(1), T(0), T(0)) : k == 2 ? V3<T>(T(0), T(1), T(0)) :
    k == 3 ? V3<T>(T(0), T(0), T(1)) : k == 4 ? V3<T>(T(2) / T(3), T(2) / T(3), T(1) / T(3)) : V3<T>(T(0), T(3) / T(5), T(-4) / T(5));
  const T m = num<T>("max", T(0), T(10));
  const T h = x < T(0) ? x : x > l ? x - l : T(0);
  const T g = h * h + y * y - m * m;
  if (vp_is_replay()) vp_assume(abs_(g) > T(0.01));
  vp_check(s.contains(a + x * d + y * o, m) == (g <= T(0)), "a segment contains the points within the given distance");
}
VP_REAL(contains_d) { contains<double>(); }
VP_REAL(contains_f) { contains<float>(); }
VP_FP(vertices) {
  const int n = vp_choose("n", 4);
  std::vector<vm::segment<double, 2>> l;
  for (int i = 0; i < n; ++i) l.push_back(vm::segment<double, 2>(ord<double, 2>("a"), ord<double, 2>("b")));
  std::vector<V<double, 2>> r;
  vm::segment<double, 2>::get_vertices(l.begin(), l.end(), std::back_inserter(r));
  vp_check(r.size() == std::size_t(2 * n), "every segment has two vertices");
  for (int i = 0; i < n; ++i) { eq(r[2 * i], l[i].start(), "start vertices"); eq(r[2 * i + 1], l[i].end(), "end vertices"); }
}
VP_FP(vertices_long) {
  std::vector<vm::segment<int, 1>> l;
  for (int i = 0; i < 9; ++i) l.push_back(vm::segment<int, 1>(symvec<int, 1>("a"), symvec<int, 1>("b")));
  std::vector<V<int, 1>> r;
  vm::segment<int, 1>::get_vertices(l.begin(), l.end(), std::back_inserter(r));
  vp_check(r.size() == 18, "every segment has two vertices");
  for (int i = 0; i < 9; ++i) { eq(r[2 * i], l[i].start(), "start vertices"); eq(r[2 * i + 1], l[i].end(), "end vertices"); }
}
