// Distances between points, rays, segments and lines (distance.h)
// BOUND: real arithmetic; origins and points with coordinates in [-10^6, 10^6]; point/ray: arbitrary unit directions, dimension 2 and 3
// BOUND: point/segment, ray/segment, ray/ray, ray/line: dimension 3, unit directions from a set of seven (axes and oblique, all pairs with four of them, parallel and opposite pairs included), segment lengths in [1/8, 10^6]
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/line.h>
#include <vecmath/ray.h>
#include <vecmath/segment.h>
#include <vecmath/distance.h>
#include <cmath>
using namespace vp;
template <typename T, std::size_t S> using V = vm::vec<T, S>;
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T, std::size_t S> static T dot_(const V<T, S>& a, const V<T, S>& b) {
  T r = T(0);
  for (std::size_t i = 0; i < S; ++i) r = r + a.v[i] * b.v[i];
  return r;
}
template <typename T, std::size_t S> static V<T, S> unit(const char* n) {
  const auto v = numvec<T, S>(n, T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(dot_(v, v) - T(1)) < T(1e-5)); else vp_assume(dot_(v, v) == T(1));
  return v;
}
template <typename T> static V3<T> dir(int k) {
  static const T D[7][3] = {{1, 0, 0}, {2, -1, -2}, {0, 0, -1}, {-3, 4, 0}, {0, 1, 0}, {-2, 1, 2}, {0, 0, 1}};
  const T l = k == 1 || k == 5 ? T(3) : k == 3 ? T(5) : T(1);
  return V3<T>(D[k][0] / l, D[k][1] / l, D[k][2] / l);
}
// the distance of a point q (on the line) to p, where moving q along the line may only increase the distance
template <typename T, std::size_t S> static void ray_point() {
  const auto o = numvec<T, S>("o"), d = unit<T, S>("d"), p = numvec<T, S>("p");
  const vm::ray<T, S> r(o, d);
  const auto x = vm::squared_distance(r, p), y = vm::distance(r, p);
  const V<T, S> q = o + x.position * d;
  const T g = dot_(q - p, d);
  le(T(0), x.position, "the closest point is not behind the origin of the ray");
  eq(x.distance, dot_(q - p, q - p), "the distance is that of the closest point");
  le(T(0), g, "no point of the ray is closer");
  eq(x.position * g, T(0), "no point of the ray is closer");
  eq(y.position, x.position, "squared and plain distance agree on the position");
  le(T(0), y.distance, "a distance is not negative");
  eq(y.distance * y.distance, x.distance, "the distance is the root of the squared distance");
}
VP_REAL(ray_point_d2) { ray_point<double, 2>(); }
VP_REAL(ray_point_d3) { ray_point<double, 3>(); }
VP_REAL(ray_point_f3) { ray_point<float, 3>(); }
template <typename T> static void segment_point() {
  const auto d = dir<T>(vp_choose("direction", 7));
  const auto o = numvec<T, 3>("o"), p = numvec<T, 3>("p");
  const T l = num<T>("length", T(0.125), T(1000000));
  const vm::segment<T, 3> s(o, o + l * d);
  const V3<T> e = (s.end() - s.start()) / l;
  const auto x = vm::squared_distance(s, p), y = vm::distance(s, p);
  const V3<T> q = s.start() + x.position * e;
  const T g = dot_(q - p, e);
  le(T(0), x.position, "the closest point belongs to the segment");
  le(x.position, l, "the closest point belongs to the segment");
  eq(x.distance, dot_(q - p, q - p), "the distance is that of the closest point");
  le(x.position * g, T(0), "no point of the segment is closer");
  le(T(0), (l - x.position) * g, "no point of the segment is closer");
  eq(y.position, x.position, "squared and plain distance agree on the position");
  le(T(0), y.distance, "a distance is not negative");
  eq(y.distance * y.distance, x.distance, "the distance is the root of the squared distance");
}
VP_REAL(segment_point_d) { segment_point<double>(); }
VP_REAL(segment_point_f) { segment_point<float>(); }

template <typename T> static void common(const vm::line_distance<T>& x, const vm::line_distance<T>& y, bool par) {
  vp_check(x.parallel == par, "parallel lines are recognised");
  vp_check(y.parallel == par, "parallel lines are recognised");
  eq(y.position1, x.position1, "squared and plain distance agree on the positions");
  eq(y.position2, x.position2, "squared and plain distance agree on the positions");
  le(T(0), y.distance, "a distance is not negative");
  eq(y.distance * y.distance, x.distance, "the distance is the root of the squared distance");
}
static bool par(int a, int b) { return a == b || (a == 1 && b == 5) || (a == 5 && b == 1) || (a == 2 && b == 6) || (a == 6 && b == 2); }
template <typename T> static void ray_segment() {
  const int i = vp_choose("ray direction", 4), j = vp_choose("segment direction", 7);
  const auto d = dir<T>(i), u = dir<T>(j);
  const auto o = numvec<T, 3>("o"), p = numvec<T, 3>("p");
  const T l = num<T>("length", T(0.125), T(1000000));
  const vm::ray<T, 3> r(o, d);
  const vm::segment<T, 3> s(p, p + l * u);
  const V3<T> e = (s.end() - s.start()) / l;
  const auto x = vm::squared_distance(r, s), y = vm::distance(r, s);
  common(x, y, par(i, j));
  const V3<T> a = o + x.position1 * d, b = s.start() + x.position2 * e;
  eq(x.distance, dot_(a - b, a - b), "the distance is that of the closest points");
  le(T(0), x.position1, "the first position belongs to the ray");
  le(T(0), x.position2, "the second position belongs to the segment");
  le(x.position2, l, "the second position belongs to the segment");
  const T g = dot_(a - b, d), h = dot_(b - a, e);
  le(T(0), g, "no point of the ray is closer");
  eq(x.position1 * g, T(0), "no point of the ray is closer");
  le(x.position2 * h, T(0), "no point of the segment is closer");
  le(T(0), (l - x.position2) * h, "no point of the segment is closer");
}
VP_REAL(ray_segment_d) { ray_segment<double>(); }
VP_REAL(ray_segment_f) { ray_segment<float>(); }
template <typename T> static void ray_ray() {
  const int i = vp_choose("first direction", 4), j = vp_choose("second direction", 7);
  const auto d = dir<T>(i), u = dir<T>(j);
  const auto o = numvec<T, 3>("o"), p = numvec<T, 3>("p");
  const vm::ray<T, 3> r(o, d), s(p, u);
  const auto x = vm::squared_distance(r, s), y = vm::distance(r, s);
  common(x, y, par(i, j));
  const V3<T> a = o + x.position1 * d, b = p + x.position2 * u;
  eq(x.distance, dot_(a - b, a - b), "the distance is that of the closest points");
  le(T(0), x.position1, "the first position belongs to the first ray");
  le(T(0), x.position2, "the second position belongs to the second ray");
  const T g = dot_(a - b, d), h = dot_(b - a, u);
  le(T(0), g, "no point of the first ray is closer");
  eq(x.position1 * g, T(0), "no point of the first ray is closer");
  le(T(0), h, "no point of the second ray is closer");
  eq(x.position2 * h, T(0), "no point of the second ray is closer");
}
VP_REAL(ray_ray_d) { ray_ray<double>(); }
VP_REAL(ray_ray_f) { ray_ray<float>(); }
template <typename T> static void ray_line() {
  const int i = vp_choose("ray direction", 4), j = vp_choose("line direction", 7);
  const auto d = dir<T>(i), u = dir<T>(j);
  const auto o = numvec<T, 3>("o"), p = numvec<T, 3>("p");
  const vm::ray<T, 3> r(o, d);
  const vm::line<T, 3> s(p, u);
  const auto x = vm::squared_distance(r, s), y = vm::distance(r, s);
  common(x, y, par(i, j));
  const V3<T> a = o + x.position1 * d, b = p + x.position2 * u;
  eq(x.distance, dot_(a - b, a - b), "the distance is that of the closest points");
  le(T(0), x.position1, "the first position belongs to the ray");
  const T g = dot_(a - b, d), h = dot_(b - a, u);
  le(T(0), g, "no point of the ray is closer");
  eq(x.position1 * g, T(0), "no point of the ray is closer");
  eq(h, T(0), "no point of the line is closer");
}
VP_REAL(ray_line_d) { ray_line<double>(); }
VP_REAL(ray_line_f) { ray_line<float>(); }
VP_REAL(colinear) {
  const double d = num<double>("distance", 0, 10), m = num<double>("max", 0, 10), p = num<double>("p1"), q = num<double>("p2");
  const auto x = vm::line_distance<double>::Parallel(p, d, q), y = vm::line_distance<double>::NonParallel(p, d, q);
  vp_check(x.is_colinear(m) == (d <= m), "parallel lines are colinear iff they are close enough");
  vp_check(!y.is_colinear(m), "lines that are not parallel are not colinear");
  vp_check(x.is_colinear() == (d <= 0.001), "default distance of colinear lines");
  vp_check(x.parallel && !y.parallel, "kind of a line distance");
  eq(x.position1, p, "a line distance stores its values"); eq(x.position2, q, "a line distance stores its values"); eq(x.distance, d, "a line distance stores its values");
  eq(y.position1, p, "a line distance stores its values"); eq(y.position2, q, "a line distance stores its values"); eq(y.distance, d, "a line distance stores its values");
}
