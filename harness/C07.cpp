// Vector arithmetic and vector algebra (vec.h)
// BOUND: component-wise operators: IEEE-exact over all values, dimension 1 to 4, float/double/int
// BOUND: products, lengths, distances, averages, homogeneous coordinates: real arithmetic, all components in [-10^6, 10^6]; averages of 1 to 4, 9, 17 and 33 vectors
// BOUND: the compile-time (_c) variants assume that sqrt_c returns the square root
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <cmath>
#include <vector>
using namespace vp;
extern "C" double vp_stub_sqrt_c(double v) { return std::sqrt(v); }

template <typename T, std::size_t S> static void ops() {
  const auto a = symvec<T, S>("a"), b = symvec<T, S>("b");
  const T f = sym<T>("f");
  const auto n = -a, s = a + b, d = a - b, m = a * b, mf = a * f, fm = f * a;
  for (std::size_t i = 0; i < S; ++i) {
    eq(n.v[i], -a.v[i], "negation");
    eq(s.v[i], a.v[i] + b.v[i], "sum");
    eq(d.v[i], a.v[i] - b.v[i], "difference");
    eq(m.v[i], a.v[i] * b.v[i], "component-wise product");
    eq(mf.v[i], a.v[i] * f, "product with a scalar on the right");
    eq(fm.v[i], a.v[i] * f, "product with a scalar on the left");
  }
}
template <typename T, std::size_t S> static void divs() {
  const auto a = symvec<T, S>("a"), b = symvec<T, S>("b");
  const T f = sym<T>("f");
  const auto q = a / b, qf = a / f, fq = f / a;
  for (std::size_t i = 0; i < S; ++i) {
    eq(q.v[i], a.v[i] / b.v[i], "component-wise quotient");
    eq(qf.v[i], a.v[i] / f, "quotient by a scalar");
    eq(fq.v[i], f / a.v[i], "quotient of a scalar by a vector");
  }
}
template <typename T, std::size_t S> static void all() { ops<T, S>(); divs<T, S>(); }
VP_FP(ops_d1) { all<double, 1>(); }
VP_FP(ops_d2) { all<double, 2>(); }
VP_FP(ops_d3) { all<double, 3>(); }
VP_FP(ops_d4) { all<double, 4>(); }
VP_FP(ops_f3) { all<float, 3>(); }
VP_FP(ops_i3) { ops<int, 3>(); }

template <typename T, std::size_t S> static T rdot(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  T r = a.v[S - 1] * b.v[S - 1];
  for (std::size_t i = S - 1; i-- > 0;) r = a.v[i] * b.v[i] + r;
  return r;
}
template <typename T, std::size_t S> static void metric() {
  const auto a = numvec<T, S>("a"), b = numvec<T, S>("b");
  eq(vm::dot(a, b), rdot(a, b), "dot product");
  eq(vm::squared_length(a), rdot(a, a), "squared length");
  const T l = vm::length(a);
  le(T(0), l, "a length is not negative");
  eq(l * l, rdot(a, a), "length");
  eq(vm::length_c(a), l, "length (compile-time variant)");
  eq(vm::squared_distance(a, b), rdot(a - b, a - b), "squared distance");
  const T d = vm::distance(a, b);
  le(T(0), d, "a distance is not negative");
  eq(d * d, rdot(a - b, a - b), "distance");
  eq(vm::distance_c(a, b), d, "distance (compile-time variant)");
  eq(vm::distance(b, a), d, "distance is symmetric");
}
VP_CFG(metric_d1, "stub=1") VP_CFG(metric_d2, "stub=1") VP_CFG(metric_d3, "stub=1") VP_CFG(metric_d4, "stub=1") VP_CFG(metric_f3, "stub=1")
VP_REAL(metric_d1) { metric<double, 1>(); }
VP_REAL(metric_d2) { metric<double, 2>(); }
VP_REAL(metric_d3) { metric<double, 3>(); }
VP_REAL(metric_d4) { metric<double, 4>(); }
VP_REAL(metric_f3) { metric<float, 3>(); }
template <typename T, std::size_t S> static void normal() {
  const auto a = numvec<T, S>("a");
  vp_assume(rdot(a, a) >= T(0.0001));
  const auto n = vm::normalize(a);
  const T l = vm::length(a);
  eq(rdot(n, n), T(1), "a normalized vector has unit length");
  for (std::size_t i = 0; i < S; ++i) eq(n.v[i] * l, a.v[i], "normalization keeps the direction");
  eq(vm::normalize_c(a), n, "normalization (compile-time variant)");
}
VP_CFG(normal_d2, "stub=1") VP_CFG(normal_d3, "stub=1") VP_CFG(normal_d4, "stub=1") VP_CFG(normal_f3, "stub=1")
VP_REAL(normal_d2) { normal<double, 2>(); }
VP_REAL(normal_d3) { normal<double, 3>(); }
VP_REAL(normal_d4) { normal<double, 4>(); }
VP_REAL(normal_f3) { normal<float, 3>(); }
template <typename T> static void crossp() {
  const auto a = numvec<T, 3>("a"), b = numvec<T, 3>("b"), c = numvec<T, 3>("c");
  const auto x = vm::cross(a, b);
  eq(x.v[0], a.v[1] * b.v[2] - a.v[2] * b.v[1], "cross product, x");
  eq(x.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], "cross product, y");
  eq(x.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0], "cross product, z");
  eq(vm::dot(x, a), T(0), "the cross product is perpendicular to its operands");
  eq(vm::dot(x, b), T(0), "the cross product is perpendicular to its operands");
  eq(vm::squared_length(x), rdot(a, a) * rdot(b, b) - rdot(a, b) * rdot(a, b), "Lagrange identity");
  eq(vm::dot(vm::cross(a, b), c), vm::dot(a, vm::cross(b, c)), "triple product");
  eq(vm::cross(b, a), -x, "the cross product is anticommutative");
}
VP_REAL(cross_d) { crossp<double>(); }
VP_REAL(cross_f) { crossp<float>(); }
struct P { vm::vec<double, 3> p; };
template <typename T, std::size_t S> static void avg(int n) {
  std::vector<vm::vec<T, S>> l;
  for (int i = 0; i < n; ++i) l.push_back(numvec<T, S>("p"));
  const auto m = vm::average(l.begin(), l.end());
  for (std::size_t k = 0; k < S; ++k) {
    T s = T(0);
    for (int i = n; i-- > 0;) s += l[i].v[k];
    eq(m.v[k] * T(n), s, "the average times the count is the sum");
  }
}
VP_REAL(average_d3) { avg<double, 3>(1 + vp_choose("n", 4)); }
VP_REAL(average_f2) { avg<float, 2>(1 + vp_choose("n", 4)); }
VP_REAL(average_long) { const int n = vp_choose("n", 3); avg<double, 2>(n == 0 ? 9 : n == 1 ? 17 : 33); }
VP_REAL(average_get) {
  const int n = 1 + vp_choose("n", 3);
  P l[3];
  for (int i = 0; i < n; ++i) l[i].p = numvec<double, 3>("p");
  const auto m = vm::average(l, l + n, [](const P& p) { return p.p; });
  for (std::size_t k = 0; k < 3; ++k) {
    double s = 0;
    for (int i = n; i-- > 0;) s += l[i].p.v[k];
    eq(m.v[k] * double(n), s, "the average times the count is the sum");
  }
}
template <typename T, std::size_t S> static void homog() {
  const auto a = numvec<T, S>("a");
  const T w = num<T>("w", T(0.01), T(1000000)) * (vp_choose("sign", 2) ? T(1) : T(-1));
  const auto h = vm::to_homogeneous_coords(a);
  for (std::size_t i = 0; i < S; ++i) eq(h.v[i], a.v[i], "homogeneous coordinates keep the point");
  eq(h.v[S], T(1), "the homogeneous coordinate is one");
  eq(vm::to_cartesian_coords(h), a, "conversion to homogeneous coordinates and back");
  eq(vm::to_cartesian_coords(h * w), a, "homogeneous coordinates are scale-invariant");
  const auto c = vm::to_cartesian_coords(vm::vec<T, S + 1>(a, w));
  for (std::size_t i = 0; i < S; ++i) eq(c.v[i] * w, a.v[i], "division by the last coordinate");
}
VP_REAL(homog_d2) { homog<double, 2>(); }
VP_REAL(homog_d3) { homog<double, 3>(); }
VP_REAL(homog_f3) { homog<float, 3>(); }
