// Vector predicates and angle measurement (vec.h)
// BOUND: real arithmetic; components in [-10^6, 10^6]; dimension 2 to 4 (angles: 3)
// BOUND: the compile-time (_c) variants assume that sqrt_c returns the square root
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <cmath>
using namespace vp;
extern "C" double vp_stub_sqrt_c(double v) { return std::sqrt(v); }
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T, std::size_t S> static T dot_(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  T r = T(0);
  for (std::size_t i = 0; i < S; ++i) r = r + a.v[i] * b.v[i];
  return r;
}
template <typename T> static T margin() { return vp_is_replay() ? T(1e-4) : T(0); }

template <typename T, std::size_t S> static void unit() {
  const auto v = numvec<T, S>("v");
  const T e = num<T>("epsilon", T(0.0009765625), T(0.5));
  const T q = dot_(v, v);
  const bool u = vm::is_unit(v, e);
  // (1-e)^2 <= |v|^2 <= (1+e)^2
  if (u) {
    le(q, (T(1) + e) * (T(1) + e), "a unit vector is not longer than 1 + epsilon");
    le((T(1) - e) * (T(1) - e), q, "a unit vector is not shorter than 1 - epsilon");
  } else {
    const T s = margin<T>();
    vp_check(q > (T(1) + e) * (T(1) + e) - s || q < (T(1) - e) * (T(1) - e) + s, "vectors of unit length up to epsilon are recognised");
  }
  vp_check(vm::is_unit_c(v, e) == u, "compile-time variant");
}
VP_CFG(unit_d2, "stub=1") VP_CFG(unit_d3, "stub=1") VP_CFG(unit_f3, "stub=1")
VP_REAL(unit_d2) { unit<double, 2>(); }
VP_REAL(unit_d3) { unit<double, 3>(); }
VP_REAL(unit_f3) { unit<float, 3>(); }

// three points on a line are colinear, whatever epsilon is; colinear up to epsilon bounds the spanned area
template <typename T, std::size_t S> static void colinear_pos() {
  const auto a = numvec<T, S>("a"), d = numvec<T, S>("d");
  const T t = num<T>("t", T(-4), T(4)), s = num<T>("s", T(-4), T(4));
  const auto b = a + t * d, c = a + s * d;
  const T e = vp_is_replay() ? T(1) : num<T>("epsilon", T(0), T(1));
  vp_check(vm::is_colinear(a, b, c, e), "points on a line are colinear");
}
template <typename T, std::size_t S> static void colinear_neg() {
  const auto a = numvec<T, S>("a", T(-10), T(10)), b = numvec<T, S>("b", T(-10), T(10)), c = numvec<T, S>("c", T(-10), T(10));
  const T e = num<T>("epsilon", T(0), T(1));
  const auto ab = b - a, ac = c - a;
  const T gram = dot_(ab, ab) * dot_(ac, ac) - dot_(ab, ac) * dot_(ab, ac);
  T sq = T(0); // Lagrange identity: the same value as a sum of squares (tells the solver that it is not negative)
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t j = 0; j < i; ++j) { const T m = ab.v[i] * ac.v[j] - ab.v[j] * ac.v[i]; sq = sq + m * m; }
  vp_assume(sq >= T(0));
  const bool r = vm::is_colinear(a, b, c, e);
  if (r) le(gram, e, "colinear points span no area (up to epsilon)");
  else vp_check(gram > e - (vp_is_replay() ? T(1e-3) : T(0)), "points spanning no area (up to epsilon) are colinear");
}
VP_REAL(colinear_pos_d2) { colinear_pos<double, 2>(); }
VP_REAL(colinear_pos_d3) { colinear_pos<double, 3>(); }
VP_REAL(colinear_neg_d2) { colinear_neg<double, 2>(); }
VP_REAL(colinear_neg_d3) { colinear_neg<double, 3>(); }
VP_REAL(colinear_neg_f3) { colinear_neg<float, 3>(); }

template <typename T, std::size_t S> static void parallel() {
  const auto a = numvec<T, S>("a", T(-10), T(10)), b = numvec<T, S>("b", T(-10), T(10));
  const T e = num<T>("epsilon", T(0.0009765625), T(0.5));
  const T aa = dot_(a, a), bb = dot_(b, b), ab = dot_(a, b);
  vp_assume(aa >= T(0.01) && bb >= T(0.01));
  const T la = vm::length(a), lb = vm::length(b), m = ab < T(0) ? -ab : ab;
  vp_assume(m <= la * lb * (vp_is_replay() ? T(1.001) : T(1))); // Cauchy-Schwarz, a hint to the solver
  const bool r = vm::is_parallel(a, b, e);
  if (r) le((T(1) - e) * la * lb, m, "parallel vectors enclose an angle with |cos| >= 1 - epsilon");
  else vp_check(m < (T(1) - e) * la * lb + (vp_is_replay() ? T(1e-3) : T(0)), "vectors enclosing an angle with |cos| >= 1 - epsilon are parallel");
  vp_check(vm::is_parallel_c(a, b, e) == r, "compile-time variant");
}
VP_CFG(parallel_d2, "stub=1") VP_CFG(parallel_d3, "stub=1") VP_CFG(parallel_f3, "stub=1")
VP_REAL(parallel_d2) { parallel<double, 2>(); }
VP_REAL(parallel_d3) { parallel<double, 3>(); }
VP_REAL(parallel_f3) { parallel<float, 3>(); }

// p = s + t (e - s) lies between s and e iff 0 <= t <= 1
template <typename T, std::size_t S> static void between() {
  const auto s = numvec<T, S>("s"), e = numvec<T, S>("e");
  const T t = num<T>("t", T(-4), T(4));
  const auto d = e - s;
  vp_assume(dot_(d, d) >= T(0.01));
  const auto p = s + t * d;
  if (vp_is_replay() && (abs_(t) < T(1e-6) || abs_(t - T(1)) < T(1e-6)) && t != T(0) && t != T(1)) return;
  const bool r = vm::is_between(p, s, e);
  vp_check(r == (t >= T(0) && t <= T(1)), "a point of the line is between the ends iff its parameter is in [0,1]");
  vp_check(vm::is_between_c(p, s, e) == r, "compile-time variant");
}
VP_CFG(between_d2, "stub=1") VP_CFG(between_d3, "stub=1") VP_CFG(between_f3, "stub=1")
VP_REAL(between_d2) { between<double, 2>(); }
VP_REAL(between_d3) { between<double, 3>(); }
VP_REAL(between_f3) { between<float, 3>(); }

// counter-clockwise angle from the axis to v as seen from the tip of up
template <typename T> static void angle() {
  // axis: a unit vector of the xy, yz or zx plane; v: any unit vector; up: any vector
  const int k = vp_choose("plane", 3), ki = k, kj = (k + 1) % 3;
  const auto up = numvec<T, 3>("up", T(-1), T(1)), v = numvec<T, 3>("v", T(-1), T(1));
  const T ci = num<T>("axis", T(-1), T(1)), cj = num<T>("axis", T(-1), T(1));
  vm::vec<T, 3> axis(T(0), T(0), T(0));
  axis.v[ki] = ci; axis.v[kj] = cj;
  if (!vp_is_replay()) { vp_assume(ci * ci + cj * cj == T(1)); vp_assume(dot_(v, v) == T(1)); }
  else { vp_assume(abs_(dot_(axis, axis) - T(1)) < T(1e-5)); vp_assume(abs_(dot_(v, v) - T(1)) < T(1e-5)); }
  const T vd = dot_(v, axis);
  vp_assume(vd >= T(-1) && vd <= T(1)); // Cauchy-Schwarz, a hint to the solver
  const T a = vm::measure_angle(v, axis, up);
  le(T(0), a, "the angle is not negative");
  le(a, vm::constants<T>::two_pi(), "the angle is at most a full turn");
  eq(T(std::cos(a)), dot_(v, axis), "the cosine of the angle is the dot product");
  const T det = axis.v[0] * (v.v[1] * up.v[2] - v.v[2] * up.v[1]) + axis.v[1] * (v.v[2] * up.v[0] - v.v[0] * up.v[2]) + axis.v[2] * (v.v[0] * up.v[1] - v.v[1] * up.v[0]);
  if (det > T(0)) le(a, vm::constants<T>::pi(), "counter-clockwise angles are less than half a turn");
  if (det < T(0)) le(vm::constants<T>::pi(), a, "clockwise angles are more than half a turn");
}
VP_REAL(angle_d) { angle<double>(); }
VP_REAL(angle_f) { angle<float>(); }
// a vector measured against itself encloses no angle with it, against its opposite half a turn: never a full turn
template <typename T> static void angle_self() {
  const int k = vp_choose("plane", 3), ki = k, kj = (k + 1) % 3;
  const auto up = numvec<T, 3>("up", T(-1), T(1));
  const T ci = num<T>("axis", T(-1), T(1)), cj = num<T>("axis", T(-1), T(1));
  vm::vec<T, 3> axis(T(0), T(0), T(0)), v;
  axis.v[ki] = ci; axis.v[kj] = cj;
  const bool opposite = vp_choose("opposite", 2) == 1;
  for (std::size_t i = 0; i < 3; ++i) v.v[i] = opposite ? -axis.v[i] : axis.v[i];
  if (!vp_is_replay()) vp_assume(ci * ci + cj * cj == T(1));
  else vp_assume(abs_(dot_(axis, axis) - T(1)) < T(1e-7));
  const T a = vm::measure_angle(v, axis, up), want = opposite ? vm::constants<T>::pi() : T(0);
  if (!vp_is_replay()) vp_check(a == want, "a vector and itself enclose no angle, a vector and its opposite half a turn");
  else vp_check(abs_(a - want) < T(0.1), "a vector and itself enclose no angle, a vector and its opposite half a turn");
}
VP_REAL(angle_self_d) { angle_self<double>(); }
VP_REAL(angle_self_f) { angle_self<float>(); }
