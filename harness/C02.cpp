// Scalar selection, clamping and classification (scalar.h, vec.h component-wise variants)
// BOUND: IEEE-exact over every float, double and 32 bit int value; argument lists of length 1 to 5
// BOUND: component-wise variants on vectors of dimension 2 to 4
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <limits>
using namespace vp;

template <typename T> static bool isnan_(T v) { return v != v; }
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T> static void lo(T r, std::initializer_list<T> l, const char* id) {
  bool in = false, bound = true;
  for (const T x : l) { in = in | (r == x); bound = bound & (r <= x); }
  vp_check(in & bound, id);
}
template <typename T> static void hi(T r, std::initializer_list<T> l, const char* id) {
  bool in = false, bound = true;
  for (const T x : l) { in = in | (r == x); bound = bound & (r >= x); }
  vp_check(in & bound, id);
}
template <typename T> static void alo(T r, std::initializer_list<T> l, const char* id) {
  bool in = false, bound = true;
  for (const T x : l) { in = in | (r == x); bound = bound & (abs_(r) <= abs_(x)); }
  vp_check(in & bound, id);
}
template <typename T> static void ahi(T r, std::initializer_list<T> l, const char* id) {
  bool in = false, bound = true;
  for (const T x : l) { in = in | (r == x); bound = bound & (abs_(r) >= abs_(x)); }
  vp_check(in & bound, id);
}
template <typename T> static void ok(T v) {
  vp_assume(v == v);
  if (std::is_integral<T>::value) vp_assume(v > std::numeric_limits<T>::min());
}
template <typename T> static T in(const char* n) {
  const T v = sym<T>(n);
  ok(v);
  return v;
}
template <typename T> static void select_() {
  const T a = in<T>("a"), b = in<T>("b"), c = in<T>("c"), d = in<T>("d"), e = in<T>("e");
  eq(vm::min(a), a, "min of one value");
  eq(vm::max(a), a, "max of one value");
  lo(vm::min(a, b), {a, b}, "min of two values");
  lo(vm::min(a, b, c), {a, b, c}, "min of three values");
  lo(vm::min(a, b, c, d), {a, b, c, d}, "min of four values");
  lo(vm::min(a, b, c, d, e), {a, b, c, d, e}, "min of five values");
  hi(vm::max(a, b), {a, b}, "max of two values");
  hi(vm::max(a, b, c), {a, b, c}, "max of three values");
  hi(vm::max(a, b, c, d), {a, b, c, d}, "max of four values");
  hi(vm::max(a, b, c, d, e), {a, b, c, d, e}, "max of five values");
}
template <typename T> static void abs_select() {
  const T a = in<T>("a"), b = in<T>("b"), c = in<T>("c"), d = in<T>("d");
  eq(vm::abs(a), abs_(a), "absolute value");
  alo(vm::abs_min(a), {a}, "abs_min of one value");
  ahi(vm::abs_max(a), {a}, "abs_max of one value");
  alo(vm::abs_min(a, b), {a, b}, "abs_min of two values");
  alo(vm::abs_min(a, b, c), {a, b, c}, "abs_min of three values");
  alo(vm::abs_min(a, b, c, d), {a, b, c, d}, "abs_min of four values");
  ahi(vm::abs_max(a, b), {a, b}, "abs_max of two values");
  ahi(vm::abs_max(a, b, c), {a, b, c}, "abs_max of three values");
  ahi(vm::abs_max(a, b, c, d), {a, b, c, d}, "abs_max of four values");
}
// the result is a value of the list, no other value beats it, and it is NaN only if all values are
template <typename T> static void slo(T r, std::initializer_list<T> l, const char* id) {
  bool in = false, bound = true, alln = true;
  for (const T x : l) { in = in | (r == x); bound = bound & (isnan_(x) | (r <= x)); alln = alln & isnan_(x); }
  vp_check((in & bound) | (alln & isnan_(r)), id);
}
template <typename T> static void shi(T r, std::initializer_list<T> l, const char* id) {
  bool in = false, bound = true, alln = true;
  for (const T x : l) { in = in | (r == x); bound = bound & (isnan_(x) | (r >= x)); alln = alln & isnan_(x); }
  vp_check((in & bound) | (alln & isnan_(r)), id);
}
template <typename T> static void safe_select() {
  const T a = sym<T>("a"), b = sym<T>("b"), c = sym<T>("c"), d = sym<T>("d");
  slo(vm::safe_min(a), {a}, "safe_min of one value");
  shi(vm::safe_max(a), {a}, "safe_max of one value");
  slo(vm::safe_min(a, b), {a, b}, "safe_min of two values");
  slo(vm::safe_min(a, b, c), {a, b, c}, "safe_min of three values");
  slo(vm::safe_min(a, b, c, d), {a, b, c, d}, "safe_min of four values");
  shi(vm::safe_max(a, b), {a, b}, "safe_max of two values");
  shi(vm::safe_max(a, b, c), {a, b, c}, "safe_max of three values");
  shi(vm::safe_max(a, b, c, d), {a, b, c, d}, "safe_max of four values");
}
template <typename T> static void clamp_() {
  const T v = in<T>("v"), l = in<T>("lo"), h = in<T>("hi");
  vp_assume(l <= h);
  const T r = vm::clamp(v, l, h);
  vp_check((l <= r) & (r <= h), "clamp stays within the bounds");
  vp_check((r == v) | ((v < l) & (r == l)) | ((v > h) & (r == h)), "clamp only moves values outside of the bounds, to the nearest bound");
  const T u = vm::clamp(v);
  vp_check((T(0) <= u) & (u <= T(1)) & ((u == v) | ((v < T(0)) & (u == T(0))) | ((v > T(1)) & (u == T(1)))), "clamp to the unit interval");
}
template <typename T> static void classify_() {
  const T v = in<T>("v"), e = in<T>("edge"), s = in<T>("s"), t = in<T>("t");
  eq(vm::sign(v), v < T(0) ? T(-1) : v > T(0) ? T(1) : T(0), "sign");
  eq(vm::step(e, v), v < e ? T(0) : T(1), "step");
  vp_check(vm::contains(v, s, t) == (((s <= v) & (v <= t)) | ((t <= v) & (v <= s))), "contains: v is between the bounds in either order");
}
template <typename T> static void fpclass_() {
  const T v = sym<T>("v"), w = sym<T>("w"), e = sym<T>("epsilon");
  const T inf = std::numeric_limits<T>::infinity();
  vp_check(vm::is_nan(v) == (v != v), "is_nan");
  vp_check(vm::is_inf(v) == ((v == inf) | (v == -inf)), "is_inf");
  vp_check(isnan_(vm::nan<T>()), "nan is not a number");
  const T diff = v - w;
  vp_check(vm::is_equal(v, w, e) == ((diff <= e) & (-diff <= e)), "is_equal: the difference is at most epsilon");
  if (e >= T(0)) vp_check(vm::is_zero(v, e) == ((v <= e) & (-v <= e)), "is_zero: the magnitude is at most epsilon");
  if (fin(v) & (e >= T(0))) vp_check(vm::is_equal(v, v, e), "is_equal is reflexive");
  const T s = vm::sign(v);
  if (isnan_(v)) vp_check(s == T(0), "the sign of a non-number is zero");
  vp_check(!vm::contains(vm::nan<T>(), v, w), "no interval contains a non-number");
}
VP_FP(select_d) { select_<double>(); }
VP_FP(select_f) { select_<float>(); }
VP_FP(select_i) { select_<int>(); }
VP_FP(abs_select_d) { abs_select<double>(); }
VP_FP(abs_select_f) { abs_select<float>(); }
VP_FP(abs_select_i) { abs_select<int>(); }
VP_FP(safe_select_d) { safe_select<double>(); }
VP_FP(safe_select_f) { safe_select<float>(); }
VP_FP(clamp_d) { clamp_<double>(); }
VP_FP(clamp_f) { clamp_<float>(); }
VP_FP(clamp_i) { clamp_<int>(); }
VP_FP(classify_d) { classify_<double>(); }
VP_FP(classify_f) { classify_<float>(); }
VP_FP(classify_i) { classify_<int>(); }
VP_FP(fpclass_d) { fpclass_<double>(); }
VP_FP(fpclass_f) { fpclass_<float>(); }
VP_FP(unsigned_difference) {
  const auto a = static_cast<std::uint32_t>(sym<int>("a")), b = static_cast<std::uint32_t>(sym<int>("b"));
  const auto d = vm::abs_difference(a, b);
  vp_check(a >= b ? d == a - b : d == b - a, "the difference of two unsigned values is the distance between them");
  const auto al = static_cast<std::uint64_t>(sym<std::int64_t>("al")), bl = static_cast<std::uint64_t>(sym<std::int64_t>("bl"));
  vp_check(vm::abs_difference(al, bl) == (al >= bl ? al - bl : bl - al), "the difference of two unsigned values is the distance between them");
}
template <typename T> static void nonneg_difference() {
  const T a = in<T>("a"), b = in<T>("b");
  vp_assume((a >= T(0)) & (b >= T(0)));
  const T d = vm::abs_difference(a, b);
  const T s = a - b;
  eq(d, a >= b ? s : -s, "the difference of two non-negative values is the distance between them");
}
VP_FP(nonneg_difference_d) { nonneg_difference<double>(); }
VP_FP(nonneg_difference_i) { nonneg_difference<int>(); }

template <typename T> static void symmetric_() {
  const T a = num<T>("a"), b = num<T>("b"), e = num<T>("epsilon");
  vp_check(vm::is_equal(a, b, e) == vm::is_equal(b, a, e), "is_equal is symmetric");
  eq(vm::abs_difference(a, b), vm::abs_difference(b, a), "abs_difference is symmetric");
}
VP_REAL(symmetric_d) { symmetric_<double>(); }
VP_REAL(symmetric_f) { symmetric_<float>(); }

// component-wise variants
template <typename T, std::size_t S> static void vecs() {
  const auto a = symvec<T, S>("a"), b = symvec<T, S>("b"), c = symvec<T, S>("c");
  for (std::size_t i = 0; i < S; ++i) { ok(a.v[i]); ok(b.v[i]); ok(c.v[i]); }
  const auto mi = vm::min(a, b), ma = vm::max(a, b), ami = vm::abs_min(a, b), ama = vm::abs_max(a, b), ab = vm::abs(a);
  const auto mi3 = vm::min(a, b, c), ma3 = vm::max(a, b, c), ami3 = vm::abs_min(a, b, c), ama3 = vm::abs_max(a, b, c);
  const auto cl = vm::clamp(a, b, c), sg = vm::sign(a), st = vm::step(a, b);
  for (std::size_t i = 0; i < S; ++i) {
    const T x = a.v[i], y = b.v[i], z = c.v[i];
    eq(mi.v[i], x < y ? x : y, "min of vectors");
    eq(ma.v[i], x > y ? x : y, "max of vectors");
    eq(ami.v[i], vm::abs_min(x, y), "abs_min of vectors");
    eq(ama.v[i], vm::abs_max(x, y), "abs_max of vectors");
    lo(mi3.v[i], {x, y, z}, "min of three vectors");
    hi(ma3.v[i], {x, y, z}, "max of three vectors");
    alo(ami3.v[i], {x, y, z}, "abs_min of three vectors");
    ahi(ama3.v[i], {x, y, z}, "abs_max of three vectors");
    eq(ab.v[i], abs_(x), "abs of a vector");
    eq(y <= z ? cl.v[i] : T(0), y <= z ? vm::clamp(x, y, z) : T(0), "clamp of a vector");
    eq(sg.v[i], vm::sign(x), "sign of a vector");
    eq(st.v[i], vm::step(x, y), "step of a vector");
  }
}
VP_FP(vecs_d2) { vecs<double, 2>(); }
VP_FP(vecs_d3) { vecs<double, 3>(); }
VP_FP(vecs_f4) { vecs<float, 4>(); }
VP_FP(vecs_i3) { vecs<int, 3>(); }
