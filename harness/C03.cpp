// Cyclic arithmetic, angle normalisation, interpolation and unit conversion (scalar.h, vec.h)
// BOUND: cyclic indices: every count up to 10^6 and every index below it (int, size_t); with strides: counts and strides up to 127 (int) and 63 (size_t); bit-exact
// BOUND: mod: real arithmetic, |x| <= 2^16, 2^-6 <= |y| <= 2^10; normalize_*: real arithmetic, angles from -3 to +8 full turns
// BOUND: mix/smoothstep/to_degrees/to_radians: real arithmetic, all finite reals; nextgreater: every float and double
// BOUND: sqrt_c: special values and fourteen fixed arguments only (its Newton iteration has no solver-tractable bound)
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <limits>
using namespace vp;

template <typename T> static T idx(const char* n, T lo, T hi) {
  const T v = static_cast<T>(sym<int>(n));
  vp_assume(v >= lo && v <= hi);
  return v;
}
template <typename T, typename U, int M> static void cyclic() {
  const U count = idx<U>("count", 1, M);
  const T i = idx<T>("index", 0, M);
  vp_assume(i < static_cast<T>(count));
  const T c = static_cast<T>(count);
  const T s1 = vm::succ(i, count), p1 = vm::pred(i, count);
  vp_check(s1 == (i + 1 == c ? 0 : i + 1), "succ advances by one and wraps around");
  vp_check(p1 == (i == 0 ? c - 1 : i - 1), "pred goes back by one and wraps around");
  vp_check(vm::pred(s1, count) == i, "pred undoes succ");
  vp_check(vm::succ(p1, count) == i, "succ undoes pred");
}
VP_FP(cyclic_i) { cyclic<int, int, 1000000>(); }
VP_FP(cyclic_z) { cyclic<std::size_t, std::size_t, 1000000>(); }
VP_FP(cyclic_iz) { cyclic<int, std::size_t, 1000000>(); }
template <typename T, int M> static void strided() {
  const T c = idx<T>("count", 1, M), i = idx<T>("index", 0, M), st = idx<T>("stride", 0, M);
  vp_assume(i < c);
  const T s = vm::succ(i, c, st), p = vm::pred(i, c, st);
  vp_check(s < c && p < c && s >= 0 && p >= 0, "a strided index stays in range");
  vp_check(s == (i + st) % c, "succ advances by the stride");
  vp_check(vm::succ(p, c, st) == i, "succ undoes pred");
}
VP_FP(strided_i) { strided<int, 127>(); }
VP_FP(strided_z) { strided<std::size_t, 63>(); }

template <typename T> static void mod_() {
  const T x = num<T>("x", T(-65536), T(65536)), y = num<T>("y", T(-1024), T(1024));
  vp_assume(y >= T(0.015625) || y <= T(-0.015625));
  const T m = vm::mod(x, y);
  const T q = (x - m) / y;
  if (!vp_is_replay()) {
    eq(q, vm::trunc(q), "x and x mod y differ by a multiple of y");
    vp_check((m < T(0) ? -m : m) < (y < T(0) ? -y : y), "the remainder is smaller than the divisor");
    vp_check(m * x >= T(0), "the remainder has the sign of the dividend");
  } else {
    eq(q, vm::round(q), "x and x mod y differ by a multiple of y");
    le((m < T(0) ? -m : m), (y < T(0) ? -y : y), "the remainder is smaller than the divisor");
    le(T(0), m * (x < T(0) ? T(-1) : T(1)), "the remainder has the sign of the dividend");
  }
}
VP_REAL(mod_d) { mod_<double>(); }
VP_REAL(mod_f) { mod_<float>(); }

template <typename T> static void norm_(T turn, T (*f)(T)) {
  const T u = num<T>("turns", T(-3), T(8));
  const T a = u * turn;
  const T r = f(a);
  const T k = (a - r) / turn;
  le(T(0), r, "a normalized angle is not negative");
  if (!vp_is_replay()) {
    vp_check(r < turn, "a normalized angle is less than a full turn");
    eq(k, vm::trunc(k), "normalization adds full turns only");
  } else {
    le(r, turn, "a normalized angle is less than a full turn");
    eq(k, vm::round(k), "normalization adds full turns only");
  }
}
VP_REAL(degrees_d) { norm_<double>(360.0, &vm::normalize_degrees<double>); }
VP_REAL(degrees_f) { norm_<float>(360.0f, &vm::normalize_degrees<float>); }
VP_REAL(radians_d) { norm_<double>(vm::constants<double>::two_pi(), &vm::normalize_radians<double>); }
VP_REAL(radians_f) { norm_<float>(vm::constants<float>::two_pi(), &vm::normalize_radians<float>); }

template <typename T> static void interp_() {
  const T x = num<T>("x"), y = num<T>("y"), a = num<T>("a");
  const T m = vm::mix(x, y, a);
  eq(m, x + a * (y - x), "mix interpolates linearly");
  eq(vm::mix(x, y, T(0)), x, "mix starts at the first value");
  eq(vm::mix(x, y, T(1)), y, "mix ends at the second value");
  if (a >= T(0) && a <= T(1) && x <= y) {
    le(x, m, "mix stays between its arguments");
    le(m, y, "mix stays between its arguments");
  }
}
VP_REAL(mix_d) { interp_<double>(); }
VP_REAL(mix_f) { interp_<float>(); }
template <typename T> static void smooth_() {
  const T e0 = num<T>("e0"), e1 = num<T>("e1"), v = num<T>("v");
  vp_assume(e0 < e1);
  const T s = vm::smoothstep(e0, e1, v);
  le(T(0), s, "smoothstep is at least 0");
  le(s, T(1), "smoothstep is at most 1");
  if (v <= e0) eq(s, T(0), "smoothstep is 0 up to the first edge");
  else if (v >= e1) eq(s, T(1), "smoothstep is 1 from the second edge");
  else {
    const T t = (v - e0) / (e1 - e0);
    eq(s, t * t * (T(3) - T(2) * t), "smoothstep is the Hermite interpolation between the edges");
  }
}
VP_REAL(smoothstep_d) { smooth_<double>(); }
VP_REAL(smoothstep_f) { smooth_<float>(); }
template <typename T> static void smooth_mono() {
  const T e0 = num<T>("e0"), e1 = num<T>("e1"), v = num<T>("v");
  vp_assume(e0 < e1 && v >= e0 && v <= e1);
  eq(vm::smoothstep(e0, e1, v) + vm::smoothstep(e0, e1, e0 + e1 - v), T(1), "smoothstep is point-symmetric");
}
VP_REAL(smoothstep_sym_d) { smooth_mono<double>(); }
template <typename T> static void conv_() {
  const T d = num<T>("d", T(-720), T(720));
  eq(vm::to_degrees(vm::to_radians(d)), d, "degrees -> radians -> degrees");
  eq(vm::to_radians(vm::to_degrees(d)), d, "radians -> degrees -> radians");
  eq(vm::to_radians(d) * T(180), d * vm::constants<T>::pi(), "180 degrees are pi");
  eq(vm::constants<T>::two_pi(), vm::constants<T>::pi() * T(2), "two pi");
  eq(vm::constants<T>::half_pi() * T(2), vm::constants<T>::pi(), "half pi");
  eq(vm::constants<T>::quarter_pi() * T(4), vm::constants<T>::pi(), "quarter pi");
  eq(vm::constants<T>::three_half_pi() * T(2), vm::constants<T>::pi() * T(3), "three halves of pi");
}
VP_REAL(conv_d) { conv_<double>(); }
VP_REAL(conv_f) { conv_<float>(); }
template <typename T> static void next_() {
  const T v = sym<T>("v"), w = sym<T>("w");
  const T inf = std::numeric_limits<T>::infinity();
  const T n = vm::nextgreater(v);
  vp_check((v != v) | (v == inf) | (n > v), "nextgreater is greater");
  vp_check(!(w > v) | (n <= w), "there is no value in between");
  vp_check(!(v == inf) | (n == inf), "nothing is greater than infinity");
}
VP_FP(next_d) { next_<double>(); }
VP_FP(next_f) { next_<float>(); }
template <typename T> static void sqrt_special() {
  const T inf = std::numeric_limits<T>::infinity();
  switch (vp_choose("case", 5)) {
  case 0: vp_check(vm::sqrt_c(T(0)) == T(0), "square root of zero"); break;
  case 1: vp_check(vm::sqrt_c(T(1)) == T(1), "square root of one"); break;
  case 2: vp_check(vm::sqrt_c(inf) == inf, "square root of infinity"); break;
  case 3: { const T r = vm::sqrt_c(vm::nan<T>()); vp_check(r != r, "square root of a non-number"); break; }
  default: {
    const T v = sym<T>("v");
    vp_assume(v < T(0));
    const T r = vm::sqrt_c(v);
    vp_check(r != r, "square root of a negative value");
  } }
}


// fixed arguments of various magnitudes: every iteration is a division, so symbolic ones are out of reach
template <typename T> static void sqrt_fixed() {
  static const T V[14] = {T(2), T(3), T(1e-8), T(2.5e-7), T(1e-4), T(0.3), T(7), T(100), T(1e5), T(123456), T(1e8), T(3e-11), T(5e11), T(0.999)};
  const T v = V[vp_choose("argument", 14)], r = vm::sqrt_c(v), d = r * r - v;
  vp_check(r > T(0), "the square root of a positive value is positive");
  vp_check(d <= v * T(1e-6) && d >= v * T(-1e-6), "a square root squares back to the argument");
}
VP_CFG(sqrt_fixed_d, "merge=0")
VP_CFG(sqrt_fixed_f, "merge=0")
VP_FP(sqrt_fixed_d) { sqrt_fixed<double>(); }
VP_FP(sqrt_fixed_f) { sqrt_fixed<float>(); }
VP_CFG(sqrt_special_d, "merge=0")
VP_CFG(sqrt_special_f, "merge=0")
VP_FP(sqrt_special_d) { sqrt_special<double>(); }
VP_FP(sqrt_special_f) { sqrt_special<float>(); }
template <typename T> static void sqrt_() {
  const T v = sym<T>("v");
  const T r = vm::sqrt(v);
  vp_check(v >= T(0) ? r >= T(0) : r != r, "sqrt is defined for non-negative values only");
}
VP_FP(sqrt_f) { sqrt_<float>(); }
template <typename T> static void sqrt_r() {
  const T v = num<T>("v", T(0), T(10000));
  const T r = vm::sqrt(v);
  le(T(0), r, "sqrt is not negative");
  eq(r * r, v, "sqrt inverts squaring");
}
VP_REAL(sqrt_r) { sqrt_r<double>(); }
VP_REAL(sqrt_rf) { sqrt_r<float>(); }
template <typename T, std::size_t S> static void vecs() {
  const auto a = numvec<T, S>("a"), b = numvec<T, S>("b"), c = numvec<T, S>("c");
  const T f = num<T>("f");
  const auto m = vm::mix(a, b, c);
  for (std::size_t i = 0; i < S; ++i) eq(m.v[i], a.v[i] + c.v[i] * (b.v[i] - a.v[i]), "mix of vectors");
}
VP_REAL(vecmix_d3) { vecs<double, 3>(); }
VP_REAL(vecmix_f2) { vecs<float, 2>(); }
template <typename T, std::size_t S> static void vecsmooth() {
  const auto a = numvec<T, S>("a"), b = numvec<T, S>("b"), v = numvec<T, S>("v");
  for (std::size_t i = 0; i < S; ++i) vp_assume(a.v[i] < b.v[i]);
  const auto s = vm::smoothstep(a, b, v);
  for (std::size_t i = 0; i < S; ++i) eq(s.v[i], vm::smoothstep(a.v[i], b.v[i], v.v[i]), "smoothstep of vectors");
}
VP_REAL(vecsmooth_d3) { vecsmooth<double, 3>(); }
VP_REAL(vecsmooth_f2) { vecsmooth<float, 2>(); }
template <typename T, std::size_t S> static void vecmod() {
  const auto v = symvec<T, S>("v"), w = symvec<T, S>("w");
  const auto m = vm::mod(v, w);
  for (std::size_t i = 0; i < S; ++i) eq(m.v[i], vm::mod(v.v[i], w.v[i]), "mod of vectors");
}
VP_FP(vecmod_d3) { vecmod<double, 3>(); }
