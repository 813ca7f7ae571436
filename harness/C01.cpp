// Rounding, truncation, snapping and integer correction (scalar.h, vec.h)
// BOUND: IEEE-exact over every float and every double bit pattern for trunc/floor/ceil/round/round_up/round_down/fract/correct(0 decimals)/is_integral
// BOUND: snapping: real arithmetic, |v| <= 2^20, 2^-10 <= grid <= 2^10
// BOUND: vectors of dimension 2 to 4
#include "vp.h"
#include <vecmath/scalar.h>
using namespace vp;

template <typename T> static T btrunc(T v);
template <> double btrunc(double v) { return __builtin_trunc(v); }
template <> float btrunc(float v) { return __builtin_truncf(v); }
template <typename T> static T bfloor(T v);
template <> double bfloor(double v) { return __builtin_floor(v); }
template <> float bfloor(float v) { return __builtin_floorf(v); }
template <typename T> static T bceil(T v);
template <> double bceil(double v) { return __builtin_ceil(v); }
template <> float bceil(float v) { return __builtin_ceilf(v); }
template <typename T> static T bround(T v);
template <> double bround(double v) { return __builtin_round(v); }
template <> float bround(float v) { return __builtin_roundf(v); }

template <typename T> static void rounding() {
  const T v = sym<T>("v");
  eq(vm::trunc(v), btrunc(v), "trunc drops the fraction");
  eq(vm::floor(v), bfloor(v), "floor is the greatest integer not above v");
  eq(vm::ceil(v), bceil(v), "ceil is the smallest integer not below v");
}
template <typename T> static void round_() {
  const T v = sym<T>("v");
  eq(vm::round(v), bround(v), "round is the nearest integer, halves away from zero");
}
template <typename T> static void updown() {
  const T v = sym<T>("v");
  eq(vm::round_up(v), v < T(0) ? bfloor(v) : bceil(v), "round_up rounds away from zero");
  eq(vm::round_down(v), btrunc(v), "round_down rounds towards zero");
}
template <typename T> static void fract_() {
  const T v = sym<T>("v");
  vp_assume(fin(v));
  eq(vm::fract(v), v - btrunc(v), "fract is what trunc drops");
}
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T> static void correct_() {
  const T v = sym<T>("v"), e = sym<T>("e");
  const T r = vm::round(v);
  eq(vm::correct(v, 0u, e), abs_(v - r) < e ? r : v, "correct moves only values closer than epsilon to an integer");
  eq(vm::correct(v), abs_(v - r) < vm::constants<T>::correct_epsilon() ? r : v, "correct with the default epsilon");
}
VP_FP(rounding_d) { rounding<double>(); }
VP_FP(rounding_f) { rounding<float>(); }
VP_CFG(round_d, "check_ms=100000,merge=0")
VP_FP(round_d) { round_<double>(); }
VP_CFG(round_f, "check_ms=60000")
VP_FP(round_f) { round_<float>(); }
VP_FP(updown_d) { updown<double>(); }
VP_FP(updown_f) { updown<float>(); }
VP_CFG(fract_d, "check_ms=100000,merge=0")
VP_FP(fract_d) { fract_<double>(); }
VP_CFG(fract_f, "check_ms=60000")
VP_FP(fract_f) { fract_<float>(); }
VP_FP(correct_d) { correct_<double>(); }
VP_FP(correct_f) { correct_<float>(); }

// snapping to a grid
template <typename T> static void snap_() {
  const T v = num<T>("v", T(-1048576), T(1048576)), g = num<T>("grid", T(0.0009765625), T(1024));
  const T s = vm::snap(v, g);
  eq(vm::floor(s / g) * g, s, "snap yields a multiple of the grid");
  le(abs_(s - v) * T(2), g, "snap moves by at most half a grid cell");
  const T h = abs_(v / g - vm::trunc(v / g));
  if (h == T(0.5)) vp_check(abs_(s) >= abs_(v), "snap rounds half cells away from zero");
}
template <typename T> static void snapUp_() {
  const T v = num<T>("v", T(-1048576), T(1048576)), g = num<T>("grid", T(0.0009765625), T(1024));
  const T s = vm::snapUp(v, g);
  eq(vm::floor(s / g) * g, s, "snapUp yields a multiple of the grid");
  le(abs_(v), abs_(s), "snapUp moves away from zero");
  vp_check(s * v >= T(0), "snapUp keeps the sign");
  if (!vp_is_replay()) vp_check(abs_(s - v) < g, "snapUp moves by less than a grid cell");
  else le(abs_(s - v), g, "snapUp moves by less than a grid cell");
}
template <typename T> static void snapDown_() {
  const T v = num<T>("v", T(-1048576), T(1048576)), g = num<T>("grid", T(0.0009765625), T(1024));
  const T s = vm::snapDown(v, g);
  eq(vm::floor(s / g) * g, s, "snapDown yields a multiple of the grid");
  le(abs_(s), abs_(v), "snapDown moves towards zero");
  vp_check(s * v >= T(0), "snapDown keeps the sign");
  if (!vp_is_replay()) vp_check(abs_(s - v) < g, "snapDown moves by less than a grid cell");
  else le(abs_(s - v), g, "snapDown moves by less than a grid cell");
}
VP_REAL(snap) { snap_<double>(); }
VP_REAL(snapUp) { snapUp_<double>(); }
VP_REAL(snapDown) { snapDown_<double>(); }
VP_REAL(snap_f) { snap_<float>(); }
VP_REAL(snapUp_f) { snapUp_<float>(); }
VP_REAL(snapDown_f) { snapDown_<float>(); }

// vectors: every component is treated like a scalar
template <typename T, std::size_t S> static void vecs() {
  const auto v = symvec<T, S>("v");
  const auto g = symvec<T, S>("g");
  const T e = sym<T>("e");
  const auto fl = vm::floor(v), ce = vm::ceil(v), tr = vm::trunc(v), ro = vm::round(v), fr = vm::fract(v);
  const auto co = vm::correct(v, 0u, e), cd = vm::correct(v);
  for (std::size_t i = 0; i < S; ++i) {
    eq(fl.v[i], vm::floor(v.v[i]), "floor of a vector");
    eq(ce.v[i], vm::ceil(v.v[i]), "ceil of a vector");
    eq(tr.v[i], vm::trunc(v.v[i]), "trunc of a vector");
    eq(ro.v[i], vm::round(v.v[i]), "round of a vector");
    eq(fr.v[i], vm::fract(v.v[i]), "fract of a vector");
    eq(co.v[i], vm::correct(v.v[i], 0u, e), "correct of a vector");
    eq(cd.v[i], vm::correct(v.v[i]), "correct of a vector, default epsilon");
  }
}
template <typename T, std::size_t S> static void vecsnap() {
  const auto v = symvec<T, S>("v");
  const auto g = symvec<T, S>("g");
  const auto s = vm::snap(v, g), u = vm::snapUp(v, g), d = vm::snapDown(v, g);
  for (std::size_t i = 0; i < S; ++i) {
    eq(s.v[i], vm::snap(v.v[i], g.v[i]), "snap of a vector");
    eq(u.v[i], vm::snapUp(v.v[i], g.v[i]), "snapUp of a vector");
    eq(d.v[i], vm::snapDown(v.v[i], g.v[i]), "snapDown of a vector");
  }
}
VP_FP(vec_d2) { vecs<double, 2>(); }
VP_FP(vec_d3) { vecs<double, 3>(); }
VP_FP(vec_f3) { vecs<float, 3>(); }
VP_FP(vec_d4) { vecs<double, 4>(); }
VP_FP(vecsnap_d2) { vecsnap<double, 2>(); }
VP_FP(vecsnap_f3) { vecsnap<float, 3>(); }
template <typename T, std::size_t S> static void integral() {
  const auto v = symvec<T, S>("v");
  bool all = true;
  for (std::size_t i = 0; i < S; ++i) all = all && v.v[i] == btrunc(v.v[i]);
  for (std::size_t i = 0; i < S; ++i) vp_assume(fin(v.v[i]));
  vp_check(vm::is_integral(v) == all, "is_integral recognises exactly the integral vectors");
}
VP_CFG(integral_f2, "check_ms=100000")
VP_FP(integral_f2) { integral<float, 2>(); }
VP_FP_T(integral_d3) { integral<double, 3>(); }
