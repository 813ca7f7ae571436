// Polynomial root finding (scalar.h)
// BOUND: real arithmetic; leading coefficient in +-[1/8, 10^7], other coefficients in [-10^7, 10^7]; epsilon 0 or in (0, 1/100]
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
using namespace vp;

template <typename T> static T lead() {
  const T a = num<T>("a", T(-1024), T(1024));
  vp_assume(a >= T(0.125) || a <= T(-0.125));
  return a;
}
template <typename T> static T coef(const char* n) { return num<T>(n, T(-1024), T(1024)); }
template <typename T> static bool nanv(T v) { return v != v; }

template <typename T> static void quadratic(bool exact) {
  const T a = lead<T>(), b = coef<T>("b"), c = coef<T>("c");
  const T e = exact ? T(0) : num<T>("epsilon", T(0.000001), T(0.01));
  const auto [n, x0, x1] = vm::solve_quadratic(a, b, c, e);
  const T disc = b * b - T(4) * a * c; // = 4 a^2 D
  if (n == 2) {
    eq(a * (x0 + x1), -b, "the two roots sum up to -b/a");
    eq(a * x0 * x1, c, "the two roots multiply to c/a");
    vp_check(disc > T(0), "two roots are reported only if there are two");
    vp_check(x0 != x1, "the two roots are different");
  } else if (n == 1) {
    vp_check(nanv(x1), "missing roots are reported as non-numbers");
    eq(T(2) * a * x0, -b, "a single root is the vertex of the parabola");
    le(disc, T(4) * a * a * e, "a single root is reported only if the discriminant vanishes up to epsilon");
    le(-disc, T(4) * a * a * e, "a single root is reported only if the discriminant vanishes up to epsilon");
  } else {
    vp_check(n == 0, "there are at most two roots");
    vp_check(disc < T(0), "no root is reported only if there is none");
    vp_check(nanv(x0) && nanv(x1), "missing roots are reported as non-numbers");
  }
}
VP_REAL(quadratic_d) { quadratic<double>(true); }
VP_REAL(quadratic_f) { quadratic<float>(true); }
VP_REAL(quadratic_eps_d) { quadratic<double>(false); }

// depressed form data used to state the number of roots: D = q^2 + p^3
template <typename T> static void cubic(bool exact) {
  const T a = lead<T>(), b = coef<T>("b"), c = coef<T>("c"), d = coef<T>("d");
  const T e = exact ? T(0) : num<T>("epsilon", T(0.000001), T(0.01));
  const auto [n, x0, x1, x2] = vm::solve_cubic(a, b, c, d, e);
  const T disc = T(18) * a * b * c * d - T(4) * b * b * b * d + b * b * c * c - T(4) * a * c * c * c - T(27) * a * a * d * d;
  const T p = (T(3) * a * c - b * b) / (T(9) * a * a), q = (T(2) * b * b * b - T(9) * a * b * c + T(27) * a * a * d) / (T(54) * a * a * a);
  const T D = q * q + p * p * p;
  if (n == 3) {
    vp_check(disc > T(0), "three roots are reported only if there are three");
    eq(a * (x0 + x1 + x2), -b, "the roots sum up to -b/a");
    eq(a * (x0 * x1 + x1 * x2 + x2 * x0), c, "the pairwise products of the roots sum up to c/a");
    eq(a * x0 * x1 * x2, -d, "the roots multiply to -d/a");
  } else if (n == 2) {
    vp_check(nanv(x2), "missing roots are reported as non-numbers");
    if (exact) {
      eq(disc, T(0), "single and double root are reported only if the discriminant vanishes");
      eq(a * (x0 + x1 + x1), -b, "single and double root sum up to -b/a");
      eq(a * (x0 * x1 + x1 * x1 + x1 * x0), c, "single and double root: pairwise products");
      eq(a * x0 * x1 * x1, -d, "single and double root multiply to -d/a");
    }
  } else {
    vp_check(n == 1, "a cubic has one to three roots");
    vp_check(nanv(x1) && nanv(x2), "missing roots are reported as non-numbers");
    if (exact) vp_check(disc <= T(0), "a single root is reported only if there is one");
    if (exact || D > e) eq(((a * x0 + b) * x0 + c) * x0 + d, T(0), "the reported value is a root");
  }
}
template <typename T> static void cubic_other() {
  const T c = coef<T>("c"), d = coef<T>("d");
  const auto [n, x0, x1, x2] = vm::solve_cubic(T(1), T(0), c, d, T(0));
  if (n == 1) vp_check(x0 * x0 + T(4) * c + T(2) * x0 * x0 > T(0) || (c == T(0) && d == T(0)), "there is no other real root");
  if (n == 3) vp_check(x0 > x1 && x0 > x2, "the first of three roots is the largest");
}
VP_REAL(cubic_other_d) { cubic_other<double>(); }
VP_REAL(cubic_d) { cubic<double>(true); }
VP_REAL(cubic_f) { cubic<float>(true); }
VP_REAL(cubic_eps_d) { cubic<double>(false); }

// Contract of the cubic solver (shown by the cubic_* harnesses above) standing for the nested call in the quartic solver.
extern "C" std::tuple<std::size_t, double, double, double> vp_stub_solve_cubic(double a, double b, double c, double d, double) {
  const double z = vp_f64("~z");
  vp_assume(a * z * z * z + b * z * z + c * z + d == 0.0);
  const double nn = vm::nan<double>();
  switch (vp_choose("~n", 3)) {
  case 0: {
    // a triple root, or the other two roots are not real
    const double s = b + a * z, t = c + s * z; // a x^2 + s x + t
    vp_assume(s * s - 4.0 * a * t < 0.0 || (s == -2.0 * a * z && t == a * z * z));
    return {1u, z, nn, nn};
  }
  case 1: {
    // the other (double) root
    const double y = vp_f64("~y");
    vp_assume(b == -a * (z + y + y));
    vp_assume(c == a * (z * y + y * y + y * z));
    return {2u, z, y, nn};
  }
  default: {
    const double y = vp_f64("~y"), x = vp_f64("~x");
    vp_assume(x == -b / a - y - z);
    vp_assume(c == a * (z * y + y * x + x * z));
    vp_assume(z > x && z > y && x != y);
    return {3u, z, y, x};
  }
  }
}
template <typename T> static void quartic(T a) {
  const T b = coef<T>("b"), c = coef<T>("c"), d = coef<T>("d"), e = coef<T>("e");
  const auto [n, x0, x1, x2, x3] = vm::solve_quartic(a, b, c, d, e, T(0));
  vp_check(n <= 4, "a quartic has at most four roots");
  const T x[4] = {x0, x1, x2, x3};
  for (std::size_t i = 0; i < 4; ++i) {
    if (i < n) eq((((a * x[i] + b) * x[i] + c) * x[i] + d) * x[i] + e, T(0), "every reported value is a root");
    else vp_check(nanv(x[i]), "missing roots are reported as non-numbers");
  }
}
VP_CFG(quartic_d, "stub=1")
VP_REAL(quartic_d) { quartic<double>(1.0); }
VP_CFG(quartic_a2, "stub=1")
VP_REAL(quartic_a2) { quartic<double>(2.0); }
VP_CFG(quartic_an, "stub=1")
VP_REAL(quartic_an) { quartic<double>(-0.5); }
// completeness: a real root is never missed
template <typename T> static void quartic_all() {
  const T a = T(1), b = T(0), c = coef<T>("c"), d = coef<T>("d"), x = coef<T>("x");
  const T e = -(((a * x + b) * x + c) * x + d) * x;
  const auto [n, x0, x1, x2, x3] = vm::solve_quartic(a, b, c, d, e, T(0));
  vp_check((n > 0 && x == x0) || (n > 1 && x == x1) || (n > 2 && x == x2) || (n > 3 && x == x3), "every real root is reported");
}
VP_CFG(quartic_all, "stub=1")
VP_REAL_T(quartic_all) { quartic_all<double>(); }
