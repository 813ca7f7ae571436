// Approximate values (approx.h)
// BOUND: scalars: real arithmetic over [-10^6, 10^6] with epsilon in [0, 10^5], and IEEE-exact consistency of the operators over all non-NaN values; vectors of one to three components, matrices up to 2x3, lines in three dimensions; lists of up to three, and of seven, scalars
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/line.h>
#include <vecmath/approx.h>
#include <vector>
using namespace vp;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T> static T eps_() { return num<T>("epsilon", T(0), T(10)); }
// all twelve operators, given whether the exact value is below, at or above the approximate one
template <typename A, typename V> static void ops(const V& x, const A& a, bool lt, bool eq, bool gt) {
  vp_check((x == a) == eq && (a == x) == eq, "equal up to epsilon");
  vp_check((x != a) == !eq && (a != x) == !eq, "different by more than epsilon");
  vp_check((x < a) == lt && (a > x) == lt, "less by more than epsilon");
  vp_check((x > a) == gt && (a < x) == gt, "greater by more than epsilon");
  vp_check((x <= a) == !gt && (a >= x) == !gt, "not greater by more than epsilon");
  vp_check((x >= a) == !lt && (a <= x) == !lt, "not less by more than epsilon");
}
template <typename T> static void scalars(bool def) {
  const T v = num<T>("v"), x = num<T>("x"), e = def ? T(0.001) : eps_<T>();
  if (vp_is_replay()) vp_assume(abs_(abs_(x - v) - e) > T(1e-4));
  const auto a = def ? vm::approx<T>(v) : vm::approx<T>(v, e);
  ops(x, a, x < v - e, x >= v - e && x <= v + e, x > v + e);
}
VP_REAL(scalar_d) { scalars<double>(vp_choose("default", 2)); }
VP_REAL(scalar_f) { scalars<float>(vp_choose("default", 2)); }
template <typename T> static void consistent() {
  const T v = sym<T>("v"), x = sym<T>("x"), e = sym<T>("epsilon");
  vp_assume(!nan(v)); vp_assume(!nan(x)); vp_assume(fin(e)); vp_assume(e >= T(0));
  const vm::approx<T> a(v, e);
  vp_check((x == a) == ((x <= a) && (x >= a)), "equal iff neither less nor greater");
  vp_check((x != a) == !(x == a) && (a != x) == !(a == x) && (a == x) == (x == a), "equal or different");
  vp_check((x < a) == !(x >= a) && (x > a) == !(x <= a), "exactly one of less and not less holds");
  vp_check((a < x) == !(a >= x) && (a > x) == !(a <= x), "exactly one of less and not less holds");
  vp_check(!((x < a) && (x > a)) && !((a < x) && (a > x)), "not both less and greater");
  if (x == v) vp_check(x == a, "a value is equal to its approximation");
}
VP_FP_T(consistent_d) { consistent<double>(); }
VP_FP(consistent_f) { consistent<float>(); }
template <typename T> static void lists(int n, int m) {
  std::vector<T> l;
  std::vector<vm::approx<T>> r;
  const T e = eps_<T>();
  bool same = n == m;
  T v[8];
  for (int i = 0; i < m; ++i) { v[i] = num<T>("v"); r.push_back(vm::approx<T>(v[i], e)); }
  for (int i = 0; i < n; ++i) { l.push_back(num<T>("x")); if (i < m) same = same & (l[i] >= v[i] - e) & (l[i] <= v[i] + e); }
  if (vp_is_replay()) for (int i = 0; i < n && i < m; ++i) vp_assume(abs_(abs_(l[i] - v[i]) - e) > T(1e-4));
  vp_check((l == r) == same && (r == l) == same, "lists are equal up to epsilon iff all their elements are");
  vp_check((l != r) == !same && (r != l) == !same, "lists are equal up to epsilon iff all their elements are");
}
VP_REAL(lists_d) { lists<double>(vp_choose("n", 4), vp_choose("m", 4)); }
template <typename T, std::size_t S> static void vectors(bool def) {
  const auto v = numvec<T, S>("v"), x = numvec<T, S>("x");
  const T e = def ? T(0.001) : eps_<T>();
  const auto a = def ? vm::approx<vm::vec<T, S>>(v) : vm::approx<vm::vec<T, S>>(v, e);
  int c = 0;
  for (std::size_t i = 0; i < S; ++i) {
    if (vp_is_replay()) vp_assume(abs_(abs_(x.v[i] - v.v[i]) - e) > T(1e-4));
    if (c == 0) c = x.v[i] < v.v[i] - e ? -1 : x.v[i] > v.v[i] + e ? 1 : 0;
  }
  ops(x, a, c < 0, c == 0, c > 0);
}
VP_REAL(vector_d1) { vectors<double, 1>(vp_choose("default", 2)); }
VP_REAL(vector_d2) { vectors<double, 2>(vp_choose("default", 2)); }
VP_REAL(vector_f3) { vectors<float, 3>(vp_choose("default", 2)); }
template <typename T, std::size_t R, std::size_t C> static void matrices(bool def) {
  const auto v = nummat<T, R, C>("v"), x = nummat<T, R, C>("x");
  const T e = def ? T(0.001) : eps_<T>();
  const auto a = def ? vm::approx<vm::mat<T, R, C>>(v) : vm::approx<vm::mat<T, R, C>>(v, e);
  bool s = true;
  for (std::size_t i = 0; i < C; ++i) for (std::size_t j = 0; j < R; ++j) {
    const T d = x.v[i].v[j] - v.v[i].v[j];
    if (vp_is_replay()) vp_assume(abs_(abs_(d) - e) > T(1e-4));
    s = s & (d <= e) & (d >= -e);
  }
  vp_check((x == a) == s && (a == x) == s, "matrices are equal up to epsilon iff all their entries are");
  vp_check((x != a) == !s && (a != x) == !s, "matrices are equal up to epsilon iff all their entries are");
}
VP_REAL(matrix_d22) { matrices<double, 2, 2>(vp_choose("default", 2)); }
VP_REAL(matrix_f23) { matrices<float, 2, 3>(vp_choose("default", 2)); }
template <typename T, std::size_t S> static void lines(bool def) {
  const auto p = numvec<T, S>("p"), q = numvec<T, S>("q"), d = numvec<T, S>("d"), f = numvec<T, S>("f");
  const T e = def ? T(0.001) : eps_<T>();
  const vm::line<T, S> v(p, d), x(q, f);
  const auto a = def ? vm::approx<vm::line<T, S>>(v) : vm::approx<vm::line<T, S>>(v, e);
  bool s = true;
  for (std::size_t i = 0; i < S; ++i) {
    if (vp_is_replay()) vp_assume(abs_(abs_(q.v[i] - p.v[i]) - e) > T(1e-4) && abs_(abs_(f.v[i] - d.v[i]) - e) > T(1e-4));
    s = s & (q.v[i] - p.v[i] <= e) & (q.v[i] - p.v[i] >= -e) & (f.v[i] - d.v[i] <= e) & (f.v[i] - d.v[i] >= -e);
  }
  vp_check((x == a) == s && (a == x) == s, "lines are equal up to epsilon iff point and direction are");
}
VP_REAL(line_d2) { lines<double, 2>(vp_choose("default", 2)); }
VP_REAL(line_f3) { lines<float, 3>(0); }
// lists of seven elements that agree in all but one
VP_REAL(lists_long) {
  const int n = 7, m = 6 + vp_choose("m", 3), at = vp_choose("at", 7);
  std::vector<double> l;
  std::vector<vm::approx<double>> r;
  const double e = eps_<double>(), x = num<double>("x");
  for (int i = 0; i < m; ++i) r.push_back(vm::approx<double>(double(i), e));
  for (int i = 0; i < n; ++i) l.push_back(i == at ? x : double(i));
  if (vp_is_replay()) vp_assume(abs_(abs_(x - double(at)) - e) > 1e-4);
  const bool same = n == m && x >= double(at) - e && x <= double(at) + e;
  vp_check((l == r) == same && (r == l) == same && (l != r) == !same && (r != l) == !same, "lists are equal up to epsilon iff all their elements are");
}
