// Ordering and equality of vectors and vector sequences (vec.h)
// BOUND: IEEE-exact over all float/double/int component values including NaN and infinities; dimension 1 to 4; sequences of up to 3 vectors (and of 8 to 10 integers)
// BOUND: tolerance comparison: real arithmetic, components in [-10^6, 10^6], epsilon in [0, 10^5]
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <array>
using namespace vp;

// reference: non-numbers equal each other and are greater than everything else
template <typename T> static int cmp1(T a, T b) {
  const bool na = a != a, nb = b != b;
  return (na & nb) ? 0 : (na ? 1 : (nb ? -1 : (a < b ? -1 : (a > b ? 1 : 0))));
}
template <typename T, std::size_t S> static int ref(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  int r = 0;
  for (std::size_t k = S; k-- > 0;) {
    const int c = cmp1(a.v[k], b.v[k]);
    r = c != 0 ? c : r;
  }
  return r;
}
static int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }

template <typename T, std::size_t S> static void order() {
  const auto a = symvec<T, S>("a"), b = symvec<T, S>("b");
  const int r = ref(a, b);
  vp_check(sgn(vm::compare(a, b)) == r, "compare is lexicographic with non-numbers last");
  vp_check((a == b) == (r == 0), "operator==");
  vp_check((a != b) == (r != 0), "operator!=");
  vp_check((a < b) == (r < 0), "operator<");
  vp_check((a <= b) == (r <= 0), "operator<=");
  vp_check((a > b) == (r > 0), "operator>");
  vp_check((a >= b) == (r >= 0), "operator>=");
}
VP_FP(order_d1) { order<double, 1>(); }
VP_FP(order_d2) { order<double, 2>(); }
VP_FP(order_d3) { order<double, 3>(); }
VP_FP(order_d4) { order<double, 4>(); }
VP_FP(order_f3) { order<float, 3>(); }
VP_FP(order_f4) { order<float, 4>(); }
VP_FP(order_i2) { order<int, 2>(); }
VP_FP(order_i3) { order<int, 3>(); }

// laws of a total order, stated on the operators alone
template <typename T, std::size_t S> static void laws() {
  const auto a = symvec<T, S>("a"), b = symvec<T, S>("b"), c = symvec<T, S>("c");
  const bool ab = a < b, ba = b < a, bc = b < c, ac = a < c;
  vp_check(a == a, "every vector equals itself");
  vp_check(!(ab & ba), "a < b excludes b < a");
  vp_check(ab | ba | (a == b), "two vectors are ordered or equal");
  vp_check(!(ab & bc) | ac, "the order is transitive");
}
VP_FP(laws_d2) { laws<double, 2>(); }
VP_FP(laws_f3) { laws<float, 3>(); }
VP_FP(laws_i3) { laws<int, 3>(); }

template <typename T, std::size_t S> static void tolerance() {
  const auto a = numvec<T, S>("a"), b = numvec<T, S>("b");
  const T e = num<T>("epsilon", T(0), T(10));
  const int r = vm::compare(a, b, e);
  bool close = true;
  int first = 0;
  for (std::size_t i = 0; i < S; ++i) {
    const T d = a.v[i] - b.v[i];
    if (close && (d > e || -d > e)) { close = false; first = d < T(0) ? -1 : 1; }
  }
  vp_check(vm::is_equal(a, b, e) == close, "vectors are equal up to epsilon iff all components are");
  vp_check(sgn(r) == first, "the first component that differs by more than epsilon decides");
}
VP_REAL(tolerance_d2) { tolerance<double, 2>(); }
VP_REAL(tolerance_d3) { tolerance<double, 3>(); }
VP_REAL(tolerance_f3) { tolerance<float, 3>(); }
VP_REAL(tolerance_d4) { tolerance<double, 4>(); }

// sequences: lexicographic, a prefix precedes its extensions
template <typename T, std::size_t S> static void ranges() {
  const int n = vp_choose("n", 4), m = vp_choose("m", 4);
  std::array<vm::vec<T, S>, 3> a, b;
  for (int i = 0; i < n; ++i) a[i] = symvec<T, S>("a");
  for (int i = 0; i < m; ++i) b[i] = symvec<T, S>("b");
  const int l = n < m ? n : m;
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (int i = l; i-- > 0;) {
    const int c = ref(a[i], b[i]);
    r = c != 0 ? c : r;
  }
  vp_check(sgn(vm::compare(a.begin(), a.begin() + n, b.begin(), b.begin() + m, T(0))) == r, "sequences are compared lexicographically");
}
VP_FP(ranges_d2) { ranges<double, 2>(); }
VP_FP(ranges_f3) { ranges<float, 3>(); }
VP_FP(ranges_i2) { ranges<int, 2>(); }
template <typename T> static void isnan_() {
  const auto a = symvec<T, 3>("a");
  vp_check(vm::is_nan(a) == ((a.v[0] != a.v[0]) | (a.v[1] != a.v[1]) | (a.v[2] != a.v[2])), "a vector is not a number iff some component is not");
  vp_check(vm::is_nan(vm::vec<T, 3>::nan()), "the non-number vector");
  const T e = sym<T>("epsilon");
  vp_assume(e >= T(0));
  vp_check(vm::is_zero(a, e) == (((a.v[0] <= e) & (-a.v[0] <= e)) & ((a.v[1] <= e) & (-a.v[1] <= e)) & ((a.v[2] <= e) & (-a.v[2] <= e))),
           "a vector is zero up to epsilon iff every component is");
}
VP_FP(isnan_d) { isnan_<double>(); }
VP_FP(isnan_f) { isnan_<float>(); }
// longer sequences
VP_FP(ranges_long) {
  const int n = 9, m = 8 + vp_choose("m", 3);
  vm::vec<int, 1> a[10], b[10];
  for (int i = 0; i < n; ++i) a[i] = symvec<int, 1>("a");
  for (int i = 0; i < m; ++i) b[i] = symvec<int, 1>("b");
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (int i = n < m ? n : m; i-- > 0;) { const int c = ref(a[i], b[i]); r = c != 0 ? c : r; }
  vp_check(sgn(vm::compare(a, a + n, b, b + m, 0)) == r, "sequences are compared lexicographically");
}
// with a tolerance, the first coordinate of the first vector that differs by more decides
VP_REAL(ranges_eps) {
  const int n = vp_choose("n", 3), m = vp_choose("m", 3);
  std::vector<vm::vec<double, 2>> a, b;
  for (int i = 0; i < n; ++i) a.push_back(numvec<double, 2>("a"));
  for (int i = 0; i < m; ++i) b.push_back(numvec<double, 2>("b"));
  const double e = num<double>("epsilon", 0, 10);
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (int i = n < m ? n : m; i-- > 0;) for (int k = 2; k-- > 0;) {
    const double d = a[i].v[k] - b[i].v[k];
    if (vp_is_replay()) vp_assume(d > e + 1e-4 || (d < e - 1e-4 && -d < e - 1e-4) || -d > e + 1e-4 || e == 0);
    r = d > e ? 1 : -d > e ? -1 : r;
  }
  vp_check(sgn(vm::compare(a.begin(), a.end(), b.begin(), b.end(), e)) == r, "sequences are compared lexicographically up to epsilon");
}
