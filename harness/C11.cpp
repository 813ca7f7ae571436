// Matrix construction, access, arithmetic, products, transposition, minors, determinant, adjugate (mat.h)
// BOUND: construction, access, entry-wise operators, comparison: IEEE-exact over all values, shapes 2x2, 2x3, 3x2, 3x3, 4x4
// BOUND: products, determinants, adjugates: real arithmetic, entries in [-10^6, 10^6], dimension 1 to 4 (determinant: 1 to 5)
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <tuple>
using namespace vp;
template <typename T, std::size_t R, std::size_t C> static vm::mat<T, R, C> anymat(const char* n) {
  vm::mat<T, R, C> m;
  for (std::size_t c = 0; c < C; ++c) m.v[c] = symvec<T, R>(n);
  return m;
}
template <typename T> static bool same(T a, T b) { return (a == b) | ((a != a) & (b != b)); }

template <typename T, std::size_t R, std::size_t C> static void entrywise() {
  const auto a = anymat<T, R, C>("a"), b = anymat<T, R, C>("b");
  const T f = sym<T>("f");
  const auto p = +a, n = -a, s = a + b, d = a - b, l = f * a, r = a * f, q = a / f;
  const auto t = vm::transpose(a);
  const vm::mat<T, R, C> id, id2 = vm::mat<T, R, C>::identity(), z = vm::mat<T, R, C>::zero(), fl = vm::mat<T, R, C>::fill(f);
  const std::size_t sr = std::size_t(vp_choose("row", R)), sc = std::size_t(vp_choose("col", C));
  const auto st = vm::set(a, sr, sc, f);
  for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) {
    const T x = a.v[j].v[i], y = b.v[j].v[i];
    vp_check(same(a[j][i], x), "access is by column, then row");
    vp_check(same(p.v[j].v[i], x), "unary plus");
    eq(n.v[j].v[i], -x, "negation");
    eq(s.v[j].v[i], x + y, "sum");
    eq(d.v[j].v[i], x - y, "difference");
    eq(l.v[j].v[i], x * f, "product with a scalar on the left");
    eq(r.v[j].v[i], x * f, "product with a scalar on the right");
    eq(q.v[j].v[i], x / f, "quotient by a scalar");
    vp_check(same(t.v[i].v[j], x), "transposition swaps rows and columns");
    vp_check(id.v[j].v[i] == (i == j ? T(1) : T(0)), "the default matrix is the identity");
    vp_check(id2.v[j].v[i] == (i == j ? T(1) : T(0)), "identity matrix");
    vp_check(z.v[j].v[i] == T(0), "zero matrix");
    vp_check(same(fl.v[j].v[i], f), "filled matrix");
    vp_check(same(st.v[j].v[i], i == sr && j == sc ? f : x), "setting one entry changes only that entry");
  }
}
VP_FP(entry_d22) { entrywise<double, 2, 2>(); }
VP_FP(entry_d23) { entrywise<double, 2, 3>(); }
VP_FP(entry_d32) { entrywise<double, 3, 2>(); }
VP_FP(entry_d33) { entrywise<double, 3, 3>(); }
VP_FP(entry_f33) { entrywise<float, 3, 3>(); }
VP_FP_T(entry_d44) { entrywise<double, 4, 4>(); }

// values are given row by row
VP_FP(ctor) {
  const double a = vp_f64("a"), b = vp_f64("b"), c = vp_f64("c"), d = vp_f64("d"), e = vp_f64("e"), f = vp_f64("f");
  const double v[2][3] = {{a, b, c}, {d, e, f}};
  const vm::mat<double, 2, 3> m(a, b, c, d, e, f), l{a, b, c, d, e, f}, copy(m);
  vm::mat<double, 2, 3> as;
  as = m;
  const vm::mat<float, 2, 3> n(m);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) {
    vp_check(same(m.v[j].v[i], v[i][j]), "values are given row by row");
    vp_check(same(l.v[j].v[i], v[i][j]), "values are given row by row (list)");
    vp_check(same(copy.v[j].v[i], v[i][j]) && same(as.v[j].v[i], v[i][j]), "copies are equal");
    vp_check(same(n.v[j].v[i], float(v[i][j])), "conversion converts every entry");
  }
  const vm::mat<double, 3, 2> w(a, b, c, d, e, f);
  const double u[3][2] = {{a, b}, {c, d}, {e, f}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) vp_check(same(w.v[j].v[i], u[i][j]), "values are given row by row");
}
VP_FP(ctor44) {
  double a[16];
  for (int i = 0; i < 16; ++i) a[i] = vp_f64("a");
  const vm::mat<double, 4, 4> m(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
  const vm::mat<float, 4, 4> n(m);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    vp_check(same(m.v[j].v[i], a[i * 4 + j]), "values are given row by row");
    vp_check(same(n.v[j].v[i], float(a[i * 4 + j])), "conversion converts every entry");
  }
}

// slices and minors are views of the entries
template <typename T, std::size_t R, std::size_t C> static void minors() {
  const auto a = anymat<T, R, C>("a");
  const std::size_t r = std::size_t(vp_choose("row", R)), c = std::size_t(vp_choose("col", C));
  const auto m = vm::extract_minor(a, r, c);
  for (std::size_t i = 0; i + 1 < R; ++i) for (std::size_t j = 0; j + 1 < C; ++j)
    vp_check(same(m.v[j].v[i], a.v[j < c ? j : j + 1].v[i < r ? i : i + 1]), "a minor drops exactly one row and one column");
}
VP_FP(minors_d22) { minors<double, 2, 2>(); }
VP_FP(minors_d33) { minors<double, 3, 3>(); }
VP_FP(minors_d23) { minors<double, 2, 3>(); }
VP_FP(minors_d44) { minors<double, 4, 4>(); }
template <typename T, std::size_t RR, std::size_t RC, std::size_t R, std::size_t C> static void slices() {
  const auto a = anymat<T, R, C>("a");
  const std::size_t r = std::size_t(vp_choose("row", R - RR + 1)), c = std::size_t(vp_choose("col", C - RC + 1));
  const auto m = vm::slice<RR, RC>(a, r, c);
  for (std::size_t i = 0; i < RR; ++i) for (std::size_t j = 0; j < RC; ++j)
    vp_check(same(m.v[j].v[i], a.v[j + c].v[i + r]), "a slice holds the requested block");
}
VP_FP(slice_22_33) { slices<double, 2, 2, 3, 3>(); }
VP_FP(slice_33_44) { slices<double, 3, 3, 4, 4>(); }
VP_FP(slice_23_34) { slices<double, 2, 3, 3, 4>(); }
VP_FP(slice_12_23) { slices<double, 1, 2, 2, 3>(); }
VP_FP(slice_13_23) { slices<float, 1, 3, 2, 3>(); }

template <typename T, std::size_t R, std::size_t C> static void comparison() {
  const auto a = anymat<T, R, C>("a"), b = anymat<T, R, C>("b");
  bool e = true;
  int k = 0;
  for (std::size_t j = 0; j < C; ++j) for (std::size_t i = 0; i < R; ++i) {
    vp_assume(!nan(a.v[j].v[i]) && !nan(b.v[j].v[i]));
    const T x = a.v[j].v[i], y = b.v[j].v[i];
    vp_assume(fin(x) && fin(y));
    if (k == 0) k = x < y ? -1 : x > y ? 1 : 0;
    e &= x == y;
  }
  vp_check(vm::compare(a, b) == k, "comparison is lexicographic, column by column");
  vp_check((a == b) == e, "matrices are equal iff all entries are");
  vp_check((a != b) == !e, "matrices differ iff an entry differs");
}
VP_REAL(comparison_d22) { comparison<double, 2, 2>(); }
VP_REAL(comparison_d23) { comparison<double, 2, 3>(); }
VP_REAL(comparison_f32) { comparison<float, 3, 2>(); }
template <typename T, std::size_t R, std::size_t C> static bool within(const vm::mat<T, R, C>& a, const vm::mat<T, R, C>& b, T eps) {
  for (std::size_t j = 0; j < C; ++j) for (std::size_t i = 0; i < R; ++i) {
    const T d = a.v[j].v[i] - b.v[j].v[i];
    if (d > eps || -d > eps) return false;
  }
  return true;
}
VP_REAL(comparison_eps) {
  const auto a = nummat<double, 2, 2>("a"), b = nummat<double, 2, 2>("b");
  const double eps = num<double>("epsilon", 0, 10);
  vp_check(vm::is_equal(a, b, eps) == within(a, b, eps), "matrices are equal up to epsilon iff all entries are");
}
VP_REAL(zero_eps) {
  const auto a = nummat<double, 2, 2>("a");
  const double eps = num<double>("epsilon", 0, 10);
  vp_check(vm::is_zero(a, eps) == within(a, vm::mat<double, 2, 2>::fill(0.0), eps), "a matrix is zero up to epsilon iff all entries are");
}

template <typename T, std::size_t R, std::size_t K, std::size_t C> static void product() {
  const auto a = nummat<T, R, K>("a");
  const auto b = nummat<T, K, C>("b");
  const auto p = a * b;
  for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) {
    T s = T(0);
    for (std::size_t k = K; k-- > 0;) s = s + a.v[k].v[i] * b.v[j].v[k];
    eq(p.v[j].v[i], s, "an entry of a product is the scalar product of a row and a column");
  }
  const auto x = numvec<T, K>("x");
  const auto y = numvec<T, R>("y");
  const vm::vec<T, R> ax = a * x;
  const vm::vec<T, K> ya = y * a;
  for (std::size_t i = 0; i < R; ++i) {
    T s = T(0);
    for (std::size_t k = K; k-- > 0;) s = s + a.v[k].v[i] * x.v[k];
    eq(ax.v[i], s, "matrix times column vector");
  }
  for (std::size_t k = 0; k < K; ++k) {
    T s = T(0);
    for (std::size_t i = R; i-- > 0;) s = s + y.v[i] * a.v[k].v[i];
    eq(ya.v[k], s, "row vector times matrix");
  }
  if (R == K && K == C) {
    const auto z = numvec<T, C>("z");
    eq((a * b) * z, a * (b * z), "a product of transformations applies the right one first");
    const auto id = vm::mat<T, R, C>::identity();
    eq(a * id, a, "the identity is neutral");
    eq(id * a, a, "the identity is neutral");
  }
}
VP_REAL(product_d222) { product<double, 2, 2, 2>(); }
VP_REAL(product_d333) { product<double, 3, 3, 3>(); }
VP_REAL(product_d444) { product<double, 4, 4, 4>(); }
VP_REAL(product_f444) { product<float, 4, 4, 4>(); }
VP_REAL(product_f333) { product<float, 3, 3, 3>(); }
template <typename T, std::size_t R, std::size_t K, std::size_t C> static void product_ns() {
  const auto a = nummat<T, R, K>("a");
  const auto b = nummat<T, K, C>("b");
  const auto p = a * b;
  for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) {
    T s = T(0);
    for (std::size_t k = K; k-- > 0;) s = s + a.v[k].v[i] * b.v[j].v[k];
    eq(p.v[j].v[i], s, "an entry of a product is the scalar product of a row and a column");
  }
  const auto x = numvec<T, K>("x");
  const auto y = numvec<T, R>("y");
  const vm::vec<T, R> ax = a * x;
  const vm::vec<T, K> ya = y * a;
  for (std::size_t i = 0; i < R; ++i) {
    T s = T(0);
    for (std::size_t k = K; k-- > 0;) s = s + a.v[k].v[i] * x.v[k];
    eq(ax.v[i], s, "matrix times column vector");
  }
  for (std::size_t k = 0; k < K; ++k) {
    T s = T(0);
    for (std::size_t i = R; i-- > 0;) s = s + y.v[i] * a.v[k].v[i];
    eq(ya.v[k], s, "row vector times matrix");
  }
}
VP_REAL(product_d234) { product_ns<double, 2, 3, 4>(); }
VP_REAL(product_d324) { product_ns<double, 3, 2, 4>(); }
VP_REAL(product_d432) { product_ns<double, 4, 3, 2>(); }
VP_REAL(product_f132) { product_ns<float, 1, 3, 2>(); }

// points are transformed in homogeneous coordinates
template <typename T, std::size_t S> static void points() {
  auto m = nummat<T, S + 1, S + 1>("m", T(-10), T(10));
  const auto p = numvec<T, S>("p", T(-10), T(10));
  const bool affine = vp_choose("affine", 2);
  if (affine) for (std::size_t j = 0; j <= S; ++j) m.v[j].v[S] = j == S ? T(1) : T(0);
  T w = m.v[S].v[S], w2 = w;
  for (std::size_t j = 0; j < S; ++j) { w = w + m.v[j].v[S] * p.v[j]; w2 = w2 + m.v[S].v[j] * p.v[j]; }
  vp_assume(w >= T(0.01) || w <= T(-0.01));
  const vm::vec<T, S> r = m * p;
  for (std::size_t i = 0; i < S; ++i) {
    T s = m.v[S].v[i];
    for (std::size_t j = S; j-- > 0;) s = s + m.v[j].v[i] * p.v[j];
    eq(r.v[i] * w, s, "matrix times point");
  }
  if (!affine) {
    vp_assume(w2 >= T(0.01) || w2 <= T(-0.01));
    const vm::vec<T, S> q = p * m;
    for (std::size_t i = 0; i < S; ++i) {
      T s = m.v[i].v[S];
      for (std::size_t j = S; j-- > 0;) s = s + m.v[i].v[j] * p.v[j];
      eq(q.v[i] * w2, s, "point times matrix");
    }
  }
}
VP_REAL(points_d2) { points<double, 2>(); }
VP_REAL(points_d3) { points<double, 3>(); }
VP_REAL(points_f3) { points<float, 3>(); }

// Leibniz formula
template <typename T, std::size_t S> static T leibniz(const vm::mat<T, S, S>& m) {
  std::size_t p[S];
  for (std::size_t i = 0; i < S; ++i) p[i] = i;
  T det = T(0);
  while (true) {
    int inv = 0;
    for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j < i; ++j) inv += p[j] > p[i];
    T t = inv % 2 ? T(-1) : T(1);
    for (std::size_t i = 0; i < S; ++i) t = t * m.v[i].v[p[i]];
    det = det + t;
    std::size_t k = S - 1; // next permutation
    while (k > 0 && p[k - 1] > p[k]) --k;
    if (k == 0) return det;
    std::size_t l = S - 1;
    while (p[l] < p[k - 1]) --l;
    std::size_t h = p[k - 1]; p[k - 1] = p[l]; p[l] = h;
    for (std::size_t i = k, j = S - 1; i < j; ++i, --j) { h = p[i]; p[i] = p[j]; p[j] = h; }
  }
}
template <typename T, std::size_t S> static void determinant() {
  const auto m = nummat<T, S, S>("m");
  eq(vm::compute_determinant(m), leibniz(m), "determinant");
}
template <typename T, std::size_t S> static void adjugate() {
  const auto m = nummat<T, S, S>("m");
  const T d = leibniz(m);
  const auto a = vm::compute_adjugate(m);
  const auto p = m * a, q = a * m;
  for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j < S; ++j) {
    eq(p.v[j].v[i], i == j ? d : T(0), "matrix times adjugate is the determinant times the identity");
    eq(q.v[j].v[i], i == j ? d : T(0), "adjugate times matrix is the determinant times the identity");
  }
}
VP_REAL(det_d1) { determinant<double, 1>(); }
VP_REAL(det_d2) { determinant<double, 2>(); }
VP_REAL(det_d3) { determinant<double, 3>(); }
VP_REAL(det_f3) { determinant<float, 3>(); }
VP_REAL(det_d4) { determinant<double, 4>(); }
VP_REAL(det_d5) { determinant<double, 5>(); }
VP_REAL(adj_d2) { adjugate<double, 2>(); }
VP_REAL(adj_d3) { adjugate<double, 3>(); }
VP_REAL(adj_f3) { adjugate<float, 3>(); }
VP_REAL(adj_d4) { adjugate<double, 4>(); }
