// Matrix inversion and linear systems (mat.h)
// BOUND: real arithmetic; dimensions 1 to 3 with arbitrary entries in [-10^5, 10^5] (regular matrices are inverted: [-10, 10]); dimension 4: arbitrary affine transformations (last row 0 0 0 1) with entries in [-10^5, 10^5], row permutations of block matrices with a general 2x2 block, and (thorough) row permutations of diagonally dominant matrices (diagonal in [4, 10], other entries in [0, 1])
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <tuple>
using namespace vp;
template <typename T> static T det_(const vm::mat<T, 1, 1>& m) { return m.v[0].v[0]; }
template <typename T> static T det_(const vm::mat<T, 2, 2>& m) { return m.v[0].v[0] * m.v[1].v[1] - m.v[1].v[0] * m.v[0].v[1]; }
template <typename T> static T det_(const vm::mat<T, 3, 3>& m) {
  T d = T(0);
  for (int i = 0; i < 3; ++i) d = d + m.v[0].v[i] * (m.v[1].v[(i + 1) % 3] * m.v[2].v[(i + 2) % 3] - m.v[1].v[(i + 2) % 3] * m.v[2].v[(i + 1) % 3]);
  return d;
}
template <typename T, std::size_t S> static void inverse(const vm::mat<T, S, S>& m) {
  const auto r = vm::invert(m);
  const auto& x = std::get<1>(r);
  if (std::get<0>(r)) {
    const auto p = m * x;
    for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j < S; ++j)
      eq(p.v[j].v[i], i == j ? T(1) : T(0), "a matrix times its inverse is the identity");
  } else {
    eq(x, vm::mat<T, S, S>::identity(), "the identity is returned when there is no inverse");
  }
}
template <typename T, std::size_t S> static void solve(const vm::mat<T, S, S>& m) {
  const auto b = numvec<T, S>("b", T(-10), T(10));
  const auto r = vm::lup_solve(m, b);
  const auto& x = std::get<1>(r);
  if (std::get<0>(r)) {
    const auto y = m * x;
    for (std::size_t i = 0; i < S; ++i) eq(y.v[i], b.v[i], "a solution solves the system");
  }
}
template <typename T, std::size_t S> static vm::mat<T, S, S> any() { return nummat<T, S, S>("m", T(-10), T(10)); }
VP_REAL(inverse_d1) { inverse(any<double, 1>()); }
VP_REAL(inverse_d2) { inverse(any<double, 2>()); }
VP_REAL(inverse_f2) { inverse(any<float, 2>()); }
VP_REAL(inverse_d3) { inverse(any<double, 3>()); }
VP_REAL_T(inverse_f3) { inverse(any<float, 3>()); }
VP_REAL(solve_d1) { solve(any<double, 1>()); }
VP_REAL(solve_d2) { solve(any<double, 2>()); }
VP_REAL(solve_f2) { solve(any<float, 2>()); }
VP_REAL(solve_d3) { solve(any<double, 3>()); }
VP_REAL_T(solve_f3) { solve(any<float, 3>()); }
// success is reported exactly for matrices with a determinant different from (practically) zero
template <typename T, std::size_t S> static void regular() {
  vm::mat<T, S, S> m;
  for (std::size_t c = 0; c < S; ++c) for (std::size_t r = 0; r < S; ++r) m.v[c].v[r] = within<T>("m", T(-10), T(10)); // the pivot threshold is absolute
  const T d = det_(m);
  const bool s = std::get<0>(vm::invert(m)), t = std::get<0>(vm::lup_solve(m, vm::vec<T, S>()));
  vp_check(s == t, "invertible iff solvable");
  if (s) vp_check(d > T(0) || d < T(0) || vp_is_replay(), "a singular matrix is not inverted");
  else { le(d, T(1e-9), "a regular matrix is inverted"); le(T(-1e-9), d, "a regular matrix is inverted"); }
}
VP_REAL(regular_d1) { regular<double, 1>(); }
VP_REAL(regular_d2) { regular<double, 2>(); }
VP_REAL(regular_f2) { regular<float, 2>(); }
VP_REAL_T(regular_d3) { regular<double, 3>(); }

// dimension 4: rows of a diagonally dominant matrix in one of six orders
template <typename T> static vm::mat<T, 4, 4> dominant() {
  static const int perm[6][4] = {{0, 1, 2, 3}, {1, 2, 3, 0}, {3, 2, 1, 0}, {2, 3, 0, 1}, {3, 0, 1, 2}, {0, 2, 1, 3}};
  const int k = vp_choose("order", 6);
  vm::mat<T, 4, 4> m;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    const T x = i == j ? num<T>("d", T(4), T(10)) : num<T>("o", T(0), T(1));
    m.v[j].v[perm[k][i]] = x;
  }
  return m;
}
VP_REAL_T(inverse_d4) { inverse(dominant<double>()); }
VP_REAL_T(solve_d4) { solve(dominant<double>()); }
VP_REAL_T(inverse_f4) { inverse(dominant<float>()); }
template <typename T> static vm::mat<T, 4, 4> affine() {
  const auto a = any<T, 3>();
  const auto t = numvec<T, 3>("t", T(-10), T(10));
  vm::mat<T, 4, 4> m;
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m.v[j].v[i] = a.v[j].v[i]; m.v[3].v[i] = t.v[i]; }
  return m;
}
VP_REAL(inverse_affine) { inverse(affine<double>()); }
VP_REAL_T(solve_affine) { solve(affine<double>()); }

// dimension 4: six orders of the rows of [[A, B], [0, 1]] with arbitrary 2x2 blocks A, B
template <typename T> static vm::mat<T, 4, 4> blocks() {
  static const int perm[6][4] = {{0, 1, 2, 3}, {1, 2, 3, 0}, {3, 2, 1, 0}, {2, 3, 0, 1}, {3, 0, 1, 2}, {0, 2, 1, 3}};
  const int k = vp_choose("order", 6);
  vm::mat<T, 4, 4> m;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
    m.v[j].v[perm[k][i]] = i < 2 ? num<T>("m", T(-10), T(10)) : (i == j ? T(1) : T(0));
  return m;
}
VP_REAL(inverse_block) { inverse(blocks<double>()); }
VP_REAL(solve_block) { solve(blocks<double>()); }
VP_REAL(inverse_block_f) { inverse(blocks<float>()); }
