// Bezier surfaces and lists of vectors (bezier_surface.h, vec_ext.h)
// BOUND: surfaces: real arithmetic, parameters in [-10^5, 10^5] (convexity: in [0, 1], one dimension), control points with coordinates in [-10^6, 10^6], dimension 1 to 3
// BOUND: lists: all float, double and int values bit-exactly, up to three, and of 9 and 11, vectors of up to three components
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <vecmath/bezier_surface.h>
#include <array>
#include <vector>
using namespace vp;
template <typename T, std::size_t C> using Grid = std::array<std::array<vm::vec<T, C>, 3>, 3>;
template <typename T, std::size_t C> static Grid<T, C> grid() {
  Grid<T, C> g;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g[i][j] = numvec<T, C>("p");
  return g;
}
template <typename T, std::size_t C> static void surface() {
  const auto g = grid<T, C>();
  const T u = num<T>("u", T(-10), T(10)), v = num<T>("v", T(-10), T(10));
  const T bu[3] = {(T(1) - u) * (T(1) - u), T(2) * u * (T(1) - u), u * u}, bv[3] = {(T(1) - v) * (T(1) - v), T(2) * v * (T(1) - v), v * v};
  const auto r = vm::evaluate_quadratic_bezier_surface(g, u, v);
  for (std::size_t k = 0; k < C; ++k) {
    T s = T(0);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s = s + bv[i] * bu[j] * g[i][j].v[k];
    eq(r.v[k], s, "the control points are weighted with the Bernstein polynomials: u along the rows, v across them");
  }
}
VP_REAL(surface_d3) { surface<double, 3>(); }
VP_REAL(surface_f3) { surface<float, 3>(); }
VP_REAL(surface_d2) { surface<double, 2>(); }
VP_REAL(surface_d1) { surface<double, 1>(); }
template <typename T, std::size_t C> static void corners() {
  const auto g = grid<T, C>();
  const int i = vp_choose("v", 2), j = vp_choose("u", 2);
  eq(vm::evaluate_quadratic_bezier_surface(g, T(j), T(i)), g[2 * i][2 * j], "the surface passes through its corner control points");
}
VP_REAL(corners_d3) { corners<double, 3>(); }
VP_FP(corners_exact) { // bit-exact for integral control points
  Grid<double, 1> g;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { const int p = vp_i32("p"); vp_assume(p >= -1000 && p <= 1000); g[i][j] = vm::vec<double, 1>(double(p)); }
  const int i = vp_choose("v", 2), j = vp_choose("u", 2);
  vp_check(vm::evaluate_quadratic_bezier_surface(g, double(j), double(i)).v[0] == g[2 * i][2 * j].v[0], "the surface passes through its corner control points");
}
// where all control points coincide, so does the surface; transposing the grid exchanges the parameters
VP_REAL(laws) {
  Grid<double, 2> c;
  const auto p = numvec<double, 2>("p");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[i][j] = p;
  const double u = num<double>("u", -10, 10), v = num<double>("v", -10, 10);
  eq(vm::evaluate_quadratic_bezier_surface(c, u, v), p, "the weights add up to one");
  const auto g = grid<double, 2>();
  Grid<double, 2> t;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t[i][j] = g[j][i];
  eq(vm::evaluate_quadratic_bezier_surface(g, u, v), vm::evaluate_quadratic_bezier_surface(t, v, u), "transposing the grid exchanges the parameters");
}

template <typename T, std::size_t S> static void lists(int n) {
  std::vector<vm::vec<T, S>> l;
  for (int i = 0; i < n; ++i) l.push_back(symvec<T, S>("v"));
  const auto o = symvec<T, S>("offset");
  const T f = sym<T>("factor");
  const auto a = l + o, b = o + l, c = l * f, d = f * l;
  const bool size = a.size() == l.size() && b.size() == l.size() && c.size() == l.size() && d.size() == l.size() && l.size() == std::size_t(n);
  vp_check(size, "as many results as vectors");
  if (!size) return;
  for (int i = 0; i < n; ++i) for (std::size_t k = 0; k < S; ++k) {
    eq(a[i].v[k], l[i].v[k] + o.v[k], "the offset is added to every vector"); eq(b[i].v[k], o.v[k] + l[i].v[k], "the offset is added to every vector");
    eq(c[i].v[k], l[i].v[k] * f, "every vector is multiplied"); eq(d[i].v[k], f * l[i].v[k], "every vector is multiplied");
  }
}
VP_FP(lists_d2) { lists<double, 2>(vp_choose("n", 4)); }
VP_FP(lists_f3) { lists<float, 3>(vp_choose("n", 3)); }
VP_REAL(lists_r3) { lists<double, 3>(vp_choose("n", 4)); }
template <typename T, std::size_t S, std::size_t N> static void arrays() {
  std::array<vm::vec<T, S>, N> l;
  for (std::size_t i = 0; i < N; ++i) l[i] = symvec<T, S>("v");
  const auto o = symvec<T, S>("offset");
  const T f = sym<T>("factor");
  const std::array<vm::vec<T, S>, N> a = l + o, b = o + l, c = l * f, d = f * l;
  for (std::size_t i = 0; i < N; ++i) for (std::size_t k = 0; k < S; ++k) {
    eq(a[i].v[k], l[i].v[k] + o.v[k], "the offset is added to every vector"); eq(b[i].v[k], o.v[k] + l[i].v[k], "the offset is added to every vector");
    eq(c[i].v[k], l[i].v[k] * f, "every vector is multiplied"); eq(d[i].v[k], f * l[i].v[k], "every vector is multiplied");
  }
}
VP_FP(arrays_d2) { arrays<double, 2, 3>(); }
VP_FP(arrays_f3) { arrays<float, 3, 2>(); }
VP_REAL(arrays_r3) { arrays<double, 3, 1>(); }
VP_FP(arrays_long) { arrays<double, 2, 9>(); }
VP_FP(lists_long) { lists<double, 2>(11); }
