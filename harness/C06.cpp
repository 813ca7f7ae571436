// Construction, access, slicing, axis permutation and component selection of vectors (vec.h, constexpr_util.h)
// BOUND: IEEE-exact over all component values (component ranking: no NaN); dimension 1 to 5; ranks k below the dimension
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <limits>
using namespace vp;

template <typename T, std::size_t S> using V = vm::vec<T, S>;

template <typename T> static void construct() {
  const T a = sym<T>("a"), b = sym<T>("b"), c = sym<T>("c"), d = sym<T>("d");
  const V<T, 3> z;
  for (int i = 0; i < 3; ++i) eq(z.v[i], T(0), "a default vector is zero");
  const V<T, 3> v3(a, b, c);
  eq(v3.v[0], a, "component constructor"); eq(v3.v[1], b, "component constructor"); eq(v3.v[2], c, "component constructor");
  const V<T, 4> v4(a, b, c, d);
  eq(v4[0], a, "component constructor"); eq(v4[1], b, "component constructor"); eq(v4[2], c, "component constructor"); eq(v4[3], d, "component constructor");
  eq(v4.x(), a, "named components"); eq(v4.y(), b, "named components"); eq(v4.z(), c, "named components"); eq(v4.w(), d, "named components");
  eq(v4.xy(), V<T, 2>(a, b), "xy"); eq(v4.xz(), V<T, 2>(a, c), "xz"); eq(v4.yz(), V<T, 2>(b, c), "yz");
  eq(v4.xyz(), v3, "xyz"); eq(v4.xyzw(), v4, "xyzw");
  const V<T, 4> e(v3, d), f(V<T, 2>(a, b), c, d), g(V<T, 1>(a), b, c, d);
  eq(e, v4, "extension by one component"); eq(f, v4, "extension by two components"); eq(g, v4, "extension by three components");
  const V<T, 2> sh(v4);
  eq(sh, V<T, 2>(a, b), "conversion to fewer components drops the last ones");
  const V<T, 4> lo(V<T, 2>(a, b));
  eq(lo, V<T, 4>(a, b, T(0), T(0)), "conversion to more components fills with zero");
  const V<T, 3> il{a, b}, il3{a, b, c}, il4{a, b, c, d};
  eq(il, V<T, 3>(a, b, T(0)), "short lists are filled with zero"); eq(il3, v3, "lists"); eq(il4, v3, "excess list elements are dropped");
  V<T, 3> w;
  w = v3;
  eq(w, v3, "assignment");
  w[1] = d;
  eq(w, V<T, 3>(a, d, c), "component assignment changes that component only");
  eq(V<T, 3>::fill(a), V<T, 3>(a, a, a), "fill");
  eq(+v3, v3, "unary plus");
}
VP_FP(construct_d) { construct<double>(); }
VP_FP(construct_f) { construct<float>(); }
VP_FP(construct_i) { construct<int>(); }
VP_FP(convert) {
  const auto d = symvec<double, 3>("d");
  const V<float, 3> f(d);
  for (int i = 0; i < 3; ++i) eq(f.v[i], static_cast<float>(d.v[i]), "conversion to float");
  const auto g = symvec<float, 3>("g");
  const V<double, 3> h(g);
  for (int i = 0; i < 3; ++i) eq(h.v[i], static_cast<double>(g.v[i]), "conversion to double");
  const auto k = symvec<int, 2>("k");
  const V<double, 3> l(k);
  eq(l, V<double, 3>(k.v[0], k.v[1], 0), "conversion from int");
  const V<double, 3> m(g.v[0], k.v[0], d.v[0]);
  eq(m, V<double, 3>(double(g.v[0]), double(k.v[0]), d.v[0]), "construction from mixed types");
  const V<double, 3> n(V<float, 2>(g), k.v[1]);
  eq(n, V<double, 3>(double(g.v[0]), double(g.v[1]), double(k.v[1])), "extension with conversion");
}
template <typename T, std::size_t S> static void axes() {
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t j = 0; j < S; ++j) eq(V<T, S>::axis(i).v[j], i == j ? T(1) : T(0), "unit axes");
  for (std::size_t j = 0; j < S; ++j) {
    eq(V<T, S>::pos_x().v[j], j == 0 ? T(1) : T(0), "positive x axis");
    eq(V<T, S>::neg_x().v[j], j == 0 ? T(-1) : T(0), "negative x axis");
    eq(V<T, S>::pos_y().v[j], j == 1 ? T(1) : T(0), "positive y axis");
    eq(V<T, S>::neg_y().v[j], j == 1 ? T(-1) : T(0), "negative y axis");
    if constexpr (S > 2) {
      eq(V<T, S>::pos_z().v[j], j == 2 ? T(1) : T(0), "positive z axis");
      eq(V<T, S>::neg_z().v[j], j == 2 ? T(-1) : T(0), "negative z axis");
    }
    eq(V<T, S>::zero().v[j], T(0), "zero vector");
    eq(V<T, S>::one().v[j], T(1), "one vector");
    eq(V<T, S>::max().v[j], std::numeric_limits<T>::max(), "maximum vector");
    if constexpr (std::is_floating_point<T>::value) vp_check(V<T, S>::nan().v[j] != V<T, S>::nan().v[j], "non-number vector");
  }
}
VP_FP(axes_d3) { axes<double, 3>(); }
VP_FP(axes_f4) { axes<float, 4>(); }
VP_FP(axes_i2) { axes<int, 2>(); }
template <typename T> static void slices() {
  const auto v = symvec<T, 5>("v");
  const auto a = vm::slice<1>(v, 4), a0 = vm::slice<1>(v, 0);
  eq(a.v[0], v.v[4], "slice of one component"); eq(a0.v[0], v.v[0], "slice of one component");
  for (std::size_t o = 0; o <= 3; ++o) { const auto s = vm::slice<2>(v, o); for (std::size_t i = 0; i < 2; ++i) eq(s.v[i], v.v[o + i], "slice of two components"); }
  for (std::size_t o = 0; o <= 2; ++o) { const auto s = vm::slice<3>(v, o); for (std::size_t i = 0; i < 3; ++i) eq(s.v[i], v.v[o + i], "slice of three components"); }
  for (std::size_t o = 0; o <= 1; ++o) { const auto s = vm::slice<4>(v, o); for (std::size_t i = 0; i < 4; ++i) eq(s.v[i], v.v[o + i], "slice of four components"); }
  eq(vm::slice<5>(v, 0), v, "full slice");
}
VP_FP(slices_d) { slices<double>(); }
VP_FP(slices_i) { slices<int>(); }
template <typename T> static void swizzles() {
  const auto v = symvec<T, 3>("v");
  for (std::size_t a = 0; a < 4; ++a) {
    const auto s = vm::swizzle(v, a);
    eq(vm::unswizzle(s, a), v, "unswizzle undoes swizzle");
    eq(vm::swizzle(vm::unswizzle(v, a), a), v, "swizzle undoes unswizzle");
    if (a < 3) {
      eq(s.v[2], v.v[a], "swizzle moves the given axis to the end");
      eq(s.v[0], v.v[(a + 1) % 3], "swizzle rotates the axes cyclically");
      eq(s.v[1], v.v[(a + 2) % 3], "swizzle rotates the axes cyclically");
    } else {
      eq(s, v, "swizzle leaves other axes alone");
    }
  }
}
VP_FP(swizzles_d) { swizzles<double>(); }
VP_FP(swizzles_f) { swizzles<float>(); }

// ranking of components
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T, std::size_t S> static V<T, S> input() {
  const auto v = symvec<T, S>("v");
  for (std::size_t i = 0; i < S; ++i) {
    vp_assume(v.v[i] == v.v[i]);
    if (std::is_integral<T>::value) vp_assume(v.v[i] > std::numeric_limits<T>::min());
  }
  return v;
}
template <typename T, std::size_t S> static void rank() {
  const auto v = input<T, S>();
  std::size_t seen[S];
  for (std::size_t k = 0; k < S; ++k) {
    const std::size_t i = vm::find_max_component(v, k);
    vp_check(i < S, "the index of the largest component is valid");
    const T x = v[i < S ? i : 0];
    std::size_t g = 0, ge = 0;
    for (std::size_t j = 0; j < S; ++j) { g += v.v[j] > x; ge += v.v[j] >= x; }
    vp_check(g <= k && k < ge, "find_max_component returns the k-th largest component");
    eq(vm::get_max_component(v, k), x, "get_max_component returns the k-th largest component");
    for (std::size_t j = 0; j < k; ++j) vp_check(seen[j] != i, "different ranks are different components");
    seen[k] = i;
  }
  vp_check(vm::find_max_component(v) == seen[0], "the default rank is the largest component");
  eq(vm::get_max_component(v), v[seen[0]], "the default rank is the largest component");
}
template <typename T, std::size_t S> static void abs_rank() {
  const auto v = input<T, S>();
  std::size_t seen[S];
  for (std::size_t k = 0; k < S; ++k) {
    const std::size_t i = vm::find_abs_max_component(v, k);
    vp_check(i < S, "the index of the largest component is valid");
    const T x = v[i < S ? i : 0];
    std::size_t g = 0, ge = 0;
    for (std::size_t j = 0; j < S; ++j) { g += abs_(v.v[j]) > abs_(x); ge += abs_(v.v[j]) >= abs_(x); }
    vp_check(g <= k && k < ge, "find_abs_max_component returns the component of k-th largest magnitude");
    eq(abs_(vm::get_abs_max_component(v, k)), abs_(x), "get_abs_max_component returns the component of k-th largest magnitude");
    const T gm = vm::get_abs_max_component(v, k);
    bool member = false;
    for (std::size_t j = 0; j < S; ++j) member = member | (v.v[j] == gm);
    vp_check(member, "get_abs_max_component returns a component");
    const auto ax = vm::get_abs_max_component_axis(v, k);
    for (std::size_t j = 0; j < S; ++j) eq(ax.v[j], j != i ? T(0) : x < T(0) ? T(-1) : T(1), "the axis points along that component, with its sign");
    for (std::size_t j = 0; j < k; ++j) vp_check(seen[j] != i, "different ranks are different components");
    seen[k] = i;
  }
  vp_check(vm::find_abs_max_component(v) == seen[0], "the default rank is the largest magnitude");
  eq(abs_(vm::get_abs_max_component(v)), abs_(v[seen[0]]), "the default rank is the largest magnitude");
}
VP_FP(rank_d2) { rank<double, 2>(); }
VP_FP(rank_d3) { rank<double, 3>(); }
VP_FP(rank_i4) { rank<int, 4>(); }
VP_FP(abs_rank_d2) { abs_rank<double, 2>(); }
VP_FP(abs_rank_f3) { abs_rank<float, 3>(); }
VP_FP(abs_rank_i3) { abs_rank<int, 3>(); }
VP_REAL(rank_d4) { rank<double, 4>(); }
VP_REAL_T(abs_rank_d4) { abs_rank<double, 4>(); }
VP_REAL_T(rank_d5) { rank<double, 5>(); }
