// Bounding boxes as point sets (bbox.h)
// BOUND: IEEE-exact over all non-NaN values (corners, points), dimension 1 to 3, double/float/int; ranges and builder histories of up to 3 elements (integers in one dimension: 6 and 9)
// BOUND: intersection of three-dimensional double boxes: ordered reals; equality up to epsilon and derived sizes: real arithmetic, |values| <= 10^7
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/bbox.h>
using namespace vp;
template <typename T> static T lo_(T a, T b) { return b < a ? b : a; }
template <typename T> static T hi_(T a, T b) { return a < b ? b : a; }

template <typename T, std::size_t S> static vm::vec<T, S> pt(const char* n) {
  auto v = symvec<T, S>(n);
  for (std::size_t i = 0; i < S; ++i) vp_assume(!nan(v.v[i]));
  return v;
}
template <typename T, std::size_t S> static vm::bbox<T, S> box(const char* a, const char* b) {
  const auto lo = pt<T, S>(a), hi = pt<T, S>(b);
  for (std::size_t i = 0; i < S; ++i) vp_assume(lo.v[i] <= hi.v[i]);
  return vm::bbox<T, S>(lo, hi);
}
template <typename T, std::size_t S> static bool in(const vm::vec<T, S>& p, const vm::bbox<T, S>& b) {
  bool r = true;
  for (std::size_t i = 0; i < S; ++i) r &= (b.min.v[i] <= p.v[i]) & (p.v[i] <= b.max.v[i]);
  return r;
}
template <typename T, std::size_t S> static void same(const vm::vec<T, S>& a, const vm::vec<T, S>& b, const char* id) {
  for (std::size_t i = 0; i < S; ++i) vp_check(a.v[i] == b.v[i], id);
}

template <typename T, std::size_t S> static void ctor() {
  const auto lo = pt<T, S>("min"), hi = pt<T, S>("max");
  const T s = sym<T>("s"), t = sym<T>("t");
  vp_assume(!nan(s) && !nan(t));
  if (sizeof(T) == 4 && T(0.5) == T(0)) vp_assume(s > T(-2147483647));
  const vm::bbox<T, S> d, b(lo, hi), st(s, t), m(s);
  for (std::size_t i = 0; i < S; ++i) {
    vp_check(d.min.v[i] == T(0) && d.max.v[i] == T(0), "the default box is empty at the origin");
    vp_check(b.min.v[i] == lo.v[i] && b.max.v[i] == hi.v[i], "a box has the given corners");
    vp_check(st.min.v[i] == s && st.max.v[i] == t, "a box from two scalars");
    vp_check(m.min.v[i] == -s && m.max.v[i] == s, "a box from one scalar is centred at the origin");
  }
  bool valid = true, empty = false;
  for (std::size_t i = 0; i < S; ++i) { valid &= lo.v[i] <= hi.v[i]; empty |= lo.v[i] == hi.v[i]; }
  vp_check((vm::bbox<T, S>::is_valid(lo, hi)) == valid, "a box is valid iff min <= max in every dimension");
  vp_check(b.is_valid() == valid, "a box is valid iff min <= max in every dimension");
  if (valid) vp_check(b.is_empty() == empty, "a box is empty iff it has no extent in some dimension");
  const auto r = vm::repair(b);
  for (std::size_t i = 0; i < S; ++i) {
    vp_check(r.min.v[i] == lo_(lo.v[i], hi.v[i]), "repair orders the corners");
    vp_check(r.max.v[i] == hi_(lo.v[i], hi.v[i]), "repair orders the corners");
  }
}
VP_FP(ctor_d1) { ctor<double, 1>(); }
VP_FP(ctor_d2) { ctor<double, 2>(); }
VP_FP(ctor_d3) { ctor<double, 3>(); }
VP_FP(ctor_f3) { ctor<float, 3>(); }
VP_FP(ctor_i2) { ctor<int, 2>(); }

template <typename T, std::size_t S> static void member() {
  const auto a = box<T, S>("amin", "amax"), b = box<T, S>("bmin", "bmax");
  const auto p = pt<T, S>("p");
  vp_check(a.contains(p) == in(p, a), "a box contains exactly the points between its corners");
  bool sub = true, enc = true, meet = true;
  for (std::size_t i = 0; i < S; ++i) {
    sub &= (a.min.v[i] <= b.min.v[i]) & (b.max.v[i] <= a.max.v[i]);
    enc &= (a.min.v[i] < b.min.v[i]) & (b.max.v[i] < a.max.v[i]);
    meet &= (a.min.v[i] <= b.max.v[i]) & (b.min.v[i] <= a.max.v[i]);
  }
  vp_check(a.contains(b) == sub, "a box contains another iff it contains both its corners");
  vp_check(a.encloses(b) == enc, "a box encloses another iff they do not touch");
  vp_check(a.intersects(b) == meet, "boxes intersect iff they share a point");
  vp_check(b.intersects(a) == meet, "intersection is symmetric");
  const auto r = a.relative_position(p);
  for (std::size_t i = 0; i < S; ++i) {
    vp_check((r[i] == vm::bbox<T, S>::Range::less) == (p.v[i] < a.min.v[i]), "relative position: less");
    vp_check((r[i] == vm::bbox<T, S>::Range::greater) == (p.v[i] > a.max.v[i]), "relative position: greater");
    vp_check((r[i] == vm::bbox<T, S>::Range::within) == (p.v[i] >= a.min.v[i] && p.v[i] <= a.max.v[i]), "relative position: within");
  }
}
VP_FP(member_d1) { member<double, 1>(); }
VP_FP(member_d2) { member<double, 2>(); }
VP_FP(member_d3) { member<double, 3>(); }
VP_FP(member_f3) { member<float, 3>(); }
VP_FP(member_i2) { member<int, 2>(); }

// smallest box around both
template <typename T, std::size_t S> static void merged() {
  const auto a = box<T, S>("amin", "amax"), b = box<T, S>("bmin", "bmax");
  const auto p = pt<T, S>("p");
  const auto m = vm::merge(a, b), mp = vm::merge(a, p);
  for (std::size_t i = 0; i < S; ++i) {
    vp_check((m.min.v[i] == lo_(a.min.v[i], b.min.v[i])) & (m.max.v[i] == hi_(a.max.v[i], b.max.v[i])), "merge is the smallest box around both boxes");
    vp_check((mp.min.v[i] == lo_(a.min.v[i], p.v[i])) & (mp.max.v[i] == hi_(a.max.v[i], p.v[i])), "merge is the smallest box around the box and the point");
  }
}
template <typename T, std::size_t S> static void common() {
  const auto a = box<T, S>("amin", "amax"), b = box<T, S>("bmin", "bmax");
  const auto x = vm::intersect(a, b);
  bool meet = true;
  for (std::size_t i = 0; i < S; ++i) meet &= (a.min.v[i] <= b.max.v[i]) & (b.min.v[i] <= a.max.v[i]);
  for (std::size_t i = 0; i < S; ++i) {
    const T lo = meet ? hi_(a.min.v[i], b.min.v[i]) : T(0), hi = meet ? lo_(a.max.v[i], b.max.v[i]) : T(0);
    vp_check((x.min.v[i] == lo) & (x.max.v[i] == hi), "the intersection holds exactly the common points (the empty box at the origin if there are none)");
  }
}
template <typename T, std::size_t S> static void constrained() {
  const auto a = box<T, S>("amin", "amax");
  const auto p = pt<T, S>("p");
  const auto c = a.constrain(p);
  for (std::size_t i = 0; i < S; ++i) {
    const T want = p.v[i] < a.min.v[i] ? a.min.v[i] : (p.v[i] > a.max.v[i] ? a.max.v[i] : p.v[i]);
    vp_check(c.v[i] == want, "constraining moves a point to the nearest point of the box");
  }
}
VP_FP(merge_d1) { merged<double, 1>(); }
VP_FP(merge_d2) { merged<double, 2>(); }
VP_FP(merge_d3) { merged<double, 3>(); }
VP_FP(merge_f3) { merged<float, 3>(); }
VP_FP(merge_i2) { merged<int, 2>(); }
VP_FP(common_d1) { common<double, 1>(); }
VP_FP(common_d2) { common<double, 2>(); }
VP_FP(common_f3) { common<float, 3>(); }
VP_FP(common_i2) { common<int, 2>(); }
VP_REAL(common_d3) { common<double, 3>(); }
VP_FP(constrain_d1) { constrained<double, 1>(); }
VP_FP(constrain_d2) { constrained<double, 2>(); }
VP_FP(constrain_d3) { constrained<double, 3>(); }
VP_FP(constrain_f3) { constrained<float, 3>(); }
VP_FP(constrain_i2) { constrained<int, 2>(); }

template <typename T, std::size_t S> static void equality() {
  const auto a = box<T, S>("amin", "amax"), b = box<T, S>("bmin", "bmax");
  bool e = true;
  for (std::size_t i = 0; i < S; ++i) e &= (a.min.v[i] == b.min.v[i]) & (a.max.v[i] == b.max.v[i]);
  vp_check((a == b) == e, "boxes are equal iff their corners are");
  vp_check((a != b) == !e, "boxes differ iff a corner differs");
}
VP_FP(equality_d2) { equality<double, 2>(); }
VP_FP(equality_d3) { equality<double, 3>(); }
VP_FP(equality_f3) { equality<float, 3>(); }
template <typename T, std::size_t S> static void equality_eps() {
  const vm::bbox<T, S> a(numvec<T, S>("amin"), numvec<T, S>("amax")), b(numvec<T, S>("bmin"), numvec<T, S>("bmax"));
  const T eps = num<T>("epsilon", T(0), T(10));
  bool e = true;
  for (std::size_t i = 0; i < S; ++i) {
    const T d = a.min.v[i] - b.min.v[i], f = a.max.v[i] - b.max.v[i];
    e &= (d <= eps) & (-d <= eps) & (f <= eps) & (-f <= eps);
  }
  vp_check(vm::is_equal(a, b, eps) == e, "boxes are equal up to epsilon iff no coordinate differs by more");
}
VP_REAL(equality_eps_d2) { equality_eps<double, 2>(); }
VP_REAL_T(equality_eps_d3) { equality_eps<double, 3>(); }

// the smallest box around a range
template <typename T, std::size_t S> static void range() {
  const int n = 1 + vp_choose("n", 3);
  vm::vec<T, S> p[3];
  for (int i = 0; i < n; ++i) p[i] = pt<T, S>("p");
  const auto m = vm::bbox<T, S>::merge_all(p, p + n);
  typename vm::bbox<T, S>::builder u;
  vp_check(!u.initialized(), "a new builder is not initialized");
  for (std::size_t k = 0; k < S; ++k) vp_check(u.bounds().min.v[k] == T(0) && u.bounds().max.v[k] == T(0), "an unused builder yields the empty box at the origin");
  u.add(p, p + n);
  vp_check(u.initialized(), "a builder is initialized once something was added");
  for (std::size_t k = 0; k < S; ++k) {
    T lo = p[0].v[k], hi = lo;
    for (int i = 1; i < n; ++i) { lo = lo_(lo, p[i].v[k]); hi = hi_(hi, p[i].v[k]); }
    vp_check(m.min.v[k] == lo && m.max.v[k] == hi, "merging a range yields its smallest box");
    vp_check(u.bounds().min.v[k] == lo && u.bounds().max.v[k] == hi, "a builder yields the smallest box");
  }
}
VP_FP(range_d1) { range<double, 1>(); }
VP_FP(range_d3) { range<double, 3>(); }
VP_FP(range_f2) { range<float, 2>(); }
struct E { int tag; vm::vec<double, 2> v; };
VP_FP(range_get) {
  const int n = 1 + vp_choose("n", 3);
  E p[3];
  for (int i = 0; i < n; ++i) p[i].v = pt<double, 2>("p");
  const auto get = [](const E& e) { return e.v; };
  const auto m = vm::bbox<double, 2>::merge_all(p, p + n, get);
  vm::bbox<double, 2>::builder u;
  u.add(p, p, get);
  vp_check(!u.initialized(), "adding an empty range adds nothing");
  u.add(p, p + n, get);
  for (std::size_t k = 0; k < 2; ++k) {
    double lo = p[0].v.v[k], hi = lo;
    for (int i = 1; i < n; ++i) { lo = lo_(lo, p[i].v.v[k]); hi = hi_(hi, p[i].v.v[k]); }
    vp_check(m.min.v[k] == lo && m.max.v[k] == hi, "merging a range yields its smallest box");
    vp_check(u.bounds().min.v[k] == lo && u.bounds().max.v[k] == hi, "a builder yields the smallest box");
  }
}
// any history of adding points and boxes
template <typename T, std::size_t S> static void history() {
  const int n = 1 + vp_choose("n", 3);
  typename vm::bbox<T, S>::builder u;
  vm::vec<T, S> lo, hi;
  for (int i = 0; i < n; ++i) {
    vm::vec<T, S> a = pt<T, S>("a"), b = a;
    if (vp_choose("box", 2)) {
      b = pt<T, S>("b");
      for (std::size_t k = 0; k < S; ++k) vp_assume(a.v[k] <= b.v[k]);
      u.add(vm::bbox<T, S>(a, b));
    } else u.add(a);
    for (std::size_t k = 0; k < S; ++k) {
      lo.v[k] = i == 0 ? a.v[k] : lo_(lo.v[k], a.v[k]);
      hi.v[k] = i == 0 ? b.v[k] : hi_(hi.v[k], b.v[k]);
    }
    vp_check(u.initialized(), "a builder is initialized once something was added");
    same(u.bounds().min, lo, "a builder yields the smallest box around everything added");
    same(u.bounds().max, hi, "a builder yields the smallest box around everything added");
  }
}
VP_FP(history_d2) { history<double, 2>(); }
VP_FP(history_f3) { history<float, 3>(); }
// a long history of points and boxes in alternation
VP_FP(history_long) {
  vm::bbox<int, 1>::builder u;
  vm::vec<int, 1> lo, hi;
  for (int i = 0; i < 9; ++i) {
    const auto a = symvec<int, 1>("a");
    auto b = a;
    if (i % 3 == 1) { b = symvec<int, 1>("b"); vp_assume(a.v[0] <= b.v[0]); u.add(vm::bbox<int, 1>(a, b)); }
    else u.add(a);
    lo.v[0] = i == 0 ? a.v[0] : lo_(lo.v[0], a.v[0]); hi.v[0] = i == 0 ? b.v[0] : hi_(hi.v[0], b.v[0]);
  }
  same(u.bounds().min, lo, "a builder yields the smallest box around everything added");
  same(u.bounds().max, hi, "a builder yields the smallest box around everything added");
}
VP_FP(range_long) {
  vm::vec<int, 1> p[6], lo, hi;
  for (int i = 0; i < 6; ++i) {
    p[i] = symvec<int, 1>("p");
    for (std::size_t k = 0; k < 1; ++k) { lo.v[k] = i == 0 ? p[i].v[k] : lo_(lo.v[k], p[i].v[k]); hi.v[k] = i == 0 ? p[i].v[k] : hi_(hi.v[k], p[i].v[k]); }
  }
  vm::bbox<int, 1>::builder u;
  u.add(p, p + 6);
  same(u.bounds().min, lo, "a builder yields the smallest box around everything added");
  same(u.bounds().max, hi, "a builder yields the smallest box around everything added");
  const auto m = vm::bbox<int, 1>::merge_all(p, p + 6);
  same(m.min, lo, "merging a range yields its smallest box");
  same(m.max, hi, "merging a range yields its smallest box");
}
