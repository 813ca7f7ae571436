// Geometry of bounding boxes (bbox.h)
// BOUND: real arithmetic, box coordinates in [-10^6, 10^6]; three dimensions (size, centre, expansion, translation: 1 to 3)
// BOUND: transformation: each row of an arbitrary affine matrix with entries in [-4, 4], one row at a time (the others are unit rows), and boxes with one corner at a fixed or symbolic place
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/bbox.h>
using namespace vp;
template <typename T, std::size_t S> static vm::bbox<T, S> box() {
  const auto lo = numvec<T, S>("min"), hi = numvec<T, S>("max");
  for (std::size_t i = 0; i < S; ++i) vp_assume(lo.v[i] <= hi.v[i]);
  return vm::bbox<T, S>(lo, hi);
}
template <typename T, std::size_t S> static void measures() {
  const auto b = box<T, S>();
  const auto c = b.center(), s = b.size();
  T vol = T(1);
  for (std::size_t i = 0; i < S; ++i) {
    eq(c.v[i] - b.min.v[i], b.max.v[i] - c.v[i], "the centre is half way between the corners");
    eq(s.v[i], b.max.v[i] - b.min.v[i], "the size is the distance of the corners");
    vol = vol * (b.max.v[i] - b.min.v[i]);
  }
  eq(b.volume(), vol, "the volume is the product of the sizes");
  const T f = num<T>("f");
  for (std::size_t i = 0; i < S; ++i) vp_assume(b.max.v[i] - b.min.v[i] + T(2) * f >= T(0));
  const auto e = b.expand(f);
  const auto d = numvec<T, S>("delta");
  const auto t = b.translate(d);
  for (std::size_t i = 0; i < S; ++i) {
    eq(e.min.v[i], b.min.v[i] - f, "expansion moves every face outwards");
    eq(e.max.v[i], b.max.v[i] + f, "expansion moves every face outwards");
    eq(t.min.v[i], b.min.v[i] + d.v[i], "translation moves both corners");
    eq(t.max.v[i], b.max.v[i] + d.v[i], "translation moves both corners");
  }
}
VP_REAL(measures_d1) { measures<double, 1>(); }
VP_REAL(measures_d2) { measures<double, 2>(); }
VP_REAL(measures_d3) { measures<double, 3>(); }
VP_REAL(measures_f3) { measures<float, 3>(); }

template <typename T> static void corner() {
  const auto b = box<T, 3>();
  typedef typename vm::bbox<T, 3>::Corner C;
  const int k = vp_choose("corner", 8);
  C c[3];
  for (int i = 0; i < 3; ++i) c[i] = (k >> i) & 1 ? C::max : C::min;
  const auto p = b.corner(c), q = b.corner(c[0], c[1], c[2]);
  for (int i = 0; i < 3; ++i) {
    const T w = (k >> i) & 1 ? b.max.v[i] : b.min.v[i];
    eq(p.v[i], w, "a corner has the requested coordinates");
    eq(q.v[i], w, "a corner has the requested coordinates");
  }
}
VP_REAL(corner_d) { corner<double>(); }
VP_REAL(corner_f) { corner<float>(); }
// bit i: coordinate i is at max.  Undetermined coordinates are reported by the checks.
template <typename T> static int where(const vm::bbox<T, 3>& b, const vm::vec<T, 3>& p, const char* id) {
  int r = 0;
  for (int i = 0; i < 3; ++i) {
    const T mid = (b.min.v[i] + b.max.v[i]) * T(0.5);
    const bool up = p.v[i] > mid;
    eq(p.v[i], up ? b.max.v[i] : b.min.v[i], id);
    if (up) r |= 1 << i;
  }
  return r;
}
template <typename T> static vm::bbox<T, 3> solid() {
  const auto b = box<T, 3>();
  for (std::size_t i = 0; i < 3; ++i) vp_assume(b.max.v[i] - b.min.v[i] >= T(0.5));
  return b;
}
template <typename T> static void vertices() {
  const auto b = solid<T>();
  const auto a = b.vertices();
  int seen = 0, n = 0, seen2 = 0;
  for (const auto& v : a) seen |= 1 << where(b, v, "every vertex is a corner of the box");
  b.for_each_vertex([&](const vm::vec<T, 3>& v) { ++n; seen2 |= 1 << where(b, v, "every vertex is a corner of the box"); });
  vp_check(a.size() == 8 && seen == 255, "every corner is listed once");
  vp_check(n == 8 && seen2 == 255, "every corner is visited once");
}
VP_REAL(vertices_d) { vertices<double>(); }
VP_REAL(vertices_f) { vertices<float>(); }
template <typename T> static void edges() {
  const auto b = solid<T>();
  int n = 0, seen = 0;
  b.for_each_edge([&](const vm::vec<T, 3>& p, const vm::vec<T, 3>& q) {
    ++n;
    const int i = where(b, p, "edges end at corners"), j = where(b, q, "edges end at corners");
    const int d = i ^ j;
    vp_check(d == 1 || d == 2 || d == 4, "the ends of an edge differ in one coordinate");
    const int axis = d == 1 ? 0 : d == 2 ? 1 : 2, lo = i & j;
    const int rest = axis == 0 ? lo >> 1 : axis == 1 ? (lo & 1) | ((lo >> 1) & 2) : lo & 3;
    seen |= 1 << (axis * 4 + rest);
  });
  vp_check(n == 12 && seen == 4095, "each of the twelve edges is visited once");
}
VP_REAL(edges_d) { edges<double>(); }
VP_REAL(edges_f) { edges<float>(); }
template <typename T> static void faces() {
  const auto b = solid<T>();
  int n = 0, seen = 0;
  b.for_each_face([&](const vm::vec<T, 3>& p, const vm::vec<T, 3>& q, const vm::vec<T, 3>& r, const vm::vec<T, 3>& s, const vm::vec<T, 3>& nrm) {
    ++n;
    const int w[4] = {where(b, p, "faces have corners as vertices"), where(b, q, "faces have corners as vertices"), where(b, r, "faces have corners as vertices"), where(b, s, "faces have corners as vertices")};
    const int all = w[0] & w[1] & w[2] & w[3], any = w[0] | w[1] | w[2] | w[3];
    const int fixed = all | (7 & ~any);
    vp_check(fixed == 1 || fixed == 2 || fixed == 4, "a face lies in one side of the box");
    for (int i = 0; i < 4; ++i) {
      const int d = w[i] ^ w[(i + 1) & 3];
      vp_check((d == 1 || d == 2 || d == 4) && d != fixed, "consecutive vertices of a face are connected by an edge");
      vp_check(w[i] != w[(i + 2) & 3], "the vertices of a face are distinct");
    }
    const int axis = fixed == 1 ? 0 : fixed == 2 ? 1 : 2;
    const bool up = all != 0;
    for (int i = 0; i < 3; ++i) eq(nrm.v[i], i == axis ? (up ? T(1) : T(-1)) : T(0), "a face is reported with its outward normal");
    // clockwise as seen from outside: (q - p) x (r - q) points inwards
    const auto u = q - p, v = r - q;
    const T cx[3] = {u.v[1] * v.v[2] - u.v[2] * v.v[1], u.v[2] * v.v[0] - u.v[0] * v.v[2], u.v[0] * v.v[1] - u.v[1] * v.v[0]};
    vp_check(up ? cx[axis] < T(0) : cx[axis] > T(0), "the vertices of a face are visited clockwise as seen from outside");
    seen |= 1 << (axis * 2 + (up ? 1 : 0));
  });
  vp_check(n == 6 && seen == 63, "each of the six faces is visited once");
}
VP_REAL(faces_d) { faces<double>(); }
VP_REAL(faces_f) { faces<float>(); }

template <typename T> static void transform(bool sizes) {
  const int row = vp_choose("row", 3);
  const T a = num<T>("a", T(-4), T(4)), bb = num<T>("b", T(-4), T(4)), c = num<T>("c", T(-4), T(4)), d = num<T>("d");
  vm::vec<T, 3> lo, hi;
  for (int i = 0; i < 3; ++i) { lo.v[i] = num<T>("min"); hi.v[i] = sizes ? num<T>("max") : lo.v[i] + T(i + 1); if (sizes) vp_assume(lo.v[i] <= hi.v[i]); }
  const vm::bbox<T, 3> b(lo, hi);
  vm::mat<T, 4, 4> m = vm::mat<T, 4, 4>::identity();
  m.v[0].v[row] = a; m.v[1].v[row] = bb; m.v[2].v[row] = c; m.v[3].v[row] = d;
  const auto t = b.transform(m);
  const T k[3] = {a, bb, c};
  T l = d, h = d;
  for (int i = 0; i < 3; ++i) {
    const T x = k[i] * lo.v[i], y = k[i] * hi.v[i];
    l = l + (k[i] >= T(0) ? x : y);
    h = h + (k[i] >= T(0) ? y : x);
  }
  for (int i = 0; i < 3; ++i) {
    eq(t.min.v[i], i == row ? l : lo.v[i], "the transformed box is the smallest box around the transformed corners");
    eq(t.max.v[i], i == row ? h : hi.v[i], "the transformed box is the smallest box around the transformed corners");
  }
}
VP_REAL(transform_d) { transform<double>(false); }
VP_REAL(transform_f) { transform<float>(false); }
VP_REAL_T(transform_any_d) { transform<double>(true); }
