// Polygons (polygon.h)
// BOUND: up to four vertices in two dimensions, in three dimensions three (seven, and six for comparison, with the smallest vertex at a chosen place); order, equality, construction and conversion: IEEE-exact over all non-NaN values or real arithmetic as stated per harness; measures and transformation: real arithmetic, coordinates in [-10^6, 10^6]
// BOUND: unoriented comparison: up to four vertices, pairwise different vertices within a polygon when an epsilon is given
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/vec_ext.h>
#include <vecmath/polygon.h>
#include <iterator>
#include <vector>
using namespace vp;
template <typename T, std::size_t S> using V = vm::vec<T, S>;
template <typename T, std::size_t S> using P = vm::polygon<T, S>;

template <typename T, std::size_t S> static V<T, S> ord(const char* n) {
  const auto v = symvec<T, S>(n);
  for (std::size_t i = 0; i < S; ++i) vp_assume(!nan(v.v[i]));
  return v;
}
template <typename T, std::size_t S> static int cmp(const V<T, S>& a, const V<T, S>& b, T eps = T(0)) {
  for (std::size_t i = 0; i < S; ++i) {
    if (a.v[i] < b.v[i] - eps) return -1;
    if (a.v[i] > b.v[i] + eps) return 1;
  }
  return 0;
}
// without branches
template <typename T, std::size_t S> static bool less(const V<T, S>& a, const V<T, S>& b) {
  bool r = false;
  for (std::size_t i = S; i-- > 0;) r = (a.v[i] < b.v[i]) | ((a.v[i] == b.v[i]) & r);
  return r;
}
template <typename T, std::size_t S> static bool same(const V<T, S>& a, const V<T, S>& b) {
  bool r = true;
  for (std::size_t i = 0; i < S; ++i) r = r & (a.v[i] == b.v[i]);
  return r;
}
template <typename T, std::size_t S> static void normal_form(const P<T, S>& p, const std::vector<V<T, S>>& v) {
  const std::size_t n = v.size();
  vp_check(p.vertexCount() == n && p.vertices().size() == n, "a polygon has as many vertices as it is given");
  if (p.vertices().size() != n || n == 0) return;
  bool any = false;
  for (std::size_t k = 0; k < n; ++k) {
    bool all = true;
    for (std::size_t i = 0; i < n; ++i) all = all & same(p.vertices()[i], v[(i + k) % n]);
    any = any | all;
  }
  vp_check(any, "a polygon has the given vertices in the given cyclic order");
  for (std::size_t i = 1; i < n; ++i) vp_check(!less(p.vertices()[i], p.vertices()[0]), "the smallest vertex comes first");
}
template <typename T, std::size_t S> static void construct(int n) {
  std::vector<V<T, S>> v;
  for (int i = 0; i < n; ++i) v.push_back(ord<T, S>("v"));
  normal_form(P<T, S>(v), v);
  auto w = v;
  normal_form(P<T, S>(std::move(w)), v);
  if (n == 2) normal_form(P<T, S>({v[0], v[1]}), v);
  if (n == 3) normal_form(P<T, S>({v[0], v[1], v[2]}), v);
  if (n == 4) normal_form(P<T, S>({v[0], v[1], v[2], v[3]}), v);
}
VP_FP(construct_d1) { construct<double, 1>(vp_choose("n", 4)); }
VP_FP(construct_f2) { construct<float, 2>(vp_choose("n", 4)); }
VP_FP(construct_4) { construct<float, 1>(4); }
VP_FP(construct_3) { construct<float, 3>(3); }
VP_FP_T(construct_d2) { construct<double, 2>(4); }
VP_REAL_T(construct_d3) { construct<double, 3>(3); }
VP_FP(empty) {
  const P<double, 3> p, q(std::vector<V<double, 3>>{});
  vp_check(p.vertexCount() == 0 && q.vertexCount() == 0 && p.begin() == p.end() && q.vertices().empty(), "an empty polygon has no vertices");
  vp_check(p == q && p.invert() == q && vm::compareUnoriented(p, q) == 0, "empty polygons are equal");
}
// the same polygon, whichever vertex is given first
template <typename T, std::size_t S> static void rotation(int n) {
  std::vector<V<T, S>> v, w;
  for (int i = 0; i < n; ++i) v.push_back(ord<T, S>("v"));
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vp_assume(!same(v[i], v[j]));
  const int k = vp_choose("k", n);
  for (int i = 0; i < n; ++i) w.push_back(v[(i + k) % n]);
  const P<T, S> p(v), q(w);
  vp_check(p == q, "a polygon does not depend on the vertex that is given first");
}
VP_REAL(rotation_d2) { rotation<double, 2>(3); }
VP_FP(rotation_d1) { rotation<double, 1>(3); }
VP_FP(conversion) {
  const int n = vp_choose("n", 3) + 1;
  std::vector<V<double, 2>> v;
  std::vector<V<float, 2>> f;
  for (int i = 0; i < n; ++i) { v.push_back(ord<double, 2>("v")); v.back().v[1] = vp_f64("w"); vp_assume(!nan(v.back().v[1])); f.push_back(V<float, 2>(float(v[i].v[0]), float(v[i].v[1]))); }
  normal_form(P<float, 2>(P<double, 2>(v)), f);
}
VP_FP(conversion_widening) {
  const int n = vp_choose("n", 3) + 1;
  std::vector<V<float, 2>> v;
  std::vector<V<double, 2>> f;
  for (int i = 0; i < n; ++i) { v.push_back(ord<float, 2>("v")); f.push_back(V<double, 2>(double(v[i].v[0]), double(v[i].v[1]))); }
  normal_form(P<double, 2>(P<float, 2>(v)), f);
}
template <typename T, std::size_t S> static void access(int n) {
  std::vector<V<T, S>> v;
  for (int i = 0; i < n; ++i) v.push_back(ord<T, S>("v"));
  const P<T, S> p(v);
  const auto& u = p.vertices();
  if (u.size() != std::size_t(n)) return;
  int i = 0;
  for (auto it = p.begin(); it != p.end() && i < n; ++it, ++i) eq(*it, u[i], "iterating visits the vertices in order");
  vp_check(i == n, "iterating visits every vertex");
  for (auto it = p.rbegin(); it != p.rend() && i > 0; ++it) eq(*it, u[--i], "reverse iteration visits the vertices backwards");
  vp_check(i == 0, "reverse iteration visits every vertex");
  const auto q = ord<T, S>("q");
  bool has = false;
  for (int j = 0; j < n; ++j) has = has | same(v[j], q);
  vp_check(p.hasVertex(q) == has, "a polygon has exactly the vertices it was given");
  const P<T, S> r = p.invert();
  vp_check(r.vertexCount() == std::size_t(n), "inverting keeps the number of vertices");
  if (r.vertexCount() != std::size_t(n)) return;
  for (int j = 0; j < n; ++j) eq(r.vertices()[j], u[(n - j) % n], "inverting reverses the order of the vertices");
}
VP_FP(access_d1) { access<double, 1>(vp_choose("n", 4)); }
VP_FP(access_f2) { access<float, 2>(vp_choose("n", 4)); }
VP_REAL(access_d2) { access<double, 2>(vp_choose("n", 4)); }
VP_REAL(access_d3) { access<double, 3>(2); }

template <typename T, std::size_t S> static void moved(int n) {
  std::vector<V<T, S>> v, w, x;
  for (int i = 0; i < n; ++i) v.push_back(numvec<T, S>("v"));
  const P<T, S> p(v);
  V<T, S> sum;
  for (int i = 0; i < n; ++i) for (std::size_t k = 0; k < S; ++k) sum.v[k] = sum.v[k] + v[i].v[k];
  const auto c = p.center();
  for (std::size_t k = 0; k < S; ++k) eq(c.v[k] * T(n), sum.v[k], "the centre is the average of the vertices");
  const auto o = numvec<T, S>("o");
  for (int i = 0; i < n; ++i) w.push_back(v[i] + o);
  if (vp_is_replay()) return;
  normal_form(p.translate(o), w);
}
VP_REAL(translate_d2) { moved<double, 2>(vp_choose("n", 3) + 1); }
VP_REAL(translate_f3) { moved<float, 3>(2); }
template <typename T> static V<T, 2> app(const vm::mat<T, 3, 3>& m, const V<T, 2>& p) {
  return V<T, 2>(m.v[0].v[0] * p.v[0] + m.v[1].v[0] * p.v[1] + m.v[2].v[0], m.v[0].v[1] * p.v[0] + m.v[1].v[1] * p.v[1] + m.v[2].v[1]);
}
template <typename T> static void transformed(int n) {
  std::vector<V<T, 2>> v, w;
  vm::mat<T, 3, 3> m;
  static const T M[3][4] = {{2, 0, 0, -1}, {0, 3, -1, 1}, {1, 2, -2, 1}};
  const int k = vp_choose("matrix", 3);
  m.v[0].v[0] = M[k][0]; m.v[1].v[0] = M[k][1]; m.v[0].v[1] = M[k][2]; m.v[1].v[1] = M[k][3];
  m.v[2].v[0] = num<T>("translation"); m.v[2].v[1] = num<T>("translation");
  for (int i = 0; i < n; ++i) { v.push_back(numvec<T, 2>("v")); w.push_back(app(m, v[i])); }
  if (vp_is_replay()) return;
  normal_form(P<T, 2>(v).transform(m), w);
}
VP_REAL(transform_d) { transformed<double>(vp_choose("n", 3) + 1); }
VP_REAL(transform_f) { transformed<float>(2); }
VP_FP(vertices) {
  const int n = vp_choose("n", 3);
  std::vector<P<double, 1>> l;
  std::vector<V<double, 1>> r;
  for (int i = 0; i < n; ++i) {
    std::vector<V<double, 1>> v;
    const int m = vp_choose("m", 4);
    for (int j = 0; j < m; ++j) v.push_back(ord<double, 1>("v"));
    l.push_back(P<double, 1>(v));
  }
  P<double, 1>::get_vertices(l.begin(), l.end(), std::back_inserter(r));
  std::size_t k = 0;
  for (int i = 0; i < n; ++i) for (std::size_t j = 0; j < l[i].vertexCount(); ++j, ++k) if (k < r.size()) eq(r[k], l[i].vertices()[j], "the vertices of all polygons in order");
  vp_check(r.size() == k, "every vertex of every polygon");
}
template <typename T, std::size_t S> static P<T, S> poly(int n, const char* name) {
  std::vector<V<T, S>> v;
  for (int i = 0; i < n; ++i) v.push_back(ord<T, S>(name));
  return P<T, S>(v);
}
template <typename T, std::size_t S> static int lex(const P<T, S>& a, const P<T, S>& b, T eps = T(0)) {
  std::size_t i = 0;
  for (; i < a.vertexCount() && i < b.vertexCount(); ++i) {
    const int c = cmp(a.vertices()[i], b.vertices()[i], eps);
    if (c != 0) return c;
  }
  return a.vertexCount() < b.vertexCount() ? -1 : a.vertexCount() > b.vertexCount() ? 1 : 0;
}
static int sgn(int a) { return a < 0 ? -1 : a > 0 ? 1 : 0; }
template <typename T, std::size_t S> static void order(int n, int m) {
  const auto a = poly<T, S>(n, "a"), b = poly<T, S>(m, "b");
  const int e = lex(a, b);
  vp_check(sgn(vm::compare(a, b)) == e, "polygons are compared vertex by vertex");
  vp_check((a == b) == (e == 0) && (a != b) == (e != 0), "polygons are equal iff all their vertices are");
  vp_check((a < b) == (e < 0) && (a <= b) == (e <= 0) && (a > b) == (e > 0) && (a >= b) == (e >= 0), "order of polygons");
}
VP_FP(order_d1) { order<double, 1>(vp_choose("n", 3), vp_choose("m", 3)); }
VP_REAL(order_d2) { order<double, 2>(vp_choose("n", 2) + 1, vp_choose("m", 2) + 1); }
VP_REAL(order_f1) { order<float, 1>(3, 3); }
VP_REAL(order_eps) {
  const auto a = poly<double, 1>(vp_choose("n", 2) + 1, "a"), b = poly<double, 1>(vp_choose("m", 2) + 1, "b");
  const double eps = num<double>("epsilon", 0, 10);
  const int e = lex(a, b, eps);
  vp_check(sgn(vm::compare(a, b, eps)) == e, "the first coordinate that differs by more than epsilon decides");
  vp_check(vm::isEqual(a, b, eps) == (e == 0), "polygons are equal up to epsilon iff no coordinate differs by more");
}
template <typename T, std::size_t S> static void unoriented(int n, int m) {
  const auto a = poly<T, S>(n, "a"), b = poly<T, S>(m, "b");
  const int c = vm::compareUnoriented(a, b);
  if (n != m) { vp_check(sgn(c) == sgn(n - m), "a polygon with fewer vertices is less"); return; }
  bool fw = true, bw = true;
  for (int i = 0; i < n; ++i) {
    fw = fw & same(a.vertices()[i], b.vertices()[i]);
    bw = bw & same(a.vertices()[i], b.vertices()[(n - i) % n]);
  }
  if (c == 0) vp_check(fw | bw, "polygons that differ not only in their orientation are told apart");
  else vp_check(!(fw | bw), "the orientation does not matter");
  if (c != 0) {
    vp_check(sgn(c) == lex(a, b), "different polygons are compared vertex by vertex");
    vp_check(sgn(vm::compareUnoriented(b, a)) == -sgn(c), "exchanging the polygons reverses the result");
  }
}
VP_FP(unoriented_size) { unoriented<double, 1>(vp_choose("n", 3), vp_choose("m", 3)); }
VP_REAL(unoriented_3) { unoriented<double, 1>(3, 3); }
VP_FP(unoriented_4) { unoriented<float, 1>(4, 4); }
VP_REAL_T(unoriented_44) { unoriented<double, 1>(4, 4); }
VP_REAL(unoriented_d2) { unoriented<double, 2>(2, 2); }
VP_REAL_T(unoriented_32) { unoriented<double, 2>(3, 3); }
// longer polygons; the position of the smallest vertex is chosen, all coordinates are symbolic
static std::vector<V<double, 2>> longer(int n, int at, bool ascending) {
  std::vector<V<double, 2>> v;
  double last = -49;
  for (int i = 0; i < n; ++i) {
    const double x = i == at ? num<double>("x", -100, -50) : num<double>("x", -49, 100);
    if (ascending && i != at) { vp_assume(x > last); last = x; }
    v.push_back(V<double, 2>(x, num<double>("y")));
  }
  return v;
}
VP_REAL(long_normal_form) {
  const int n = 7, at = vp_choose("smallest", n);
  const auto v = longer(n, at, true);
  const P<double, 2> p(v), c(p), f{v[0], v[1], v[2], v[3], v[4], v[5], v[6]};
  const P<double, 2> q = p.invert(), t = p.translate(V<double, 2>(2.0, -3.0)), g{P<float, 2>(p)};
  const auto d = p.center();
  vm::mat<double, 3, 3> m;
  m.v[0].v[0] = 2.0; m.v[1].v[1] = 3.0; m.v[2].v[0] = 5.0; m.v[2].v[1] = -4.0; m.v[2].v[2] = 1.0;
  const P<double, 2> s = p.transform(m);
  const bool size = p.vertexCount() == 7 && c.vertexCount() == 7 && f.vertexCount() == 7 && q.vertexCount() == 7 && t.vertexCount() == 7 && s.vertexCount() == 7 && g.vertexCount() == 7;
  vp_check(size, "the number of vertices is kept");
  if (!size) return;
  double sx = 0, sy = 0;
  for (int i = 0; i < n; ++i) {
    const auto& e = v[(at + i) % n];
    sx = sx + e.v[0]; sy = sy + e.v[1];
    eq(p.vertices()[i], e, "the given cyclic order with the smallest vertex first");
    eq(c.vertices()[i], e, "a copy has the same vertices");
    eq(f.vertices()[i], e, "the given cyclic order with the smallest vertex first");
    eq(g.vertices()[i], e, "conversion keeps the vertices");
    eq(q.vertices()[(n - i) % n], e, "inverting reverses the order of the vertices");
    eq(t.vertices()[i], V<double, 2>(e.v[0] + 2.0, e.v[1] - 3.0), "translation moves every vertex");
    eq(s.vertices()[i], V<double, 2>(2.0 * e.v[0] + 5.0, 3.0 * e.v[1] - 4.0), "transformation moves every vertex");
    vp_check(p.hasVertex(e), "a polygon has its vertices");
  }
  eq(d.v[0] * 7.0, sx, "the centre is the average of the vertices");
  eq(d.v[1] * 7.0, sy, "the centre is the average of the vertices");
  int i = 0;
  for (const auto& e : p) { if (i < n) eq(e, p.vertices()[i], "iterating visits the vertices in order"); ++i; }
  vp_check(i == n, "iterating visits every vertex");
  for (auto it = p.rbegin(); it != p.rend(); ++it) { --i; if (i >= 0) eq(*it, p.vertices()[i], "reverse iteration visits the vertices backwards"); }
  vp_check(i == 0, "reverse iteration visits every vertex");
  const V<double, 2> o(num<double>("ox", 101, 200), 0.0);
  vp_check(!p.hasVertex(o), "a polygon has no other vertices");
}
// two polygons that agree except in one vertex, forwards or backwards
VP_REAL(long_order) {
  const int n = 6, at = vp_choose("vertex", n), rev = vp_choose("backwards", 2);
  const auto v = longer(n, 0, false);
  for (int i = 1; i < n; ++i) for (int j = 1; j < i; ++j) vp_assume(v[i].v[0] < v[j].v[0]);
  auto w = v;
  if (rev) for (int i = 1; i < n; ++i) w[i] = v[n - i];
  const double x = at == 0 ? num<double>("other", -100, -50) : num<double>("other", -49, 100);
  w[at].v[0] = x;
  const P<double, 2> a(v), b(w);
  const int e = lex(a, b), c = vm::compareUnoriented(a, b);
  vp_check(sgn(vm::compare(a, b)) == e && (a == b) == (e == 0) && (a < b) == (e < 0) && (a >= b) == (e >= 0), "polygons are compared vertex by vertex");
  const bool same_ = x == v[rev ? (n - at) % n : at].v[0];
  vp_check((c == 0) == same_, "polygons are equal up to orientation iff they have the same vertices in the same or the reverse order");
  if (c != 0) vp_check(sgn(c) == e, "different polygons are compared vertex by vertex");
}
