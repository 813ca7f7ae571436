// Convex hulls (convex_hull.h)
// BOUND: real arithmetic; three to five fixed points (five configurations, in four planes) and one further point anywhere in that plane with coordinates in [-10^5, 10^5], at various positions of the list (thorough: two further points, all planes and positions); seven fixed points and one further; colinear points: up to four on a line
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/convex_hull.h>
#include <vector>
using namespace vp;
template <typename T> using V3 = vm::vec<T, 3>;
// the point of plane k with the given coordinates
template <typename T> static V3<T> plane(int k, T x, T y) {
  return k == 0 ? V3<T>(x, y, T(1)) : k == 1 ? V3<T>(T(-2), x, y) : k == 2 ? V3<T>(y, T(3), x) : V3<T>(x, y, T(2) * y - x);
}
template <typename T> static T turn(const T* a, const T* b, const T* c) {
  return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]);
}
template <typename T> static bool same(const V3<T>& a, const V3<T>& b) { return (a.v[0] == b.v[0]) & (a.v[1] == b.v[1]) & (a.v[2] == b.v[2]); }
// h: hull, as positions in p; checks that it is a convex polygon around all points of p
template <typename T> static void is_hull(int k, int n, T (*p)[2], const std::vector<V3<T>>& h) {
  vp_check(h.size() >= 3, "points that are not colinear have a hull");
  vp_check(h.size() <= std::size_t(n), "a hull has no more vertices than points are given");
  if (h.size() < 3 || h.size() > std::size_t(n)) return;
  const int m = int(h.size());
  T q[12][2];
  for (int i = 0; i < m; ++i) {
    bool any = false;
    for (int j = 0; j < n; ++j) any = any | same(h[i], plane<T>(k, p[j][0], p[j][1]));
    vp_check(any, "every vertex of a hull is one of the points");
    q[i][0] = k == 1 ? h[i].v[1] : k == 2 ? h[i].v[2] : h[i].v[0];
    q[i][1] = k == 1 ? h[i].v[2] : k == 2 ? h[i].v[0] : h[i].v[1];
    for (int j = 0; j < i; ++j) vp_check(!same(h[i], h[j]), "no vertex is repeated");
  }
  // the sense of rotation is that of the first corner that is not straight; a convex polygon turns the same way everywhere
  bool pos = true, neg = true;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) {
      const T s = turn<T>(q[i], q[(i + 1) % m], p[j]);
      pos = pos & (s >= T(0)); neg = neg & (s <= T(0));
    }
  vp_check(pos | neg, "all points lie on the inner side of every edge");
  T area = T(0);
  for (int i = 0; i < m; ++i) area = area + (q[i][0] * q[(i + 1) % m][1] - q[(i + 1) % m][0] * q[i][1]);
  vp_check(area != T(0), "a hull has an area");
}
template <typename T> static void hull(int k, int extra, int order) {
  T p[6][2];
  const T f[3][2] = {{T(-2), T(-1)}, {T(3), T(0)}, {T(1), T(4)}};
  const int n = 3 + extra;
  std::vector<V3<T>> v;
  for (int i = 0; i < n; ++i) {
    const int j = order == 0 ? i : order == 1 ? n - 1 - i : (i + 1) % n;
    if (j < 3) { p[i][0] = f[j][0]; p[i][1] = f[j][1]; } else { p[i][0] = num<T>("x", T(-10), T(10)); p[i][1] = num<T>("y", T(-10), T(10)); }
    v.push_back(plane<T>(k, p[i][0], p[i][1]));
  }
  is_hull<T>(k, n, p, vm::convex_hull(v));
}
VP_REAL(hull3) { hull<double>(vp_choose("plane", 4), 0, vp_choose("order", 3)); }
VP_REAL(hull4) { const int k = vp_choose("plane", 4); hull<double>(k, 1, k % 3); }
VP_REAL(hull4_f) { hull<float>(2, 1, 1); }
VP_REAL_T(hull4_all) { hull<double>(vp_choose("plane", 4), 1, vp_choose("order", 3)); }
VP_REAL_T(hull5_z) { hull<double>(0, 2, 0); }
VP_REAL_T(hull5_o) { hull<double>(3, 2, 1); }
// five or six points, one of them symbolic, given at any position of the list
template <typename T> static void more(int c, int k, int at) {
  static const T F[4][5][2] = {{{-2, -2}, {2, -2}, {2, 2}, {-2, 2}}, {{0, 0}, {-3, -1}, {4, -1}, {1, 5}}, {{0, 4}, {3, 0}, {6, -4}, {0, -4}},
    {{4, 0}, {1, 4}, {-4, 2}, {-3, -3}, {2, -3}}};
  const int n = c == 3 ? 6 : 5;
  T p[6][2];
  std::vector<V3<T>> v;
  for (int i = 0, j = 0; i < n; ++i) {
    if (i == at) { p[i][0] = num<T>("x", T(-10), T(10)); p[i][1] = num<T>("y", T(-10), T(10)); }
    else { p[i][0] = F[c][j][0]; p[i][1] = F[c][j][1]; ++j; }
    v.push_back(plane<T>(k, p[i][0], p[i][1]));
  }
  is_hull<T>(k, n, p, vm::convex_hull(v));
}
VP_REAL(square) { more<double>(0, 3, 4); }
VP_REAL(inner) { more<double>(1, 0, 2); }
VP_REAL(straight) { more<double>(2, 1, 0); }
VP_REAL(pentagon) { more<double>(3, 2, 3); }
VP_REAL_T(more_all) { more<double>(vp_choose("points", 4), vp_choose("plane", 4), vp_choose("at", 3)); }
VP_REAL_T(hull5_x) { hull<double>(1, 2, vp_choose("order", 3)); }
// repeated points
VP_REAL(repeated) {
  double p[6][2];
  const double f[3][2] = {{-2, -1}, {3, 0}, {1, 4}};
  std::vector<V3<double>> v;
  const int k = vp_choose("plane", 4), which = vp_choose("which", 3), n = 5;
  for (int i = 0; i < n; ++i) {
    const int j = i < 2 ? which : i - 2;
    p[i][0] = f[j][0]; p[i][1] = f[j][1];
    v.push_back(plane<double>(k, p[i][0], p[i][1]));
  }
  is_hull<double>(k, n, p, vm::convex_hull(v));
}
VP_REAL(colinear) {
  const int n = vp_choose("n", 5), k = vp_choose("plane", 4);
  const double x = num<double>("x", -10, 10), y = num<double>("y", -10, 10), dx = num<double>("dx", -10, 10), dy = num<double>("dy", -10, 10);
  std::vector<V3<double>> v;
  for (int i = 0; i < n; ++i) { const double t = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? -1 : 3; v.push_back(plane<double>(k, x + t * dx, y + t * dy)); }
  if (vp_is_replay()) vp_assume(dx * 8 == vm::round(dx * 8) && dy * 8 == vm::round(dy * 8) && x == vm::round(x) && y == vm::round(y));
  vp_check(vm::convex_hull(v).empty(), "colinear points have no hull");
}
VP_REAL(few) {
  const int n = vp_choose("n", 3);
  std::vector<V3<double>> v;
  for (int i = 0; i < n; ++i) v.push_back(numvec<double, 3>("p"));
  vp_check(vm::convex_hull(v).empty(), "fewer than three points have no hull");
}
// many points
static void many(int n, int at, int k) {
  static const double F[11][2] = {{5, 0}, {-4, -3}, {4, 3}, {0, 5}, {-3, 4}, {0, 0}, {3, -4}, {-5, 0}, {0, -5}, {1, 1}, {5, 0}};
  double p[12][2];
  std::vector<V3<double>> v;
  for (int i = 0, j = 0; i < n; ++i) {
    if (i == at) { p[i][0] = num<double>("x", -10, 10); p[i][1] = num<double>("y", -10, 10); }
    else { p[i][0] = F[j][0]; p[i][1] = F[j][1]; ++j; }
    v.push_back(plane<double>(k, p[i][0], p[i][1]));
  }
  is_hull<double>(k, n, p, vm::convex_hull(v));
}
VP_REAL_T(many7) { many(7, 2, 3); }
VP_REAL(many8) { many(8, 8 - 1, 2); }
VP_REAL_T(many9) { many(9, 3, 1); }
VP_REAL_T(many12) { many(12, 5, 0); }
