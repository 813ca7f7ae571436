// Points in polygons, rays hitting triangles and polygons (intersection.h)
// BOUND: real arithmetic; triangles with one edge of fixed shape and the third vertex anywhere in [-10^5, 10^5] (thorough: arbitrary triangles) and arbitrary points (either orientation, all three projection axes), and ten fixed polygons (convex and concave, 3 to 7 and 12 vertices) with arbitrary points in [-120000, 120000]; points within 0.0015 of the boundary are only required to be contained when they belong to the polygon
// BOUND: rays: hit points given by their coordinates in the plane of the triangle or polygon and arbitrary distances in [-10^6, 10^6]; triangles: six shapes, eight directions, arbitrary positions and scalings; polygons: four planes, two to four directions each; rays within 0.001 of the boundary, of the plane or of parallel to it excluded where stated
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/plane.h>
#include <vecmath/ray.h>
#include <vecmath/util.h>
#include <vecmath/intersection.h>
#include <cmath>
#include <vector>
using namespace vp;
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T> static T dot_(const V3<T>& a, const V3<T>& b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
template <typename T> static V3<T> cross_(const V3<T>& a, const V3<T>& b) {
  return V3<T>(a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]);
}
// a point of the plane orthogonal to the given axis; z: its coordinate along the axis
template <typename T> static V3<T> lift(int axis, T x, T y, T z) {
  return axis == 0 ? V3<T>(z, x, y) : axis == 1 ? V3<T>(y, z, x) : V3<T>(x, y, z);
}
static vm::axis::type ax(int k) { return vm::axis::type(k); }

// convex polygons with symbolic vertices: a triangle is the set of points on the inner side of its three edges
template <typename T> static void triangle(int axis, bool ccw, int n0, int n1) {
  T x[3], y[3];
  for (int i = 0; i < 3; ++i) { x[i] = num<T>("x", T(-10), T(10)); y[i] = num<T>("y", T(-10), T(10)); }
  if (n0 != n1) { vp_assume(x[1] - x[0] == T(n0) && y[1] - y[0] == T(n1)); x[1] = x[0] + T(n0); y[1] = y[0] + T(n1); }
  T c[3], m[3];
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3;
    const T ex = x[j] - x[i], ey = y[j] - y[i];
    c[i] = ccw ? ex * -y[i] - ey * -x[i] : -(ex * -y[i] - ey * -x[i]);
    m[i] = T(0.0015) * (abs_(ex) + abs_(ey));
  }
  const T area = (x[1] - x[0]) * (y[2] - y[0]) - (y[1] - y[0]) * (x[2] - x[0]);
  vp_assume((ccw ? area : -area) > T(0.01));
  const T px = num<T>("px", T(-10), T(10)), py = num<T>("py", T(-10), T(10)), pz = num<T>("pz", T(-10), T(10));
  std::vector<V3<T>> v;
  for (int i = 0; i < 3; ++i) v.push_back(lift<T>(axis, px + x[i], py + y[i], pz));
  const int k = vp_choose("region", 4);
  if (k == 3) {
    for (int i = 0; i < 3; ++i) vp_assume(c[i] >= T(0));
    if (vp_is_replay()) { for (int i = 0; i < 3; ++i) vp_assume(c[i] > m[i] * T(0.1)); }
    vp_check(vm::polygon_contains_point(lift<T>(axis, px, py, pz), ax(axis), v.begin(), v.end()), "a polygon contains the points on the inner side of its edges");
  } else {
    vp_assume(c[k] < -m[k]);
    if (vp_is_replay()) vp_assume(c[k] < -m[k] * T(1.1));
    vp_check(!vm::polygon_contains_point(lift<T>(axis, px, py, pz), ax(axis), v.begin(), v.end()), "a polygon does not contain the points on the outer side of its edges");
  }
}
VP_REAL(triangle_z) { triangle<double>(2, true, 4, 1); }
VP_REAL(triangle_x) { triangle<double>(0, false, -2, 3); }
VP_REAL(triangle_y) { triangle<float>(1, true, 3, 0); }
VP_REAL_T(triangle_any_z) { triangle<double>(2, true, 0, 0); }
VP_REAL_T(triangle_any_x) { triangle<double>(0, false, 0, 0); }

struct Poly { int n; int v[12][2]; };
// 0-5 convex (either orientation), 6-9 concave
static const Poly polys[10] = {
  {4, {{-4, -4}, {4, -4}, {4, 4}, {-4, 4}}}, {4, {{4, 0}, {0, 3}, {-4, 0}, {0, -3}}}, {4, {{-4, -4}, {-4, 4}, {4, 4}, {4, -4}}},
  {5, {{3, 0}, {1, 3}, {-3, 2}, {-3, -2}, {1, -3}}}, {3, {{-4, 0}, {4, 0}, {1, 6}}}, {6, {{4, 0}, {2, 4}, {-2, 4}, {-4, 0}, {-2, -4}, {2, -4}}},
  {6, {{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 6}, {0, 6}}}, {4, {{0, 0}, {4, -4}, {0, 6}, {-4, -4}}}, {7, {{-6, -4}, {6, -4}, {6, 4}, {2, 4}, {0, 0}, {-2, 4}, {-6, 4}}},
  {12, {{0, 0}, {10, 0}, {10, 6}, {8, 6}, {8, 2}, {6, 2}, {6, 6}, {4, 6}, {4, 2}, {2, 2}, {2, 6}, {0, 6}}}};
// sign of the point relative to the directed edge i, and the margin within which a point counts as close to it
template <typename T> static T side(const Poly& p, int i, T x, T y) {
  const int j = (i + 1) % p.n;
  return T(p.v[j][0] - p.v[i][0]) * (y - T(p.v[i][1])) - T(p.v[j][1] - p.v[i][1]) * (x - T(p.v[i][0]));
}
template <typename T> static T tol(const Poly& p, int i) {
  const int j = (i + 1) % p.n;
  return T(0.0015) * (abs_(T(p.v[j][0] - p.v[i][0])) + abs_(T(p.v[j][1] - p.v[i][1])));
}
// is the point in the polygon widened by f times the margin?
template <typename T> static bool in(int k, T x, T y, T f) {
  const Poly& p = polys[k];
  if (k < 6) {
    const bool cw = k == 2;
    bool r = true;
    for (int i = 0; i < p.n; ++i) { const T s = side(p, i, x, y); r = r & ((cw ? -s : s) >= -f * tol<T>(p, i)); }
    return r;
  }
  const T e = f * T(0.003);
  if (k == 6) return ((x >= -e) & (x <= 6 + e) & (y >= -e) & (y <= 2 + e)) | ((x >= -e) & (x <= 2 + e) & (y >= -e) & (y <= 6 + e));
  if (k == 7) return ((side(p, 1, x, y) >= -e * 14) & (x >= -e) & (side(p, 0, x, y) >= -e * 8)) | ((side(p, 2, x, y) >= -e * 14) & (x <= e) & (side(p, 3, x, y) >= -e * 8));
  if (k == 9) return (y >= -e) & (((x >= -e) & (x <= 10 + e) & (y <= 2 + e)) | ((y <= 6 + e) & (((x >= -e) & (x <= 2 + e)) | ((x >= 4 - e) & (x <= 6 + e)) | ((x >= 8 - e) & (x <= 10 + e)))));
  return (x >= -6 - e) & (x <= 6 + e) & (y >= -4 - e) & (y <= 4 + e) & ((side(p, 3, x, y) >= -e * 6) | (side(p, 4, x, y) >= -e * 6));
}
template <typename T> static void points(int k, int axis) {
  const T x = num<T>("x", T(-12), T(12)), y = num<T>("y", T(-12), T(12)), z = T(2);
  std::vector<V3<T>> v;
  for (int i = 0; i < polys[k].n; ++i) v.push_back(lift<T>(axis, T(polys[k].v[i][0]), T(polys[k].v[i][1]), z));
  const V3<T> p = lift<T>(axis, x, y, z);
  const bool a = vm::polygon_contains_point(p, ax(axis), v.begin(), v.end());
  if (vp_is_replay()) vp_assume(in<T>(k, x, y, T(-0.1)) == in<T>(k, x, y, T(0)) && in<T>(k, x, y, T(1)) == in<T>(k, x, y, T(1.1)));
  if (!a) vp_check(!in<T>(k, x, y, T(0)), "a polygon contains its points");
  else vp_check(in<T>(k, x, y, T(1)), "a polygon contains no other points");
}
#define PT(K) VP_REAL(points_##K) { points<double>(K, K % 3); }
PT(0) PT(1) PT(2) PT(3) PT(4) PT(5) PT(6) PT(7) PT(8) PT(9)
VP_REAL(points_f) { points<float>(1, 1); }
// the overloads that are given a normal or derive it from the vertices agree with the one that is given the axis
struct E { int n; V3<double> p; };
VP_REAL(overloads) {
  const int axis = vp_choose("axis", 3), k = 4;
  const double x = num<double>("x", -12, 12), y = num<double>("y", -12, 12);
  std::vector<V3<double>> v;
  std::vector<E> g;
  for (int i = 0; i < polys[k].n; ++i) {
    // tilted against the plane orthogonal to the axis
    v.push_back(lift<double>(axis, polys[k].v[i][0], polys[k].v[i][1], 1 + polys[k].v[i][0] * 0.25));
    g.push_back(E{i, v.back()});
  }
  const V3<double> p = lift<double>(axis, x, y, 1 + x * 0.25);
  const bool a = vm::polygon_contains_point(p, ax(axis), v.begin(), v.end());
  const auto get = [](const E& e) { return e.p; };
  vp_check(vm::polygon_contains_point(p, lift<double>(axis, -0.25, 0, axis == 1 ? 1 : -1), v.begin(), v.end()) == a, "the normal selects the projection");
  vp_check(vm::polygon_contains_point(p, v.begin(), v.end()) == a, "the vertices select the projection");
  vp_check(vm::polygon_contains_point(p, ax(axis), g.begin(), g.end(), get) == a, "the given function is applied to every vertex");
  vp_check(vm::polygon_contains_point(p, g.begin(), g.end(), get) == a, "the given function is applied to every vertex");
}

template <typename T> static V3<T> dir(int k) {
  static const T D[8][3] = {{0, 0, -1}, {1, 0, 0}, {2, -1, -2}, {0, 1, 0}, {-3, 4, 0}, {0, 3, -4}, {-2, 1, 2}, {1, 2, 2}};
  const T l = k < 2 || k == 3 ? T(1) : k == 4 || k == 5 ? T(5) : T(3);
  return V3<T>(D[k][0] / l, D[k][1] / l, D[k][2] / l);
}
template <typename T> static void ray_triangle() {
  static const T E[6][6] = {{4, 0, 0, 0, 4, 0}, {0, 2, 0, 0, 0, 3}, {3, 1, 0, -1, 2, 2}, {1, 2, -2, 2, 1, 2}, {0, 4, 1, -3, 0, 0}, {0, 0, 5, 2, 2, 0}};
  const int k = vp_choose("shape", 6);
  const T s = num<T>("scale", T(0.25), T(4)), u = num<T>("scale", T(0.25), T(4));
  const V3<T> e = s * V3<T>(E[k][0], E[k][1], E[k][2]), f = u * V3<T>(E[k][3], E[k][4], E[k][5]);
  const V3<T> d = dir<T>(vp_choose("direction", 8)), p = numvec<T, 3>("p", T(-10), T(10));
  const T t = num<T>("t"), a = num<T>("a", T(-4), T(4)), b = num<T>("b", T(-4), T(4));
  const V3<T> o = p + a * e + b * f - t * d;
  const T det = dot_(cross_(d, f), e);
  const T r = vm::intersect_ray_triangle(vm::ray<T, 3>(o, d), p, p + e, p + f);
  const bool hit = t >= T(0) && a >= T(0) && b >= T(0) && a + b <= T(1);
  if (vp_is_replay()) vp_assume((abs_(det) > T(0.01) || det == T(0)) && abs_(t) > T(0.01) && abs_(a) > T(0.01) && abs_(b) > T(0.01) && abs_(a + b - T(1)) > T(0.01));
  if (det <= T(0.001) && det >= T(-0.001)) vp_check(nan(r), "a ray parallel to a triangle does not hit it");
  else if (hit) { vp_check(!nan(r), "a ray through a triangle hits it"); eq(r, t, "the distance of the point of intersection"); }
  else vp_check(nan(r), "a ray beside or behind a triangle does not hit it");
}
VP_REAL(ray_triangle_d) { ray_triangle<double>(); }
VP_REAL(ray_triangle_f) { ray_triangle<float>(); }
// rays hitting the plane of a polygon: in the plane orthogonal to an axis and in oblique planes
template <typename T> static void ray_polygon(int k, int g, int nd) {
  static const T B[4][6] = {{1, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 1}, {0, 0, 2, 2, 0, 0}, {2, -1, 2, 2, 2, -1}};
    const V3<T> e(B[k][0], B[k][1], B[k][2]), f(B[k][3], B[k][4], B[k][5]);
  const V3<T> p(T(1), T(-2), T(3)), d = dir<T>((vp_choose("direction", nd) * (8 / nd) + k) % 8);
  const T t = num<T>("t"), x = num<T>("x", T(-8), T(8)), y = num<T>("y", T(-8), T(8));
  std::vector<V3<T>> v;
  for (int i = 0; i < polys[g].n; ++i) v.push_back(p + T(polys[g].v[i][0]) * e + T(polys[g].v[i][1]) * f);
  const V3<T> o = p + x * e + y * f - t * d;
  const V3<T> n = cross_(e, f);
  const V3<T> un = n / std::sqrt(dot_(n, n));
  const vm::ray<T, 3> r(o, d);
  const T a = vm::intersect_ray_polygon(r, vm::plane<T, 3>(p, un), v.begin(), v.end());
  const T b = vm::intersect_ray_polygon(r, v.begin(), v.end());
  const T c = dot_(d, n);
  if (vp_is_replay()) vp_assume(in<T>(g, x, y, T(-4)) == in<T>(g, x, y, T(8)) && abs_(t) > T(0.01));
  if (c == T(0)) { vp_check(nan(a) && nan(b), "a ray parallel to a polygon does not hit it"); return; }
  const bool near = in<T>(g, x, y, T(1)) & (t >= T(-0.001)), in0 = in<T>(g, x, y, T(0)) & (t >= T(0));
  if (nan(a)) vp_check(!in0, "a ray through a polygon hits it");
  else { vp_check(near, "a ray beside or behind a polygon does not hit it"); eq(a, t, "the distance of the point of intersection"); }
  if (nan(b)) vp_check(!in0, "a ray through a polygon hits it (plane derived from the vertices)");
  else { vp_check(near, "a ray beside or behind a polygon does not hit it (plane derived from the vertices)"); eq(b, t, "the distance of the point of intersection"); }
}
VP_REAL(ray_polygon_z) { ray_polygon<double>(0, 1, 2); }
VP_REAL(ray_polygon_x) { ray_polygon<double>(1, 4, 4); }
VP_REAL(ray_polygon_y) { ray_polygon<float>(2, 4, 2); }
VP_REAL(ray_polygon_o) { ray_polygon<double>(3, 4, 2); }
VP_REAL_T(ray_polygon_c) { ray_polygon<double>(vp_choose("basis", 4), 7, 8); }
VP_REAL(degenerate) {
  std::vector<V3<double>> v;
  const auto a = numvec<double, 3>("a"), d = numvec<double, 3>("d");
  const int n = vp_choose("n", 4);
  if (vp_is_replay()) return;
  for (int i = 0; i < n; ++i) v.push_back(a + double(i * i) * d);
  vp_check(nan(vm::intersect_ray_polygon(vm::ray<double, 3>(numvec<double, 3>("o"), V3<double>(0, 0, 1)), v.begin(), v.end())), "there is no intersection with a polygon without a plane");
}
