// Construction of transformation matrices (mat_ext.h, mat.h)
// BOUND: real arithmetic; parameters in [-10^6, 10^6] unless stated; three dimensions (translation, scaling, stripping: 1 to 3)
// BOUND: coordinate systems and point transformations: triangular bases in three axis orders; lists and arrays of up to 3, and of 7 to 11, points
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/bbox.h>
#include <cmath>
#include <array>
#include <vector>
using namespace vp;
template <typename T> using V3 = vm::vec<T, 3>;
template <typename T> using M4 = vm::mat<T, 4, 4>;
template <typename T> static T abs_(T v) { return v < T(0) ? -v : v; }
template <typename T> static T dot_(const V3<T>& a, const V3<T>& b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
template <typename T> static V3<T> cross_(const V3<T>& a, const V3<T>& b) {
  return V3<T>(a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]);
}
// the defining formula of applying an affine transformation
template <typename T, std::size_t S> static vm::vec<T, S> app(const vm::mat<T, S + 1, S + 1>& m, const vm::vec<T, S>& p) {
  vm::vec<T, S> r;
  for (std::size_t i = 0; i < S; ++i) {
    T s = m.v[S].v[i];
    for (std::size_t j = 0; j < S; ++j) s = s + m.v[j].v[i] * p.v[j];
    r.v[i] = s;
  }
  return r;
}
template <typename T, std::size_t S> static void affine(const vm::mat<T, S, S>& m) {
  for (std::size_t j = 0; j < S; ++j) eq(m.v[j].v[S - 1], j + 1 == S ? T(1) : T(0), "the transformation is affine");
}

template <typename T, std::size_t S> static void basic() {
  const auto d = numvec<T, S>("delta"), p = numvec<T, S>("p");
  const auto t = vm::translation_matrix(d);
  affine(t);
  eq(app(t, p), p + d, "translation adds the offset");
  const auto s = vm::scaling_matrix(d);
  affine(s);
  eq(app(s, p), p * d, "scaling multiplies the coordinates");
  const auto m = nummat<T, S + 1, S + 1>("m");
  const auto mt = vm::translation_matrix(m), ms = vm::strip_translation(m);
  for (std::size_t i = 0; i <= S; ++i) for (std::size_t j = 0; j <= S; ++j) {
    eq(mt.v[j].v[i], j == S && i < S ? m.v[j].v[i] : (i == j ? T(1) : T(0)), "the translation part of a matrix");
    eq(ms.v[j].v[i], j == S && i < S ? T(0) : m.v[j].v[i], "stripping the translation keeps everything else");
  }
}
VP_REAL(basic_d1) { basic<double, 1>(); }
VP_REAL(basic_d2) { basic<double, 2>(); }
VP_REAL(basic_d3) { basic<double, 3>(); }
VP_REAL(basic_f3) { basic<float, 3>(); }

template <typename T> static void mirror() {
  const int k = vp_choose("axis", 3);
  const auto p = numvec<T, 3>("p");
  const auto m = vm::mirror_matrix<T>(std::size_t(k));
  const auto c = k == 0 ? M4<T>::mirror_x() : k == 1 ? M4<T>::mirror_y() : M4<T>::mirror_z();
  const auto z = k == 0 ? M4<T>::template zero_out<0>() : k == 1 ? M4<T>::template zero_out<1>() : M4<T>::template zero_out<2>();
  affine(m); affine(c); affine(z);
  const auto q = app(m, p), r = app(c, p), s = app(z, p);
  for (int i = 0; i < 3; ++i) {
    eq(q.v[i], i == k ? -p.v[i] : p.v[i], "mirroring negates one coordinate");
    eq(r.v[i], i == k ? -p.v[i] : p.v[i], "mirroring negates one coordinate");
    eq(s.v[i], i == k ? T(0) : p.v[i], "zeroing out drops one coordinate");
  }
}
VP_REAL(mirror_d) { mirror<double>(); }
VP_REAL(mirror_f) { mirror<float>(); }

template <typename T> static void shear() {
  T s[6];
  for (int i = 0; i < 6; ++i) s[i] = num<T>("s");
  const auto p = numvec<T, 3>("p");
  const auto m = vm::shear_matrix(s[0], s[1], s[2], s[3], s[4], s[5]);
  affine(m);
  const auto q = app(m, p);
  eq(q.v[0], p.v[0] + s[2] * p.v[1] + s[4] * p.v[2], "shearing, x");
  eq(q.v[1], p.v[1] + s[0] * p.v[0] + s[5] * p.v[2], "shearing, y");
  eq(q.v[2], p.v[2] + s[1] * p.v[0] + s[3] * p.v[1], "shearing, z");
}
VP_REAL(shear_d) { shear<double>(); }
VP_REAL(shear_f) { shear<float>(); }

template <typename T> static vm::bbox<T, 3> box(const char* a, const char* b) {
  const auto lo = numvec<T, 3>(a), hi = numvec<T, 3>(b);
  for (int i = 0; i < 3; ++i) vp_assume(hi.v[i] - lo.v[i] >= T(0.25));
  return vm::bbox<T, 3>(lo, hi);
}
template <typename T> static void scale_bbox() {
  const auto a = box<T>("min", "max"), b = box<T>("newmin", "newmax");
  const auto m = vm::scale_bbox_matrix(a, b);
  affine(m);
  for (int k = 0; k < 8; ++k) {
    V3<T> p, q;
    for (int i = 0; i < 3; ++i) { p.v[i] = (k >> i) & 1 ? a.max.v[i] : a.min.v[i]; q.v[i] = (k >> i) & 1 ? b.max.v[i] : b.min.v[i]; }
    eq(app(m, p), q, "every corner of the old box goes to the corner of the new box");
  }
  const auto size = numvec<T, 3>("size", T(0), T(100)), anchor = numvec<T, 3>("anchor"), p = numvec<T, 3>("p");
  const auto n = vm::scale_bbox_matrix_with_anchor(a, size, anchor);
  affine(n);
  eq(app(n, anchor), anchor, "the anchor stays in place");
  eq(app(n, a.max) - app(n, a.min), size, "the box gets the new size");
  const auto q = app(n, p);
  for (int i = 0; i < 3; ++i) eq((q.v[i] - anchor.v[i]) * (a.max.v[i] - a.min.v[i]), (p.v[i] - anchor.v[i]) * size.v[i], "scaling about the anchor");
}
VP_REAL(scale_bbox_d) { scale_bbox<double>(); }
VP_REAL(scale_bbox_f) { scale_bbox<float>(); }
VP_REAL(shear_bbox) {
  const auto b = box<double>("min", "max");
  const int k = vp_choose("side", 6), axis = k / 2;
  const bool pos = k % 2;
  V3<double> n(0, 0, 0);
  n.v[axis] = pos ? 1.0 : -1.0;
  const auto delta = numvec<double, 3>("delta");
  const auto m = vm::shear_bbox_matrix(b, n, delta);
  affine(m);
  auto p = numvec<double, 3>("p");
  auto d = delta;
  d.v[axis] = 0.0;
  p.v[axis] = pos ? b.max.v[axis] : b.min.v[axis];
  eq(app(m, p), p + d, "points of the sheared side move by the offset, within the plane of that side");
  p.v[axis] = pos ? b.min.v[axis] : b.max.v[axis];
  eq(app(m, p), p, "points of the opposite side stay");
}

template <typename T> static void projections() {
  const T n = num<T>("near", T(0.1), T(10)), f = num<T>("far", T(11), T(1000));
  const T l = num<T>("left"), r = num<T>("right"), t = num<T>("top"), b = num<T>("bottom");
  vp_assume(abs_(r - l) >= T(0.1) && abs_(t - b) >= T(0.1));
  const auto o = vm::ortho_matrix(n, f, l, t, r, b);
  affine(o);
  eq(app(o, V3<T>(l, b, -n)), V3<T>(T(-1), T(-1), T(-1)), "orthographic projection maps the near lower left corner to (-1,-1,-1)");
  eq(app(o, V3<T>(r, t, -f)), V3<T>(T(1), T(1), T(1)), "orthographic projection maps the far upper right corner to (1,1,1)");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) eq(o.v[j].v[i], T(0), "orthographic projection does not mix axes");
}
VP_REAL(ortho_d) { projections<double>(); }
VP_REAL(ortho_f) { projections<float>(); }
template <typename T> static void perspective() {
  const T n = num<T>("near", T(0.1), T(10)), f = num<T>("far", T(11), T(1000));
  const T fov = num<T>("fov", T(10), T(170));
  const int w = 1 + vp_choose("w", 3) * 2, h = 1 + vp_choose("h", 2);
  const T co = T(std::cos(vm::to_radians(fov) / T(2))), si = T(std::sin(vm::to_radians(fov) / T(2)));
  vp_assume(co > T(0) && si > T(0)); // an acute angle
  const auto m = vm::perspective_matrix(fov, n, f, w, h);
  const T v = T(std::tan(vm::to_radians(fov) / T(2))) * T(0.75);
  const T hz = v * T(w) / T(h);
  // clip coordinates of the frustum corners
  for (int far = 0; far < 2; ++far) for (int sx = -1; sx <= 1; ++sx) for (int sy = -1; sy <= 1; ++sy) {
    const T d = far ? f : n;
    const vm::vec<T, 4> p(T(sx) * hz * d, T(sy) * v * d, -d, T(1));
    T c[4];
    for (int i = 0; i < 4; ++i) { c[i] = T(0); for (int j = 0; j < 4; ++j) c[i] = c[i] + m.v[j].v[i] * p.v[j]; }
    eq(c[3], d, "the homogeneous coordinate is the depth");
    eq(c[0], T(sx) * d, "horizontal field of view");
    eq(c[1], T(sy) * d, "vertical field of view");
    eq(c[2], far ? d : -d, "the near and far planes map to -1 and 1");
  }
}
VP_REAL(perspective_d) { perspective<double>(); }
VP_REAL(perspective_f) { perspective<float>(); }
template <typename T> static void view() {
  // for orthonormal direction and up: an isometry which maps direction to -z, up to y
  const auto f = numvec<T, 3>("direction", T(-1), T(1)), u = numvec<T, 3>("up", T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(dot_(f, f) - T(1)) < T(1e-5) && abs_(dot_(u, u) - T(1)) < T(1e-5) && abs_(dot_(f, u)) < T(1e-5));
  else { vp_assume(dot_(f, f) == T(1)); vp_assume(dot_(u, u) == T(1)); vp_assume(dot_(f, u) == T(0)); }
  const auto m = vm::view_matrix(f, u);
  affine(m);
  const auto p = numvec<T, 3>("p");
  const auto q = app(m, p);
  eq(q.v[2], -dot_(f, p), "the view direction becomes the negative z axis");
  eq(q.v[1], dot_(u, p), "the up vector becomes the y axis");
  eq(q.v[0], dot_(cross_(f, u), p), "the right vector becomes the x axis");
}
VP_REAL(view_d) { view<double>(); }
VP_REAL(view_f) { view<float>(); }

// triangular basis in one of three axis orders
template <typename T> static void basis(V3<T> (&v)[3]) {
  const int k = vp_choose("axes", 3);
  for (int i = 0; i < 3; ++i) {
    v[i] = V3<T>(T(0), T(0), T(0));
    for (int j = 0; j <= i; ++j) v[i].v[(j + k) % 3] = i == j ? num<T>("d", T(0.25), T(64)) * (vp_choose("sign", 2) ? T(1) : T(-1)) : num<T>("o", T(-64), T(64));
  }
}
template <typename T> static void coords() {
  V3<T> v[3];
  basis(v);
  const auto o = numvec<T, 3>("o");
  const auto m = vm::coordinate_system_matrix(v[0], v[1], v[2], o);
  affine(m);
  const auto c = numvec<T, 3>("c");
  eq(app(m, o + c.v[0] * v[0] + c.v[1] * v[1] + c.v[2] * v[2]), c, "the coordinates of a point in the given coordinate system");
}
VP_REAL(coords_d) { coords<double>(); }
VP_REAL(coords_f) { coords<float>(); }
VP_REAL(points4) {
  V3<double> v[3];
  basis(v);
  const auto o = numvec<double, 3>("in"), q0 = numvec<double, 3>("out"), q1 = numvec<double, 3>("out"), q2 = numvec<double, 3>("out"), q3 = numvec<double, 3>("out");
  const auto m = vm::points_transformation_matrix(o, o + v[0], o + v[1], o + v[2], q0, q1, q2, q3);
  affine(m);
  eq(app(m, o), q0, "the first point goes to its target");
  eq(app(m, o + v[0]), q1, "the second point goes to its target");
  eq(app(m, o + v[1]), q2, "the third point goes to its target");
  eq(app(m, o + v[2]), q3, "the fourth point goes to its target");
}
VP_REAL(points3) {
  // triangles in axis planes: the normals are kept
  const int a = vp_choose("axis", 3), b = vp_choose("axis2", 3);
  const auto o = numvec<double, 3>("in"), q = numvec<double, 3>("out");
  V3<double> u(0, 0, 0), v(0, 0, 0), u2(0, 0, 0), v2(0, 0, 0);
  const double s = num<double>("s", 0.25, 64), t = num<double>("t", 0.25, 64), x = num<double>("x", 0.25, 64), y = num<double>("y", 0.25, 64), z = num<double>("z", -64, 64);
  u.v[(a + 1) % 3] = s; v.v[(a + 2) % 3] = t;
  u2.v[(b + 1) % 3] = x; v2.v[(b + 2) % 3] = y; v2.v[(b + 1) % 3] = z;
  const auto m = vm::points_transformation_matrix(o, o + u, o + v, q, q + u2, q + v2);
  affine(m);
  eq(app(m, o), q, "the first point goes to its target");
  eq(app(m, o + u), q + u2, "the second point goes to its target");
  eq(app(m, o + v), q + v2, "the third point goes to its target");
  auto n = o, n2 = q;
  n.v[a] = n.v[a] + 1.0; n2.v[b] = n2.v[b] + 1.0;
  eq(app(m, n), n2, "the unit normal goes to the unit normal");
}
// colinear input points have no transformation
VP_REAL(points_degenerate) {
  const auto o = numvec<double, 3>("in"), q0 = numvec<double, 3>("out"), q1 = numvec<double, 3>("out"), q2 = numvec<double, 3>("out"), q3 = numvec<double, 3>("out");
  V3<double> u(0, 0, 0), v(0, 0, 0);
  const int a = vp_choose("axis", 3);
  u.v[a] = num<double>("s", 0.25, 64);
  v.v[(a + 1) % 3] = num<double>("t", 0.25, 64); v.v[a] = num<double>("x", -64, 64);
  const auto m = vm::points_transformation_matrix(o, o + u, o + v, o + u, q0, q1, q2, q3);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vp_check(nan(m.v[j].v[i]), "there is no transformation for degenerate points");
}

template <typename T> static void plane_projection(bool oblique) {
  // unit normal in a coordinate plane
  const int k = vp_choose("plane", 3);
  const T c = num<T>("c", T(-1), T(1)), s = num<T>("s", T(-1), T(1));
  if (vp_is_replay()) vp_assume(abs_(c * c + s * s - T(1)) < T(1e-6)); else vp_assume(c * c + s * s == T(1));
  V3<T> n(T(0), T(0), T(0));
  n.v[k] = c; n.v[(k + 1) % 3] = s;
  const T d = num<T>("distance");
  V3<T> dir = n;
  if (oblique) {
    // a unit direction that is not parallel to the plane
    const int ax = vp_choose("direction", 3);
    dir = V3<T>(T(0), T(0), T(0));
    dir.v[ax] = T(1);
    const T dn = dot_(dir, n);
    vp_assume(dn >= T(0.1) || dn <= T(-0.1));
  }
  const auto m = oblique ? vm::plane_projection_matrix(d, n, dir) : vm::plane_projection_matrix(d, n);
  affine(m);
  const auto p = numvec<T, 3>("p");
  const T t = num<T>("t");
  const auto q = app(m, p), r = app(m, p + t * dir), o = app(m, d * n);
  eq(o, V3<T>(T(0), T(0), T(0)), "the anchor of the plane becomes the origin");
  eq(r.v[0], q.v[0], "moving along the projection direction does not change the projected coordinates");
  eq(r.v[1], q.v[1], "moving along the projection direction does not change the projected coordinates");
  eq(r.v[2], q.v[2] + t, "the third coordinate measures the distance along the projection direction");
  eq(q.v[2] * dot_(dir, n), dot_(p, n) - d, "points of the plane have third coordinate zero");
  // points of the plane keep their distances
  const auto w = cross_(n, V3<T>(p.v[1], p.v[2], p.v[0]));
  const auto e = app(m, d * n + w);
  eq(e.v[0] * e.v[0] + e.v[1] * e.v[1], dot_(w, w), "distances within the plane are kept");
}
VP_REAL(plane_projection_d) { plane_projection<double>(false); }
VP_REAL(plane_projection_oblique_d) { plane_projection<double>(true); }
VP_REAL(plane_projection_f) { plane_projection<float>(false); }

// lists and arrays are transformed element by element
VP_REAL(lists) {
  const auto m = nummat<double, 3, 3>("m", -10, 10);
  std::vector<vm::vec<double, 3>> l;
  const int n = vp_choose("n", 4);
  for (int i = 0; i < n; ++i) l.push_back(numvec<double, 3>("p", -10, 10));
  const auto r = m * l, s = l * m;
  vp_check(r.size() == std::size_t(n) && s.size() == std::size_t(n), "as many results as vectors");
  for (int i = 0; i < n; ++i) { eq(r[i], m * l[i], "matrix times list"); eq(s[i], l[i] * m, "list times matrix"); }
  const std::array<vm::vec<double, 3>, 2> a{{numvec<double, 3>("a", -10, 10), numvec<double, 3>("a", -10, 10)}};
  const auto ra = m * a, sa = a * m;
  for (int i = 0; i < 2; ++i) { eq(ra[i], m * a[i], "matrix times array"); eq(sa[i], a[i] * m, "array times matrix"); }
}
VP_REAL(point_lists) {
  auto m = nummat<double, 4, 4>("m", -10, 10);
  auto w = nummat<double, 4, 4>("w", -10, 10);
  for (int j = 0; j < 4; ++j) { m.v[j].v[3] = j == 3 ? 1.0 : 0.0; w.v[3].v[j] = j == 3 ? 1.0 : 0.0; }
  std::vector<vm::vec<double, 3>> l;
  const int n = vp_choose("n", 3);
  for (int i = 0; i < n; ++i) l.push_back(numvec<double, 3>("p", -10, 10));
  const auto r = m * l, s = l * w;
  vp_check(r.size() == std::size_t(n) && s.size() == std::size_t(n), "as many results as points");
  for (int i = 0; i < n; ++i) { eq(r[i], m * l[i], "matrix times point list"); eq(s[i], l[i] * w, "point list times matrix"); }
  const std::array<vm::vec<double, 3>, 2> a{{numvec<double, 3>("a", -10, 10), numvec<double, 3>("a", -10, 10)}};
  const auto ra = m * a, sa = a * w;
  for (int i = 0; i < 2; ++i) { eq(ra[i], m * a[i], "matrix times point array"); eq(sa[i], a[i] * w, "point array times matrix"); }
}
VP_REAL(long_lists) {
  const auto m = nummat<double, 3, 3>("m", -10, 10);
  std::vector<vm::vec<double, 3>> l;
  std::array<vm::vec<double, 3>, 7> a;
  const std::size_t n = 11;
  for (std::size_t i = 0; i < n; ++i) { l.push_back(numvec<double, 3>("p", -10, 10)); if (i < 7) a[i] = l[i]; }
  const auto r = m * l, s = l * m;
  const auto ra = m * a, sa = a * m;
  vp_check(r.size() == n && s.size() == n, "as many results as vectors");
  if (r.size() != n || s.size() != n) return;
  for (std::size_t i = 0; i < n; ++i) {
    eq(r[i], m * l[i], "matrix times list"); eq(s[i], l[i] * m, "list times matrix");
    if (i < 7) { eq(ra[i], m * a[i], "matrix times array"); eq(sa[i], a[i] * m, "array times matrix"); }
  }
}
VP_REAL(long_point_lists) {
  auto m = nummat<double, 4, 4>("m", -10, 10);
  auto w = nummat<double, 4, 4>("w", -10, 10);
  for (int j = 0; j < 4; ++j) { m.v[j].v[3] = j == 3 ? 1.0 : 0.0; w.v[3].v[j] = j == 3 ? 1.0 : 0.0; }
  std::vector<vm::vec<double, 3>> l;
  std::array<vm::vec<double, 3>, 7> a;
  const std::size_t n = 9;
  for (std::size_t i = 0; i < n; ++i) { l.push_back(numvec<double, 3>("p", -10, 10)); if (i < 7) a[i] = l[i]; }
  const auto r = m * l, s = l * w;
  const auto ra = m * a, sa = a * w;
  vp_check(r.size() == n && s.size() == n, "as many results as points");
  if (r.size() != n || s.size() != n) return;
  for (std::size_t i = 0; i < n; ++i) {
    eq(r[i], m * l[i], "matrix times point list"); eq(s[i], l[i] * w, "point list times matrix");
    if (i < 7) { eq(ra[i], m * a[i], "matrix times point array"); eq(sa[i], a[i] * w, "point array times matrix"); }
  }
}
