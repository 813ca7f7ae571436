From 37751c35fed0416787f45c104d1884c425bc3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:01 +0000
Subject: [PATCH 01/19] fix: trunc of values that do not fit into an int64_t

---
 include/vecmath/scalar.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..8eddd61 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -364,6 +364,14 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
+  if constexpr (std::is_floating_point<T>::value) {
+    // Values of this magnitude have no fractional part, but they don't fit into an int64_t. This
+    // also covers infinity and NaN.
+    constexpr auto limit = static_cast<T>(9223372036854775808.0);
+    if (!(v > -limit && v < limit)) {
+      return v;
+    }
+  }
   return static_cast<T>(static_cast<int64_t>(v));
 }
 
-- 
2.43.0


From 6d4a4dd75be970068a29ec58275d8dd94e9d5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:16 +0000
Subject: [PATCH 02/19] fix: round values just below one half and large odd
 values correctly

---
 include/vecmath/scalar.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 8eddd61..45b5d1c 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -450,7 +450,17 @@ template <typename T> constexpr T fract(const T v) {
  */
 template <typename T> constexpr T round(const T v) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return v > static_cast<T>(0.0) ? floor(v + static_cast<T>(0.5)) : ceil(v - static_cast<T>(0.5));
+  // Adding 0.5 to v before truncating would be subject to rounding itself, but the difference between
+  // v and its integral part is always exact.
+  const auto r = trunc(v);
+  const auto f = v - r;
+  if (f >= static_cast<T>(0.5)) {
+    return r + static_cast<T>(1.0);
+  } else if (f <= static_cast<T>(-0.5)) {
+    return r - static_cast<T>(1.0);
+  } else {
+    return r;
+  }
 }
 
 /**
-- 
2.43.0


From 45fb1b974bcec42f12c4a8a61b54498bc1741351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:22 +0000
Subject: [PATCH 03/19] fix: bounds of an unused bbox builder are the empty box
 at the origin

---
 include/vecmath/bbox.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..3a8c9d7 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -45,15 +45,15 @@ public:
   class builder {
   private:
     bbox m_bounds;
+    bool m_initialized;
 
   public:
     /**
      * Creates a new unitialized instance.
      */
     constexpr builder()
-      : m_bounds(false) {
-      // put the bounds to an invalid state to signal that its unitialized
-    }
+      : m_bounds()
+      , m_initialized(false) {}
 
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
@@ -63,7 +63,7 @@ public:
     /**
      * Returns whether anything has been added to this builder.
      */
-    constexpr bool initialized() const { return m_bounds.is_valid(); }
+    constexpr bool initialized() const { return m_initialized; }
 
     /**
      * Adds the given range of points.
@@ -87,6 +87,7 @@ public:
     constexpr void add(const vec<T, S>& point) {
       if (!initialized()) {
         m_bounds.min = m_bounds.max = point;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, point);
       }
@@ -98,6 +99,7 @@ public:
     constexpr void add(const bbox& box) {
       if (!initialized()) {
         m_bounds = box;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, box);
       }
@@ -181,16 +183,6 @@ public:
     assert(is_valid());
   }
 
-private:
-  /**
-   * This constructor is used by the builder to create an invalid bbox.
-   */
-  constexpr bbox(const bool)
-    : min(vec<T, S>::fill(T(1)))
-    , max(vec<T, S>::fill(T(0))) {
-    assert(!is_valid());
-  }
-
 public:
   /**
    * Creates the smallest bounding box that contains all points in the given range. Optionally
-- 
2.43.0


From 63d869d8c689108d90de24b7c4b42bf3c185a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:13 +0000
Subject: [PATCH 04/19] fix: result type of vector and matrix products for
 non-square matrices

---
 include/vecmath/mat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index c511ec8..8ebd2d7 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -574,8 +574,8 @@ constexpr mat<T, R, C> operator/(const mat<T, R, C>& lhs, const T rhs) {
  * @return the product of the given vector and the given matrix
  */
 template <typename T, std::size_t R, std::size_t C>
-constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
-  vec<T, R> result;
+constexpr vec<T, C> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
+  vec<T, C> result;
   for (size_t c = 0; c < C; c++) {
     result[c] = dot(lhs, rhs[c]);
   }
@@ -594,7 +594,7 @@ constexpr vec<T, R> operator*(const vec<T, R>& lhs, const mat<T, R, C>& rhs) {
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr vec<T, R> operator*(const mat<T, R, C>& lhs, const vec<T, C>& rhs) {
-  vec<T, C> result;
+  vec<T, R> result;
   for (size_t r = 0; r < R; r++) {
     for (size_t c = 0; c < C; ++c) {
       result[r] += lhs[c][r] * rhs[c];
-- 
2.43.0


From 90cd2c390e8bbbc85c9a6254f3eedab7b5201e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:26 +0000
Subject: [PATCH 05/19] fix: transposing and slicing non-square matrices

---
 include/vecmath/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/mat.h b/include/vecmath/mat.h
index 8ebd2d7..1cd1b86 100644
--- a/include/vecmath/mat.h
+++ b/include/vecmath/mat.h
@@ -664,10 +664,10 @@ constexpr mat<T, R, C> set(mat<T, R, C> m, const std::size_t r, const std::size_
  */
 template <typename T, std::size_t R, std::size_t C>
 constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
-  mat<T, C, R> result(m);
+  mat<T, C, R> result;
   for (std::size_t c = 0u; c < C; ++c) {
-    for (std::size_t r = c + 1u; r < R; ++r) {
-      detail::swap(result[c][r], result[r][c]);
+    for (std::size_t r = 0u; r < R; ++r) {
+      result[r][c] = m[c][r];
     }
   }
   return result;
@@ -688,7 +688,7 @@ constexpr mat<T, C, R> transpose(const mat<T, R, C>& m) {
  */
 template <std::size_t RR, std::size_t RC, typename T, std::size_t R, std::size_t C>
 constexpr mat<T, RR, RC> slice(const mat<T, R, C>& m, const size_t r, const size_t c) {
-  static_assert(RR <= R && RC <= R, "slice must not exceed matrix");
+  static_assert(RR <= R && RC <= C, "slice must not exceed matrix");
   assert(r <= R - RR && c <= C - RC);
   mat<T, RR, RC> result;
   for (std::size_t row = 0u; row < RR; ++row) {
-- 
2.43.0


From 2a643bad6a77cd7defb54ab47a11d0471058d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:46 +0000
Subject: [PATCH 06/19] fix: transform plane normals by the inverse transpose

---
 include/vecmath/plane.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..a49a18e 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -179,7 +179,7 @@ public:
    * @return the transformed plane
    */
   plane<T, S> transform(const mat<T, S + 1, S + 1>& transform) const {
-    return plane<T, S>(transform * anchor(), normalize(strip_translation(transform) * normal));
+    return plane<T, S>(transform * anchor(), normalize(transform_normal(transform)));
   }
 
   /**
@@ -190,7 +190,7 @@ public:
    * @return the transformed plane
    */
   constexpr plane<T, S> transform_c(const mat<T, S + 1, S + 1>& transform) const {
-    return plane<T, S>(transform * anchor(), normalize_c(strip_translation(transform) * normal));
+    return plane<T, S>(transform * anchor(), normalize_c(transform_normal(transform)));
   }
 
   /**
@@ -241,6 +241,18 @@ public:
   constexpr vec<T, S> project_vector(const vec<T, S>& vector, const vec<T, S>& direction) const {
     return project_point(anchor() + vector, direction) - anchor();
   }
+
+private:
+  /**
+   * Transforms the normal of this plane such that it remains perpendicular to the transformed plane.
+   * To achieve this, the inverse transpose of the linear part of the given transformation is applied.
+   * The returned vector is not normalized.
+   */
+  constexpr vec<T, S> transform_normal(const mat<T, S + 1, S + 1>& transform) const {
+    const auto linear = strip_translation(transform);
+    const auto inverse = invert(linear);
+    return (std::get<0>(inverse) ? transpose(std::get<1>(inverse)) : linear) * normal;
+  }
 };
 
 /**
-- 
2.43.0


From fad31d38218101fb59b591af93a70049871a656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:50 +0000
Subject: [PATCH 07/19] fix: apply the given function to the elements of the
 range in from_points

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index a49a18e..813159e 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -408,17 +408,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From 1b9127b55391f01ac5981e351d97fc92ba2b5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 08/19] fix: segment::contains measures the distance to the
 segment

---
 include/vecmath/segment.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..0233364 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -119,13 +119,9 @@ public:
    * @return true if the given point is contained in this segment and false otherwise
    */
   bool contains(const vec<T, S>& point, const T maxDistance) const {
-    const auto f = distance_to_projected_point(*this, point);
-    if (f < -maxDistance || f * f > squared_length() + maxDistance * maxDistance) {
-      return false;
-    } else {
-      const auto proj = point_at_distance(*this, f);
-      return squared_distance(proj, point) <= (maxDistance * maxDistance);
-    }
+    const auto f = clamp(distance_to_projected_point(*this, point), T(0), length());
+    const auto proj = point_at_distance(*this, f);
+    return squared_distance(proj, point) <= (maxDistance * maxDistance);
   }
 
   /**
-- 
2.43.0


From 4bd6b88fdcc612d42ec6b9d1d13f70957fb81398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:37 +0000
Subject: [PATCH 09/19] fix: closest points when a ray is clamped at its origin
 and of rays pointing away from each other

---
 include/vecmath/distance.h | 54 +++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..96068ff 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -297,25 +297,14 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     }
   }
 
-  T sN, sD = D;
-  T tN, tD = D;
-
-  sN = (b * e - c * d);
-  tN = (a * e - b * d);
-  if (sN < static_cast<T>(0.0)) {
-    sN = static_cast<T>(0.0);
-    tN = e;
-    tD = c;
-  } else if (sN > sD) {
-    sN = sD;
-    tN = e + b;
-    tD = c;
+  auto sc = clamp((b * e - c * d) / D, static_cast<T>(0.0), static_cast<T>(1.0));
+  auto tc = (e + sc * b) / c;
+  if (tc < static_cast<T>(0.0)) {
+    // the ray origin is the closest point on the ray
+    tc = static_cast<T>(0.0);
+    sc = clamp(-d / a, static_cast<T>(0.0), static_cast<T>(1.0));
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
-
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
   w = w + u;
@@ -361,8 +350,6 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
   const auto d = dot(u, w); // other.direction.dot(origin delta)
   const auto e = dot(v, w); // this.direction.dot(origin delta)
   const auto D = a * c - b * b;
-  auto sD = D;
-  auto tD = D;
 
   if (is_zero(D, constants<T>::almost_zero())) {
     // parallel case
@@ -371,23 +358,24 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     const T perpendicular_dist_squared =
       squared_distance(project_point(lhs, rhs.origin), rhs.origin);
 
-    return line_distance<T>::Parallel(
-      max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
-      max(static_cast<T>(0), lhs_origin_on_rhs));
+    if (rhs_origin_on_lhs >= static_cast<T>(0)) {
+      return line_distance<T>::Parallel(rhs_origin_on_lhs, perpendicular_dist_squared, 0);
+    } else if (lhs_origin_on_rhs >= static_cast<T>(0)) {
+      return line_distance<T>::Parallel(0, perpendicular_dist_squared, lhs_origin_on_rhs);
+    } else {
+      // the rays point away from each other
+      return line_distance<T>::Parallel(0, squared_length(w), 0);
+    }
   }
 
-  auto sN = (b * e - c * d);
-  auto tN = (a * e - b * d);
-  if (sN < static_cast<T>(0.0)) {
-    sN = static_cast<T>(0.0);
-    tN = e;
-    tD = c;
+  auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
+  auto tc = (e + sc * b) / c;
+  if (tc < static_cast<T>(0.0)) {
+    // the origin of the first ray is its closest point
+    tc = static_cast<T>(0.0);
+    sc = max(-d / a, static_cast<T>(0.0));
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
-
   u = u * sc; // vector from the second ray's origin to the closest point on first ray
   v = v * tc; // vector from the first ray's origin to closest point on the first ray
   w = w + u;
@@ -439,7 +427,7 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
   }
 
   const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  const auto tc = (e + sc * b) / c;
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From 4b9ef966fd20f398a0e7a76ccf3cd1b4bfffb8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 10/19] fix: keep the order of the end points when converting
 segments

---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index 0233364..e46c7d3 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 1c5c5822aa0c1e9132b01eb3f0bca696baf173fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:22 +0000
Subject: [PATCH 11/19] fix: rays starting inside a box and running parallel to
 some of its sides

Such a ray was reported to miss the box because the sides it runs parallel to
were considered to be hit at distance -1.
---
 include/vecmath/intersection.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..d8311f5 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -28,6 +28,8 @@
 #include "util.h"
 #include "vec.h"
 
+#include <limits>
+
 namespace vm {
 
 namespace detail {
@@ -370,6 +372,9 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
   for (size_t i = 0; i < S; ++i) {
     if (r.direction[i] != static_cast<T>(0.0)) {
       distances[i] = (origins[i] - r.origin[i]) / r.direction[i];
+    } else if (inside[i]) {
+      // the ray runs between these planes and never leaves through either of them
+      distances[i] = std::numeric_limits<T>::infinity();
     } else {
       distances[i] = static_cast<T>(-1.0);
     }
-- 
2.43.0


From 23f1d19c116d8823bd68986adfa712462fae5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:07 +0000
Subject: [PATCH 12/19] fix: points of polygons at the height of a vertex

A vertex to the right of the given point was counted for both of its edges, or for
none of them, so the center of the diamond (1,0) (0,1) (-1,0) (0,-1) was reported
as outside. Assign vertices at the height of the point to one side, as described in
the comment, and detect points on edges along the X axis explicitly.
---
 include/vecmath/intersection.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index d8311f5..1b9e517 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -39,8 +39,8 @@ namespace detail {
  * @tparam T the component type
  * @param v0 the first segment vertex
  * @param v1 the second segment vertex
- * @return -1 if either segment vertex is identical to the origin, +1 if the segment intersects the
- * positve X axis, and 0 if it does not
+ * @return -1 if the segment contains the origin, +1 if the segment intersects the positve X axis, and
+ * 0 if it does not
  */
 template <typename T>
 constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T, 3>& v1) {
@@ -63,11 +63,15 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    * or zero.
    */
 
-  // Does Y segment covered by the given edge touch the X axis at all?
+  // Does the edge run along the X axis, with its vertices on different sides of the origin?
   if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
+    is_zero(v0.y(), constants<T>::almost_zero()) && is_zero(v1.y(), constants<T>::almost_zero()) &&
+    (v0.x() > T(0.0)) != (v1.x() > T(0.0))) {
+    return -1;
+  }
+
+  // Do the Y coordinates of the vertices have the same sign?
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
     return 0;
   }
 
-- 
2.43.0


From dc6151d183e5039b4b446a056e6a737741f0aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:56 +0000
Subject: [PATCH 13/19] fix: keep the smallest vertex first when converting
 polygons

Rounding can change the order of the vertices, so the smallest vertex was no longer
guaranteed to be the first, and the result was not equal to the polygon created from
the rounded vertices.
---
 include/vecmath/polygon.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..74807f7 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From cb66c2b3b74266986cdedacf05e0f8a18e765540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:56 +0000
Subject: [PATCH 14/19] fix: compareUnoriented ignored the second vertices in
 the forward comparison

Two polygons such as (0 0) (1 0) (2 2) and (0 0) (3 0) (2 2) which differ only in
their second vertices were reported as identical.
---
 include/vecmath/polygon.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 74807f7..988bd7f 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -423,10 +423,9 @@ int compareUnoriented(
         const auto j = count - i;
         const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          // Backward compare failed, so the result is that of the forward compare, which is decided
+          // by the second vertices
+          return cmp1;
         }
         ++i;
       }
-- 
2.43.0


From 20ee740aa773d5de62bd4dcf672f6a2f3d15606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:56 +0000
Subject: [PATCH 15/19] fix: rbegin and rend of polygons iterate backwards

---
 include/vecmath/polygon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 988bd7f..389f885 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -150,18 +150,18 @@ public:
   auto end() const { return std::end(m_vertices); }
 
   /**
-   * Returns an iterator to the beginning of the vertices.
+   * Returns a reverse iterator to the beginning of the reversed vertices.
    *
-   * @return an iterator to the beginning of the vertices
+   * @return a reverse iterator to the beginning of the reversed vertices
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
-   * Returns an iterator to the end of the vertices.
+   * Returns a reverse iterator to the end of the reversed vertices.
    *
-   * @return an iterator to the end of the vertices
+   * @return a reverse iterator to the end of the reversed vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From 937f34627e5bfd5fa7379355c904278741e8b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 16/19] fix: convex hull of points of which the first two
 coincide

Every point is colinear with two coinciding points, so the result was always empty.
Use the first point and the point farthest from it to find a third point that is not
colinear with them.
---
 include/vecmath/convex_hull.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..1c77f63 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,6 +88,7 @@ public:
       return;
     }
 
+    find_second_point();
     const auto thirdPointIndex = find_linearly_independent_point();
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
@@ -111,6 +112,17 @@ public:
   const std::vector<vec<T, 3>>& result() const { return m_points; }
 
 private:
+  void find_second_point() {
+    // the first two points must not coincide, so choose the point farthest from the first one
+    const auto& first = m_points[0];
+    const auto second = std::max_element(
+      std::next(std::begin(m_points)), std::end(m_points),
+      [&](const vec<T, 3>& lhs, const vec<T, 3>& rhs) {
+        return squared_length(lhs - first) < squared_length(rhs - first);
+      });
+    std::iter_swap(std::next(std::begin(m_points)), second);
+  }
+
   std::size_t find_linearly_independent_point() const {
     std::size_t index = 2;
     while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
-- 
2.43.0


From 7bd11eebca1c79f07f4123c9a215e030525e56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:57 +0000
Subject: [PATCH 17/19] fix: parsing vectors and matrices read beyond the end
 of the string view

std::atof expects a null terminated string, so parsing the first three characters of
"1 23" yielded 1 and 23, and views of buffers without a terminator were overrun.
---
 include/vecmath/mat_io.h | 9 +++++++--
 include/vecmath/vec_io.h | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..33bf37c 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -22,8 +22,11 @@
 
 #include "mat.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
+#include <string>
+#include <string_view>
 
 namespace vm {
 /**
@@ -53,8 +56,10 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
         return std::nullopt;
       }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
-      if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+      // the string view is not necessarily null terminated
+      const auto end = str.find_first_of(blank, pos);
+      result[c][r] = static_cast<T>(std::atof(std::string(str.substr(pos, end - pos)).c_str()));
+      if ((pos = end) == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
         }
diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..f196816 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -22,6 +22,7 @@
 
 #include "vec.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
 #include <string>
@@ -38,8 +39,10 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
-    if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+    // the string view is not necessarily null terminated
+    const auto end = str.find_first_of(blank, pos);
+    result[i] = static_cast<T>(std::atof(std::string(str.substr(pos, end - pos)).c_str()));
+    if ((pos = end) == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
       }
-- 
2.43.0


From 5f6179c4f1dfd4378a7ff06bfe2299ef890059ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:57 +0000
Subject: [PATCH 18/19] fix: ordering of vectors and approximate vectors

The relational operators shifted all components by epsilon and then compared exactly,
so (1 5) was neither less than, equal to nor greater than (1 9), because the first
components are only equal up to epsilon. The operator >= did not compile. Compare up
to epsilon instead, which agrees with the equality operator.
---
 include/vecmath/approx.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..14d76c9 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -150,35 +150,35 @@ public:
   }
 
   friend constexpr bool operator<(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs < (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) < 0;
   }
 
   friend constexpr bool operator<(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value < (rhs - vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) < 0;
   }
 
   friend constexpr bool operator<=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs <= (rhs.m_value + vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) <= 0;
   }
 
   friend constexpr bool operator<=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value <= (rhs + vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) <= 0;
   }
 
   friend constexpr bool operator>(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs > (rhs.m_value + vec<T, S>::fill(rhs.m_epsilon));
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) > 0;
   }
 
   friend constexpr bool operator>(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value > (rhs + vec<T, S>::fill(lhs.m_epsilon));
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) > 0;
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return compare(lhs, rhs.m_value, rhs.m_epsilon) >= 0;
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return compare(lhs.m_value, rhs, lhs.m_epsilon) >= 0;
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From 04e77d30319cb81bfe7adafe68e27d029920fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:06 +0000
Subject: [PATCH 19/19] fix: parse_all lost vectors in parentheses that
 directly follow a comma or semicolon

After "1 2," the opening parenthesis of "(3 4)" was skipped together with the first
component in search of a separator.
---
 include/vecmath/vec_io.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index f196816..1a00f65 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -88,7 +88,7 @@ template <typename T, std::size_t S> std::optional<vec<T, S>> parse(const std::s
  * @param out the output iterator add the parsed vectors to
  */
 template <typename T, std::size_t S, typename O> void parse_all(const std::string_view str, O out) {
-  constexpr auto blank = " \t\n\r,;";
+  constexpr auto separator = " \t\n\r,;)";
 
   std::size_t pos = 0;
   while (pos != std::string::npos) {
@@ -96,8 +96,7 @@ template <typename T, std::size_t S, typename O> void parse_all(const std::strin
       out = *result;
       ++out;
     }
-    pos = str.find_first_of(blank, pos);
-    pos = str.find_first_not_of(blank, pos);
+    pos = str.find_first_not_of(separator, pos);
   }
 }
 
-- 
2.43.0

