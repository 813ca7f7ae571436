SEEDS = []
def seed(id, property, inc, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=property, inc=inc, edits=edits, demo=demo, needs=needs, what=what))

seed('b03_safe_max_nan', 'C02', ['scalar'], [('scalar.h', '''  } else if (is_nan(rhs)) {
    return safe_max(lhs, rest...);''', '''  } else if (is_nan(rhs)) {
    return lhs;''')],
 '''  const double n = vm::nan<double>();
  CHECK(vm::safe_max(1.0, n, 3.0) == 3.0);''',
 'a non-number in the middle followed by a larger number', 'the values after the non-number are ignored')
seed('b05_bbox_transform', 'C10', ['bbox', 'mat_ext'], [('bbox.h', '''    for (const auto& vertex : vertices) {
      builder.add(transform * vertex);
    }''', '''    for (std::size_t i = 0; i < vertices.size(); i += 2) {
      builder.add(transform * vertices[i]);
    }''')],
 '''  const vm::bbox<double, 3> b(vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(1, 2, 3));
  auto m = vm::mat<double, 4, 4>::identity(); m[1][0] = -1.0; // x' = x - y
  const auto t = b.transform(m);
  CHECK(near(t.max.x(), 1.0)); CHECK(near(t.min.x(), -2.0));''',
 'a shear or rotation under which only odd-numbered corners are extreme', 'the transformed box is too small')
seed('b07_shear_side', 'C13', ['mat_ext', 'bbox'], [('mat_ext.h', '''    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);''', '''    shearMat = shear_matrix(0., 0., -relativeDelta.x(), relativeDelta.z(), 0., 0.);''')],
 '''  const vm::bbox<double, 3> b(vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(1, 2, 3));
  const auto m = vm::shear_bbox_matrix(b, vm::vec<double, 3>(0, -1, 0), vm::vec<double, 3>(0, 0, 1));
  const auto p = m * vm::vec<double, 3>(1, 0, 1);
  CHECK(near(p.x(), 1)); CHECK(near(p.y(), 0)); CHECK(near(p.z(), 2));''',
 'shearing the negative y side in z direction', 'points move to the wrong side')
seed('b08_plane_status', 'C15', ['plane'], [('plane.h', '''    if (dist > epsilon) {
      return plane_status::above;
    } else if (dist < -epsilon) {''', '''    if (dist > epsilon) {
      return plane_status::above;
    } else if (dist < -constants<T>::point_status_epsilon()) {''')],
 '''  const vm::plane<double, 3> p(0.0, vm::vec<double, 3>(0, 0, 1));
  CHECK(p.point_status(vm::vec<double, 3>(0, 0, -0.5), 1.0) == vm::plane_status::inside);''',
 'a point below the plane within a custom epsilon', 'the status below ignores the given epsilon')
seed('b09_quartic', 'C04', ['scalar'], [('scalar.h', '''    const auto solutions2_2 = solve_quadratic(T(1), q < T(0) ? v : -v, z + u, epsilon);''', '''    const auto solutions2_2 = solve_quadratic(T(1), -v, z + u, epsilon);''')],
 '''  // (x-1)(x-2)(x-3)(x+5) = x^4 - x^3 - 19x^2 + 49x - 30 and its mirror image
  for (int s = 1; s >= -1; s -= 2) {
    const auto r = vm::solve_quartic(1.0, -1.0 * s, -19.0, 49.0 * s, -30.0, 1e-9);
    const double x[4] = {std::get<1>(r), std::get<2>(r), std::get<3>(r), std::get<4>(r)};
    for (std::size_t i = 0; i < std::get<0>(r); ++i) CHECK(std::abs(x[i] * x[i] * x[i] * x[i] - s * x[i] * x[i] * x[i] - 19 * x[i] * x[i] + s * 49 * x[i] - 30) < 1e-3);
  }''',
 'a depressed quartic with a negative linear coefficient', 'reported values are no roots')
seed('b11_pred_stride', 'C03', ['scalar'], [('scalar.h', '''  return ((index + c) - (stride % c)) % c;''', '''  return ((index + c) - stride % (c + 1)) % c;''')],
 '''  CHECK(vm::pred(0, 3, 7) == 2); CHECK(vm::pred(1, 4, 9) == 0); CHECK(vm::succ(vm::pred(2, 5, 6), 5, 6) == 2);''',
 'a stride larger than the number of elements', 'stepping backward lands on the wrong index')

seed('b02_lup_pivot', 'C12', ['mat', 'mat_ext'], [('mat.h', '''    if (p < 1.0e-15) {''', '''    if (p < 1.0e-6) {''')],
 '''  const auto m = vm::scaling_matrix(vm::vec<double, 3>(1e-7, 1.0, 1.0));
  const auto [ok, x] = vm::invert(m);
  CHECK(ok); CHECK(near((m * x)[0][0], 1.0));''',
 'a regular matrix whose pivots get small', 'a regular matrix is reported as singular')
seed('b04_compare_nan', 'C05', ['vec'], [('vec.h', '''        return 1;
      }
    }
  }
  return 0;''', '''        return 1;
      }
    } else {
      return 0;
    }
  }
  return 0;''')],
 '''  const double n = std::numeric_limits<double>::quiet_NaN();
  CHECK(vm::compare(vm::vec<double, 3>(n, 1, 0), vm::vec<double, 3>(n, 2, 0)) == -1);
  CHECK(vm::vec<double, 3>(n, 1, 0) != vm::vec<double, 3>(n, 2, 0));''',
 'non-numbers in the same component of both vectors and a later component that differs', 'different vectors compare equal')
seed('b06_quat_angle', 'C14', ['quat'], [('quat.h', '''      return v / std::sin(std::acos(r));''', '''      return v / std::sin(std::acos(abs(r))) * (r < T(0.0) ? T(-1.0) : T(1.0));''')],
 '''  const vm::vec<double, 3> z(0, 0, 1);
  const vm::quat<double> q(z, 4.0); // more than half a turn
  const auto p = vm::quat<double>(q.axis(), q.angle()) * vm::vec<double, 3>(1, 0, 0);
  CHECK(near(p.x(), std::cos(4.0))); CHECK(near(p.y(), std::sin(4.0)));''',
 'a rotation by more than half a turn', 'axis and angle describe the inverse rotation')
seed('b12_snapdown', 'C01', ['vec'], [('vec.h', '''    result[i] = snapDown(v[i], m[i]);''', '''    result[i] = snapDown(v[i], abs_min(m[i], m[0]));''')],
 '''  const auto r = vm::snapDown(vm::vec<double, 3>(7.0, 7.0, 7.0), vm::vec<double, 3>(2.0, 4.0, 1.0));
  CHECK(r.y() == 4.0);''',
 'different grid sizes per component', 'a later component is snapped to the grid of the first one')

seed('b10_colinear', 'C08', ['vec'], [('vec.h', '''  return is_zero(j * j - k * l, epsilon);''', '''  return k * l - abs(j) * j <= epsilon;''')],
 '''  CHECK(vm::is_colinear(vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(1, 1, 1), vm::vec<double, 3>(3, 3, 3)));
  CHECK(vm::is_colinear(vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(-1, -1, -1), vm::vec<double, 3>(3, 3, 3)));''',
 'colinear points of which the first is not (or is) in the middle', 'colinear points are rejected')
seed('b13_mat_eq', 'C11', ['mat'], [('mat.h', '''    result[c] = lhs[c] / rhs;''', '''    result[c] = lhs[c] * (static_cast<T>(1) / rhs);''')],
 '''  const auto m = vm::mat<double, 2, 2>(49.0, 1.0, 2.0, 3.0) / 49.0;
  CHECK(m[0][0] == 1.0); CHECK(m[1][1] == 3.0 / 49.0);
  const auto n = vm::mat<int, 2, 2>(4, 2, 6, 8) / 2;
  CHECK(n[0][0] == 2);''',
 'an inexact reciprocal (or integer entries)', 'division of a matrix by a scalar is not the quotient of the entries')

# ---- second batch
seed('b14_unswizzle_y', 'C06', ['vec'], [('vec.h', """    case 0:
      return vec<T, 3>(point.z(), point.x(), point.y());
    case 1:
      return vec<T, 3>(point.y(), point.z(), point.x());""", """    case 0:
      return vec<T, 3>(point.z(), point.x(), point.y());
    case 1:
      return vec<T, 3>(point.y(), point.z(), point.y() == point.z() ? point.z() : point.x());""")],
 """  const vm::vec<double, 3> v(5, 2, 5), w(7, 2, 5);
  CHECK(vm::unswizzle(vm::swizzle(v, 1), 1) == v); CHECK(vm::unswizzle(vm::swizzle(w, 1), 1) == w);
  const vm::vec<double, 3> u(2, 2, 9); CHECK(vm::unswizzle(vm::swizzle(u, 1), 1) == u);""",
 'axis 1 and a vector whose first two components coincide', 'the permutation is not undone')
seed('b16_average', 'C07', ['vec'], [('vec.h', """    result = result + get(*cur++);
    count = count + T(1.0);
  }
  return result / count;""", """    result = result + (get(*cur++) - result) / (count + T(1.0));
    count = vm::min(count + T(1.0), T(16.0));
  }
  return result;""")],
 """  std::vector<vm::vec<double, 2>> p;
  for (int i = 0; i < 18; ++i) p.push_back(vm::vec<double, 2>(i, i * i));
  const auto a = vm::average(p.begin(), p.end());
  CHECK(near(a[0], 8.5));""",
 'more than sixteen points', 'the running mean forgets old points')
seed('b17_cross_alias', 'C07', ['vec'], [('vec.h', """    lhs[1] * rhs[2] - lhs[2] * rhs[1], lhs[2] * rhs[0] - lhs[0] * rhs[2],
    lhs[0] * rhs[1] - lhs[1] * rhs[0]);""", """    lhs[1] * rhs[2] - lhs[2] * rhs[1], lhs[2] * rhs[0] - lhs[0] * rhs[2],
    (lhs[0] + lhs[1]) * (rhs[1] - rhs[0]) + lhs[0] * rhs[0] - (lhs[1] > T(0) && lhs[1] * rhs[1] < T(0) ? -(lhs[1] * rhs[1]) : lhs[1] * rhs[1]));""")],
 """  const auto c = vm::cross(vm::vec<double, 3>(3, 2, 0), vm::vec<double, 3>(5, -7, 0));
  CHECK(c[2] == -31.0);""",
 'a positive second component of the first vector and a negative one of the second', 'the third component of the cross product is wrong')
seed('b19_is_between', 'C08', ['vec'], [('vec.h', """    const auto d = dot(toEnd, normalize(toStart));
    return d < T(0.0);""", """    const auto d = toEnd[0] * toStart[0] + toEnd[S - 1] * toStart[S - 1];
    return d < T(0.0);""")],
 """  CHECK(vm::is_between(vm::vec<double, 3>(0, 1, 0), vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(0, 3, 0)));""",
 'points that differ in the middle coordinate only', 'points on such a line are never between')
seed('b20_bbox_touch', 'C09', ['bbox'], [('bbox.h', """      if (b.max[i] < min[i] || b.min[i] > max[i]) {
        return false;
      }""", """      if (b.max[i] < min[i] || b.min[i] >= max[i]) {
        return b.min[i] == max[i] && max[i] == min[i];
      }""")],
 """  const vm::bbox<double, 3> a(vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(1, 1, 1));
  const vm::bbox<double, 3> b(vm::vec<double, 3>(1, 0, 0), vm::vec<double, 3>(2, 1, 1));
  CHECK(a.intersects(b)); CHECK(b.intersects(a));""",
 'boxes touching at the upper side', 'touching boxes do not intersect')
seed('b22_bbox_contains', 'C09', ['bbox'], [('bbox.h', """      if (b.min[i] < min[i] || b.max[i] > max[i]) {
        return false;
      }""", """      if (b.min[i] < min[i] || b.max[i] > max[i] || b.min[i] == max[i]) {
        return false;
      }""")],
 """  const vm::bbox<double, 3> a(vm::vec<double, 3>(0, 0, 0), vm::vec<double, 3>(1, 1, 1));
  const vm::bbox<double, 3> b(vm::vec<double, 3>(1, 0, 0), vm::vec<double, 3>(1, 1, 1));
  CHECK(a.contains(b));""",
 'a flat box lying in the upper side of the other', 'a contained flat box is not contained')
seed('b23_canonical', 'C16', ['line'], [('line.h', """      if (direction[i] != T(0)) {
        if (direction[i] < T(0)) {
          newDirection = -newDirection;
        }
        break;
      }""", """      if (direction[i] != T(0)) {
        if (direction[i] < T(0)) {
          newDirection = -newDirection;
        }
        if (i > 0) {
          break;
        }
      }""")],
 """  using V = vm::vec<double, 3>;
  const vm::line<double, 3> a(V(1, 2, 3), V(0.6, -0.8, 0)), b(V(1, 2, 3), V(-0.6, 0.8, 0));
  CHECK(a.make_canonical().direction == V(0.6, -0.8, 0)); CHECK(a == b);""",
 'a direction whose first two components have different signs', 'the canonical direction is not unique')
seed('b24_segment_cmp', 'C16', ['segment'], [('segment.h', """    return compare(lhs.end(), rhs.end(), epsilon);
  }""", """    return compare(lhs.end() - lhs.start(), rhs.end() - rhs.start(), epsilon);
  }""")],
 """  using V = vm::vec<double, 3>;
  const vm::segment<double, 3> a(V(0, 0, 0), V(1, 0, 0)), b(V(0.09, 0, 0), V(1.09, 0, 0)), c(V(0.09, 0, 0), V(1.15, 0, 0));
  CHECK(vm::is_equal(a, b, 0.1)); CHECK(!vm::is_equal(a, c, 0.1));""",
 'a tolerance under which the start points are equal but not identical', 'end points differing by more than the tolerance compare equal')
seed('b28_bbox_farthest', 'C18', ['intersection'], [('intersection.h', """      if (!inside[i] && distances[i] > distances[bestPlane]) {
        bestPlane = i;
      }""", """      if (!inside[i] && distances[i] > distances[bestPlane]) {
        bestPlane = i;
        break;
      }""")],
 """  using V = vm::vec<double, 3>;
  const vm::bbox<double, 3> b(V(0, 0, 0), V(10, 10, 10));
  const vm::ray<double, 3> r(V(-1, -2, -3), vm::normalize(V(1, 1, 1)));
  CHECK(near(vm::intersect_ray_bbox(r, b), 3 * std::sqrt(3.0)));""",
 'an origin outside of all three slabs, each one farther than the previous', 'a hit is missed')
seed('b29_sphere_inside', 'C18', ['intersection'], [('intersection.h', """  } else if (t0 > static_cast<T>(0.0) && t1 > static_cast<T>(0.0)) {
    return min(t0, t1);""", """  } else if (t0 > static_cast<T>(0.0) && p < static_cast<T>(0.0)) {
    return min(t0, t1);""")],
 """  using V = vm::vec<double, 3>;
  const vm::ray<double, 3> r(V(-1, 0, 0), V(1, 0, 0));
  CHECK(near(vm::intersect_ray_sphere(r, V(0, 0, 0), 2.0), 3));""",
 'a ray starting inside the sphere and heading past its centre', 'a negative distance is returned')
seed('b30_plane_plane', 'C18', ['intersection'], [('intersection.h', """  const auto lineToP2 = line<T, S>(p1.anchor(), normalize(p1.project_vector(p2.normal)));""", """  const auto lineToP2 = line<T, S>(p1.anchor(), normalize(is_zero(p1.distance, constants<T>::almost_zero()) ? p2.normal : p1.project_vector(p2.normal)));""")],
 """  using V = vm::vec<double, 3>;
  const vm::plane<double, 3> a(0.0, V(0, 0, 1)), b(2.0, V(0.6, 0, 0.8));
  const auto l = vm::intersect_plane_plane(a, b);
  CHECK(near(a.point_distance(l.point), 0)); CHECK(near(b.point_distance(l.point), 0));""",
 'the first plane runs through the origin and the planes are not perpendicular', 'the line does not lie in the first plane')
seed('b31_tri_edge', 'C19', ['intersection'], [('intersection.h', """  if (v + w > T(1.0)) {
    return nan<T>();
  }

  return u;""", """  if (max(v, w) > T(1.0) || (v + w > T(1.0) && v > w)) {
    return nan<T>();
  }

  return u;""")],
 """  using V = vm::vec<double, 3>;
  const vm::ray<double, 3> r(V(0.45, 0.75, 1), V(0, 0, -1));
  CHECK(vm::is_nan(vm::intersect_ray_triangle(r, V(0, 0, 0), V(1, 0, 0), V(0, 1, 0))));""",
 'a ray passing the slanted edge on one half of the square', 'a ray missing the triangle is reported as a hit')
seed('b32_poly_edge', 'C19', ['intersection'], [('intersection.h', """  // Is segment entirely on the negative side of the X axis?
  if (v0.x() < T(0.0) && v1.x() < T(0.0)) {
    return 0;
  }""", """  // Is segment entirely on the negative side of the X axis?
  if (v0.x() + v1.x() < T(0.0)) {
    return 0;
  }""")],
 """  using V = vm::vec<double, 3>;
  const std::vector<V> p{V(-3, 2, 0), V(1, -0.5, 0), V(3, 2, 0)};
  int n = 0;
  for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) {
    const V q(-3.05 + i * 0.15, -0.93 + j * 0.077, 0);
    const auto side = [&](const V& a, const V& b) { return (b.x() - a.x()) * (q.y() - a.y()) - (b.y() - a.y()) * (q.x() - a.x()); };
    const bool in = side(p[0], p[1]) > 0 && side(p[1], p[2]) > 0 && side(p[2], p[0]) > 0;
    if (vm::polygon_contains_point(q, V(0, 0, 1), p.begin(), p.end()) != in) ++n;
  }
  CHECK(n == 0);""",
 'an edge crossing the X axis right of the point although its middle lies left of it', 'points are misclassified')
seed('b33_invert', 'C20', ['polygon'], [('polygon.h', """      std::reverse(std::next(std::begin(vertices)), std::end(vertices));""", """      std::reverse(std::next(std::begin(vertices)), std::prev(std::end(vertices), vertices.size() > 4 ? 1 : 0));""")],
 """  using V = vm::vec<double, 3>;
  const vm::polygon<double, 3> p({V(0, 0, 0), V(2, 0, 0), V(3, 1, 0), V(2, 2, 0), V(0, 2, 0)});
  CHECK(p.invert() == vm::polygon<double, 3>({V(0, 2, 0), V(2, 2, 0), V(3, 1, 0), V(2, 0, 0), V(0, 0, 0)}));""",
 'a polygon with more than four vertices', 'the order is not reversed')
seed('b34_unoriented', 'C20', ['polygon'], [('polygon.h', """      while (i < count) {
        const auto j = count - i;""", """      while (i < count - 1) {
        const auto j = count - i;""")],
 """  using V = vm::vec<double, 3>;
  const vm::polygon<double, 3> p({V(0, 0, 0), V(2, 0, 0), V(2, 2, 0)}), q({V(0, 0, 0), V(3, 3, 0), V(2, 0, 0)});
  CHECK(vm::compareUnoriented(p, q) != 0);""",
 'polygons that agree backwards in all but the last vertex compared', 'different polygons are found equal')
seed('b35_hull_tie', 'C21', ['convex_hull'], [('convex_hull.h', """          return dyl > dyr;
        }""", """          return dyl < dyr;
        }""")],
 """  using V = vm::vec<double, 3>;
  const std::vector<V> p{V(0, 0, 0), V(4, 0, 0), V(4, 2, 0), V(4, 4, 0), V(0, 4, 0), V(4, 1, 0)};
  const auto h = vm::convex_hull(p);
  bool f = false; for (const auto& v : h) f = f || v == V(4, 4, 0);
  CHECK(f);""",
 'several points straight above the anchor', 'the farthest of them is dropped from the hull')
seed('b36_hull_pop', 'C21', ['convex_hull'], [('convex_hull.h', """        stack.pop_back();
        pop_stale_points(stack, p);""", """        stack.pop_back();""")],
 """  using V = vm::vec<double, 3>;
  const std::vector<V> p{V(0, 0, 0), V(10, 1, 0), V(9.5, 3, 0), V(8.5, 4.5, 0), V(8.5, 12, 0), V(-3, 5, 0)};
  const auto h = vm::convex_hull(p);
  const auto n = h.size();
  for (std::size_t i = 0; i < n; ++i) { const auto a = h[i], b = h[(i + 1) % n], c = h[(i + 2) % n];
    CHECK((b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()) >= 0); }""",
 'two consecutive points which a later point makes stale', 'the hull is not convex')
seed('b37_bezier', 'C22', ['bezier_surface'], [('bezier_surface.h', """    return static_cast<T>(1) - static_cast<T>(2) * x + (x * x);""", """    return static_cast<T>(1) - (x < static_cast<T>(0) ? -static_cast<T>(2) * x : static_cast<T>(2) * x) + (x * x);""")],
 """  std::array<std::array<vm::vec<double, 3>, 3>, 3> c;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[i][j] = vm::vec<double, 3>(1, 1, 1);
  CHECK(near(vm::evaluate_quadratic_bezier_surface(c, -0.5, 0.5)[0], 1));""",
 'a parameter below zero', 'the weights do not add up to one')
seed('b38_list_mul', 'C22', ['vec_ext'], [('vec_ext.h', """  for (std::size_t i = 0u; i < N; ++i) {
    result[i] = lhs[i] * rhs;
  }""", """  for (std::size_t i = 0u; i + 1u < N; i += 2u) {
    result[i] = lhs[i] * rhs;
    result[i + 1u] = lhs[i + 1u] * rhs;
  }""")],
 """  const std::array<vm::vec<double, 2>, 3> a{vm::vec<double, 2>(1, 1), vm::vec<double, 2>(2, 2), vm::vec<double, 2>(3, 3)};
  CHECK((a * 2.0)[2] == vm::vec<double, 2>(6, 6));""",
 'an array with an odd number of elements', 'the last element is lost')
seed('b39_approx_le', 'C23', ['approx'], [('approx.h', """  friend constexpr bool operator<=(const approx<T> lhs, const T rhs) {
    return lhs.m_value <= (rhs + lhs.m_epsilon);
  }""", """  friend constexpr bool operator<=(const approx<T> lhs, const T rhs) {
    return lhs.m_value < (rhs + lhs.m_epsilon);
  }""")],
 """  CHECK(vm::approx<double>(1.0, 0.0) <= 1.0); CHECK(vm::approx<double>(1.0, 0.5) <= 0.5);""",
 'a value exactly epsilon away', 'equal but not less or equal')
seed('b40_approx_list', 'C23', ['approx'], [('approx.h', """  if (lhs.size() != rhs.size()) {
    return false;
  }""", """  if (lhs.size() > rhs.size()) {
    return false;
  }""")],
 """  const std::vector<double> a{1.0}; const std::vector<vm::approx<double>> b{vm::approx<double>(1.0), vm::approx<double>(2.0)};
  CHECK(!(a == b));""",
 'a list that is a prefix of the other', 'lists of different lengths are equal')
seed('b15_vec_ext', 'C06', ['vec'], [('vec.h', """    for (std::size_t i = 0u; i < S - SS; ++i) {
      v[i + SS] = t[i];
    }""", """    for (std::size_t i = 0u; i < S - SS; ++i) {
      v[i + SS] = t[i % 2u];
    }""")],
 """  const vm::vec<double, 4> v(vm::vec<double, 1>(1.0), 2.0, 3.0, 4.0);
  CHECK(v[0] == 1 && v[1] == 2 && v[2] == 3 && v[3] == 4);""",
 'extending a vector by three or more components', 'values end up in the wrong component')
seed('b18_parallel', 'C08', ['vec'], [('vec.h', """  const T cos = dot(normalize(lhs), normalize(rhs));
  return is_equal(abs(cos), T(1.0), epsilon);""", """  const T cos = dot(normalize(lhs), normalize(rhs));
  return is_equal(cos * cos, T(1.0), epsilon);""")],
 """  const vm::vec<double, 2> a(1, 0), b(0.93, std::sqrt(1 - 0.93 * 0.93));
  CHECK(vm::is_parallel(a, b, 0.1)); CHECK(!vm::is_parallel(a, b, 0.05));""",
 'an angle whose cosine is within epsilon but not twice epsilon of one', 'nearly parallel vectors are rejected')
seed('b27_ray_line', 'C17', ['distance'], [('distance.h', """  const auto D = a * c - b * b;
  if (is_zero(D, constants<T>::almost_zero())) {
    // parallel case
    const T perpendicular_dist_squared = squared_distance(project_point(r, l.point), l.point);""", """  const auto D = a * c - b * b;
  if (is_zero(D, constants<T>::almost_zero()) && b > T(0)) {
    // parallel case
    const T perpendicular_dist_squared = squared_distance(project_point(r, l.point), l.point);""")],
 """  using V = vm::vec<double, 3>;
  const vm::ray<double, 3> r(V(0, 0, 0), V(-1, 0, 0)); const vm::line<double, 3> l(V(5, 2, 0), V(1, 0, 0));
  CHECK(vm::squared_distance(r, l).parallel); CHECK(near(vm::squared_distance(r, l).distance, 4));""",
 'a ray and a line of opposite direction', 'parallelism is not recognised')

seed('b41_parse_mat', 'C24', ['mat_io'], [('mat_io.h', """  constexpr auto blank = " \\t\\n\\r()";""", """  constexpr auto blank = " \\t\\n()";""")],
 """  const auto m = vm::parse<double, 2, 2>("1 2\\r3 4"); CHECK(m.has_value() && (*m)[0][1] == 3.0);""",
 'numbers separated by a carriage return only', 'such a matrix is not parsed')
