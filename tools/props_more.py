prop('C04', 'Real roots of quadratic, cubic and quartic polynomials',
  "Solving a quadratic, cubic or quartic equation reports as many values as it announces, pads the rest with non-numbers, and every value it reports is a root. "
  "For quadratic and cubic equations no real root is missing, and simple and multiple roots are told apart by the discriminant (vanishing up to the given epsilon).",
  "every coefficient vector in the stated range (real arithmetic), epsilon zero or small",
  "tests solve a few polynomials with hand-picked roots; each branch of the case analysis (discriminant signs, vanishing intermediate coefficients) covers a whole region of the coefficient space",
  ['scalar.h'], 'solve_quadratic/solve_cubic/solve_quartic: case analysis on discriminants, resolvent cubic')
prop('C05', 'Ordering and equality of vectors and vector sequences',
  "Vectors compare lexicographically with non-numbers ordered last, and the comparison operators, equality and inequality all agree with that one order, which is total, antisymmetric and transitive; sequences of vectors compare lexicographically in the same way. "
  "With a tolerance, the first component differing by more than epsilon decides, vectors are equal iff no component differs by more, and a vector is zero iff every component is; a vector is a non-number iff some component is.",
  "all float/double/int component values including NaN and infinities, dimensions 1 to 4, sequences of up to three vectors, every epsilon",
  "order laws quantify over triples of vectors; NaN placement and components that tie up to the last are rare",
  ['vec.h'], 'compare, range compare, operators ==,!=,<,<=,>,>=, is_equal, is_zero, is_nan')
prop('C06', 'Vector construction, access, slicing, axis permutation and ranking',
  "Constructing a vector from components, lists, other element types or shorter/longer vectors puts every value in its place, fills missing components with zero and drops excess ones; named and indexed component access, sub-vectors and overflow extensions name the right components. "
  "Moving an axis to the end is a cyclic permutation of three coordinates undone by its inverse. "
  "Ranking the components (by value or by magnitude, k-th largest) returns the component, index or signed axis that really has that rank, different ranks naming different components, and the axis constants point along their axis.",
  "all component values of float, double and int (ranking: no NaN), dimensions 1 to 5, every rank below the dimension",
  "ties, negative components of largest magnitude and every rank/axis combination exceed the sampled cases",
  ['vec.h', 'constexpr_util.h'], 'vec constructors and conversions, slice/xy/xyz/xyzw, swizzle/unswizzle, find/get_(abs_)max_component, get_abs_max_component_axis')
prop('C07', 'Vector arithmetic, metric and products',
  "Sums, differences, products, quotients and negation of vectors and scalars act on each component; dot and cross product, length, squared length, distance, normalisation and averages satisfy their defining equations: the cross product is perpendicular to both operands and anticommutative, lengths and distances are non-negative square roots of the sum of squares, normalising yields a unit vector of the same direction. "
  "Conversion to and from homogeneous coordinates is inverse and divides by the last coordinate; compile-time variants agree with the run-time ones.",
  "all values bit-exactly for the component-wise operators; all real vectors in the stated range for the metric operations; dimension 1 to 4",
  "identities quantify over all vectors; tests check a few constants",
  ['vec.h'], 'operators, dot, cross, length, squared_length, distance, normalize, average, to/from homogeneous coordinates')
prop('C08', 'Vector predicates and angle measurement',
  "A vector is recognised as unit iff its length is one up to epsilon, three points as colinear iff they span no area up to epsilon, two vectors as parallel iff the cosine of their angle has magnitude at least 1 - epsilon, and a point of a line as between two others iff its parameter lies in [0,1]. "
  "The angle between a vector and an axis about an up vector lies in [0, full turn), has the dot product as its cosine and is measured counter-clockwise.",
  "all real vectors in the stated range, dimension 2 to 4",
  "thresholds and the choice of the half turn are decided by inequalities over all vectors",
  ['vec.h'], 'is_unit, is_colinear, is_parallel, between, measure_angle')
prop('C09', 'Bounding boxes as point sets',
  "A box is valid iff min <= max in every dimension and empty iff some extent is zero; it contains exactly the points between its corners, contains another box iff it contains both corners, encloses it iff they do not touch, and intersects it iff they share a point. "
  "Merging with a point, a box, a range, or feeding a builder any history of points and boxes yields the smallest box around everything; the intersection holds exactly the common points, and constraining moves a point to the nearest point of the box. "
  "Repairing orders the corners, relative positions and (in)equality of boxes are per coordinate, and an unused builder yields the empty box at the origin.",
  "all non-NaN corner and point values, dimension 1 to 3, histories of up to three additions",
  "which coordinates touch, overlap or are disjoint gives hundreds of configurations with exact-tie boundaries",
  ['bbox.h'], 'bbox constructors, is_valid/is_empty/repair/contains/encloses/intersects/relative_position/constrain, merge, intersect, merge_all, bbox::builder')
prop('C10', 'Measures, corners, edges, faces and transformation of boxes',
  "Size, centre, volume, expansion and translation of a box follow from its corners; a corner named by its sides has those coordinates. "
  "The vertices, edges and faces are the eight corners, twelve corner-to-corner segments along one axis and six sides, each visited exactly once, faces clockwise as seen from outside and with their outward normal. "
  "Transforming a box yields the smallest box around its transformed corners.",
  "all real boxes in the stated range, all affine transformations row by row",
  "a transposed corner or a face with wrong orientation shows only for boxes without symmetry and in one of 24+ visits",
  ['bbox.h'], 'size/center/volume/expand/translate/corner/vertices/for_each_edge/for_each_face/for_each_vertex/transform')
prop('C11', 'Matrix access, arithmetic, products, minors, determinants and adjugates',
  "Matrix values are given row by row and accessed by column then row; entry-wise operators, comparison, conversion, transposition, slices and minors act on exactly the entries they name, for square and non-square matrices. "
  "Products are the scalar products of rows and columns (matrix with matrix, column vector, row vector, point), so a product of transformations applies the right factor first. "
  "Determinant and adjugate satisfy A*adj(A) = adj(A)*A = det(A)*I with the Leibniz determinant.",
  "all entry values, shapes up to 4x4 (determinant up to 5x5)",
  "algebraic identities over 9 to 25 free entries; tests use a few integer matrices",
  ['mat.h'], 'mat constructors, operators, transpose, extract_minor, slice, compute_determinant, compute_adjugate')
prop('C12', 'Matrix inversion and linear systems',
  "Inverting a matrix either yields a matrix whose product with the original is the identity, or reports failure and returns the identity; solving a linear system either yields a vector that solves it or reports failure. "
  "Regular matrices are always inverted and their systems solved, singular ones never, whatever row exchanges are needed.",
  "all matrices up to 3x3 and all affine 4x4 transformations in the stated range, plus families of general 4x4 matrices (real arithmetic)",
  "pivot orders and singular configurations are measure-zero or rare regions of the matrix space",
  ['mat.h'], 'invert, lup_find_decomposition, lup_solve')
prop('C13', 'Construction of projection, view and affine transformation matrices',
  "Translation, scaling, mirroring, shearing, box-to-box scaling and shearing, and zeroing-out matrices move every point as their names promise; perspective and orthographic projections map the view volume's planes to the clip planes; view matrices map right, up and view direction to the axes. "
  "Coordinate system and plane projection matrices express points in the given basis (undone by their inverses), and the affine transformation through point triples or quadruples maps each source point to its target and is refused for degenerate sources. "
  "Multiplying a matrix with lists of vectors or points acts on each element.",
  "all parameters, points and (triangular) bases in the stated range",
  "each matrix is a function of many parameters with 16 entries; tests sample one or two parameter sets",
  ['mat_ext.h', 'mat.h'], 'translation_matrix, scaling_matrix, mirror_matrix, shear_matrix, shear_bbox_matrix, scale_bbox_matrix, perspective/ortho/view_matrix, coordinate_system_matrix, plane_projection_matrix, points_transformation_matrix')
prop('C14', 'Rotations: matrices, quaternions, Euler angles',
  "Rotating about an axis by an angle turns every point counter-clockwise about that axis, keeping lengths, whether by matrix or by quaternion; a quaternion and its matrix rotate alike, products rotate by the right factor first, the conjugate undoes the rotation, and axis and angle of a quaternion describe its rotation. "
  "Roll, pitch and yaw are applied in that order and the Euler angles extracted from a rotation reproduce it, gimbal lock included. "
  "The rotation between two unit vectors maps the first onto the second about their common perpendicular.",
  "all angles, unit axes, unit quaternions and points in the stated range",
  "sign and order conventions must agree for every axis and angle; tests sample axis-aligned ones",
  ['mat_ext.h', 'quat.h', 'mat.h'], 'rotation_matrix (four overloads), euler_angles, quat, the predefined quarter-turn matrices')
prop('C15', 'Planes: distances, projection, construction and transformation',
  "The signed distance of a point to a plane, its status (above, below, inside up to epsilon), completing a coordinate to a point of the plane, and orthogonal or directional projection of points and vectors satisfy the plane equation; flipping negates normal and distances. "
  "The plane through three points contains them with its unit normal towards the viewer seeing them clockwise, and is refused only for (nearly) colinear points; horizontal, orthogonal and axis-aligned planes pass through their point with the promised normal. "
  "Transforming a plane by any invertible affine map gives the plane of the transformed points with a unit normal on the same side.",
  "all unit normals, distances and points in the stated range; rotations, scalings and shears along axes with translation",
  "only non-uniform scalings with oblique normals, or points at particular sides, expose a wrong formula",
  ['plane.h'], 'plane::anchor/at/point_distance/point_status/flip/project_point/project_vector/transform, from_points, plane_normal, horizontal_plane, orthogonal_plane, aligned_orthogonal_plane')
prop('C16', 'Lines, rays and segments: points, projections, containment, order',
  "Lines and rays name the points at a signed distance along their direction, project points onto themselves at the nearest point, and transform to the image of their points; a canonical line has the same points as the original and depends only on them. "
  "A segment has its two end points in ascending order however they are given, its length, centre, direction and vertices follow from them, it is translated and transformed with them, contains exactly the points within the given distance of it, and segments are equal and ordered by their end points. "
  "Converting the component type keeps every stored value in its place, and the position of a point relative to a ray is decided by its signed distance along the direction.",
  "all end points, directions and points in the stated range, dimension 2 and 3",
  "containment near the ends and canonical forms are decided by inequalities over all positions",
  ['abstract_line.h', 'line.h', 'ray.h', 'segment.h'], 'abstract_line/line/ray/segment members, canonicalize, contains, transform, comparison operators')
prop('C17', 'Shortest distances between points, rays, segments and lines',
  "The (squared) distance of a point to a ray or segment is that of the closest point of it, and the reported position is where that point lies. "
  "The squared distance between a ray and a segment, another ray, or a line is attained at the reported positions on both of them and no pair of their points is closer; parallelism is reported exactly for parallel directions.",
  "all positions, distances and lengths in the stated range, a set of axis-parallel and oblique directions",
  "each of the clamping cases (beyond either end, behind either origin, parallel) is a region of configurations; minimality quantifies over all pairs of points",
  ['distance.h'], 'distance/squared_distance for point/ray, point/segment, ray/segment, ray/ray, ray/line')
prop('C18', 'Rays and lines meeting planes, boxes, spheres and tori; planes meeting planes',
  "Intersecting a ray or line with a plane, or a ray with a box, sphere or torus, reports the smallest admissible distance along the ray at which the object's surface is met, and no number when it is not met; starting inside a box or sphere the ray meets the boundary ahead. "
  "Two planes meet in a line all of whose points lie on both planes, and in none when they are parallel.",
  "all rays, boxes, spheres and planes in the stated range (real arithmetic)",
  "missing a face, an inside start or a zero direction component affects only particular regions of the configuration space",
  ['intersection.h'], 'intersect_ray_plane, intersect_line_plane, intersect_ray_bbox, intersect_ray_sphere, intersect_ray_torus, intersect_plane_plane')
prop('C19', 'Points in polygons, rays hitting triangles and polygons',
  "A planar polygon, convex or not and of either orientation, contains exactly the points inside or on its boundary (up to a small tolerance), whichever way the projection axis is determined and however the vertices are obtained. "
  "A ray hits a triangle or polygon iff it is not parallel to its plane, the plane lies ahead and the point of intersection belongs to it; the reported number is the distance of that point, and not a number otherwise.",
  "all points of the plane for triangles and nine fixed polygons; all hit points and distances",
  "points level with a vertex or on an edge form measure-zero sets that random tests miss and hand-written tests sample sparsely",
  ['intersection.h'], 'polygon_contains_point, intersect_ray_triangle, intersect_ray_polygon')
prop('C20', 'Polygons: normal form, equality and order, transformation',
  "A polygon keeps its vertices in the given cyclic order with the smallest vertex first, so polygons given from different starting vertices are equal; copying, converting, translating, transforming and inverting (reversing the order) a polygon do so with every vertex and keep this form. "
  "Polygons compare vertex by vertex (also up to an epsilon), with all operators agreeing; the comparison that ignores orientation finds two polygons equal exactly if they have the same vertices in the same or the reverse order, and otherwise orders them by number of vertices, then vertex by vertex. "
  "Iteration, reverse iteration, vertex lookup, vertex lists and the centre refer to exactly its vertices.",
  "all non-NaN vertex coordinates, up to four vertices, dimension 1 to 3",
  "ties between vertices, rounding during conversion and reversed orders with partial agreement are rare combinations",
  ['polygon.h'], 'polygon constructors, rotate_min_to_front, invert, translate, transform, compare, compareUnoriented, isEqual, operators, get_vertices')
prop('C21', 'Convex hulls',
  "The convex hull of points in a plane is a convex polygon whose vertices are distinct given points and which has all given points inside or on its boundary, whatever the order of the points, repeated and colinear ones included. "
  "It is empty exactly if fewer than three points are given or all of them are (nearly) colinear.",
  "three to five fixed points and one (thorough: two) arbitrary further points of the plane, at several positions of the list, in axis-parallel and oblique planes",
  "the result depends on the relative position of every point to every edge, duplicates and colinear triples included",
  ['convex_hull.h'], 'convex_hull: plane selection, anchor, angular sort, duplicate removal, hull construction')
prop('C22', 'Quadratic Bezier surfaces and arithmetic on lists of vectors',
  "Evaluating a quadratic Bezier surface weights the nine control points with the products of the Bernstein polynomials of both parameters, so it passes through the corner control points, the weights add up to one, and transposing the grid exchanges the parameters. "
  "Adding a vector to, or multiplying a scalar with, a list or array of vectors, from either side, does so with every element and keeps their order and number.",
  "all control points and parameters in the stated range; all list values bit-exactly",
  "polynomial identities in 11 to 29 variables",
  ['bezier_surface.h', 'vec_ext.h'], 'evaluate_quadratic_bezier_surface, operator+ and operator* on vectors/arrays of vec')
prop('C23', 'Comparison with approximate values',
  "A scalar compared with an approximate scalar is equal iff it differs by at most epsilon, and otherwise less or greater; vectors compare by the first component that differs by more than epsilon. "
  "All comparison operators agree with that, with the approximate value on either side, and exactly one of less, equal and greater holds; lists, matrices and lines equal an approximate one iff all their elements do.",
  "all values and epsilons in the stated range, dimension 1 to 3, lists of up to three",
  "twelve operators over all positions relative to the tolerance band",
  ['approx.h'], 'approx<T>, approx<vec>, approx<mat>, approx<line>, list operators')
prop('C24', 'Parsing and printing of vectors, matrices and shapes',
  "Parsing a vector or matrix from a text succeeds exactly if it holds enough numbers separated by blanks or parentheses, takes them in order (matrices row by row) and looks only at the given text; from a list of vectors separated by blanks, commas or semicolons, every complete vector is obtained in order. "
  "Printing writes the components in order (matrices row by row) separated by blanks, and rays, lines, planes and boxes with their parts named and in parentheses.",
  "every text of up to five characters of the number, blank and separator characters, longer texts of a given shape with symbolic characters; all values printed",
  "texts combine leading, trailing, doubled and mixed blanks and separators; views into longer texts are never tested",
  ['vec_io.h', 'mat_io.h', 'bbox_io.h', 'plane_io.h', 'line_io.h', 'ray_io.h'], 'parse, parse_all, operator<<')
