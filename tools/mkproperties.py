#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': observe, 'hook_needed': None}})


prop('C01', 'A composite transform is the ordered application of what was appended',
     'For any history of appended translations, scales, unit conversions, reorientations, rotations and explicit 3x3 or 4x4 matrices, calling a composite on points, or asking for its 4x4 matrix, gives exactly the appended transforms applied in the order they were appended, or just the ones selected by an index range (start inclusive, stop exclusive). '
     'Each appending call other than a unit conversion returns the index of what it added; a scale factor that is not positive and a conversion that is not between lengths are refused and add nothing. '
     'A 3x3 matrix of another shape, and a matrix without an inverse given without its reverse, are refused. Asking changes neither the composite nor the arguments, and neither does what the caller later does to the arrays it passed or received.',
     ['inputs', 'histories'], 'every history of appending calls, every range of indices, every n x 3 array of points',
     'Tests use a handful of two- and three-step histories and the default range; the guarantee quantifies over all histories, ranges and points.',
     ['blmath/geometry/transform/composite.py', 'blmath/numerics/vector_shortcuts.py'],
     [('matrix_for, __call__', 'composite.py'), ('append_transform4/3, scale, translate, reorient, rotate, convert_units', 'composite.py')],
     ['CompositeTransform.__call__', 'CompositeTransform.matrix_for', 'return values of the appending calls'],
     [('transforms', 'the sequence of appended forward and reverse matrices', 'composite.py')])

prop('C02', 'Reverse mode inverts a composite, for every history and range',
     'For any history of appended transforms and any selected range, applying a composite in reverse undoes applying it forward on the same range: the round trip gives the original points back, and the reverse matrix is the inverse of the forward matrix. '
     'The range is interpreted in the same way in both modes. '
     'When an appended matrix comes with an explicit reverse matrix, that matrix is the one used in reverse mode.',
     ['inputs', 'histories'], 'every history of invertible transforms, every range, all points',
     'One test covers a single four-step history and no ranges; an inverse that is right for commuting or single-step histories can be wrong for the rest.',
     ['blmath/geometry/transform/composite.py'],
     [('matrix_for(reverse=True)', 'composite.py'), ('reverse matrices built by each appending call', 'composite.py')],
     ['CompositeTransform.__call__(reverse=True)', 'CompositeTransform.matrix_for(reverse=True)'])

prop('C03', 'Coordinate frames are consistent between any two tagged states',
     'For any history of transforms and tags, moving points from one tagged state to another gives exactly the transforms appended between those states, in order, or undoes them when going back; so results do not depend on the route, and a later transform does not disturb frames already tagged, while tagging a name again moves it to the current state. '
     'Points or a mesh-like object set under a tag can be read under any tag; a mesh-like object comes back as a copy carrying its other attributes, and the original is not changed. '
     'A tag that does not exist is refused with an error when setting, reading or moving, and so is reading before anything is set.',
     ['inputs', 'histories'], 'every interleaving of transforms, tags, sets and reads',
     'Tests walk one history with three tags; the guarantee is about every interleaving, including retagging and reading after later appends.',
     ['blmath/geometry/transform/coordinate_manager.py', 'blmath/geometry/transform/composite.py'],
     [('tag_as, do_transform, __setattr__, __getattr__', 'coordinate_manager.py')],
     ['attribute reads and writes on CoordinateManager', 'CoordinateManager.do_transform'],
     [('tags_to_indices', 'tag name to stack length when last tagged', 'coordinate_manager.py'),
      ('points_or_mesh, points_tag', 'what was last set, and under which tag', 'coordinate_manager.py')])

prop('C04', "A polyline's derived geometry always matches its vertices and openness",
     'After any history of constructing, copying, assigning vertices, opening, closing, flipping, reindexing, partitioning and refused assignments, the edges, segments, segment vectors, segment lengths, total length, vertex count and dictionary form of a polyline are those of its current vertices and openness: n-1 consecutive edges when open, n edges with the last returning to vertex 0 when closed, and none when it has no vertices. '
     'An assignment that is not an array-like of 3D points is refused and leaves the polyline as it was; the edge array is read-only. '
     'A copy, or a polyline returned by reindexing, is independent of the original.',
     ['inputs', 'histories'], 'every history of mutations over a family of polylines and copies, any vertices',
     'Tests assert the edges after one or two mutations of a four-vertex polyline; staleness and aliasing show only in particular histories.',
     ['blmath/geometry/primitives/polyline.py', 'blmath/util/decorators.py', 'blmath/numerics/coercion.py'],
     [('_update_edges and the v and closed setters', 'polyline.py'), ('copy, reindexed, flip', 'polyline.py')],
     ['Polyline.e, segments, segment_vectors, segment_lengths, total_length, len, to_dict, repr'],
     [('v, closed, e', 'vertices, openness, derived edges', 'polyline.py')])

prop('C05', 'Subdividing, flipping and reindexing preserve the curve',
     'Partitioning a polyline by a maximum length keeps every original vertex in order, replaces each longer segment by the smallest number of equal pieces that are no longer than the maximum, leaves all other segments alone, keeps total length and openness, and returns the indices of the original vertices when asked. '
     'Reindexing a closed polyline rotates its vertices so the given one comes first, with an edge mapping whose i-th entry is the old index of new edge i, and an open polyline is refused; flipping reverses the vertex order. '
     'The segment partitioning functions return equally spaced points along the segment from first to second endpoint, of the documented count; partition_segment and partition_segment_old refuse counts that are not integers of at least two.',
     ['inputs'], 'all polylines, open and closed, with repeated points, and all maximum lengths, indices and counts',
     'Tests use the unit square and a few fixed lengths; counts of pieces and index bookkeeping depend on the relation of every segment to the maximum.',
     ['blmath/geometry/primitives/polyline.py', 'blmath/geometry/segment.py'],
     [('partition_by_length, reindexed, flip', 'polyline.py'), ('partition, partition_segment, partition_segment_old', 'segment.py')],
     ['Polyline.partition_by_length', 'Polyline.reindexed', 'Polyline.flip', 'segment.partition*'])

prop('C06', 'Polyline-plane intersection and cutting keep exactly the front part',
     'For a polyline and a plane with no vertex on the plane, the intersections are one point on the plane for each edge whose ends lie on opposite sides, in edge order, lying on that edge, together with the indices of those edges. '
     'Cutting an open polyline that crosses once, or a closed one that crosses twice, gives an open polyline made of exactly the part in front of the plane: the new endpoints lie on the plane, and all front vertices are kept once each in chain order. '
     'Any other number of crossings is refused with a ValueError, where a vertex exactly on the plane makes its edges cross there (and a closed polyline otherwise in front is refused too); the part returned is then the part in front of or on the plane. The polyline given is not changed.',
     ['inputs'], 'all polylines and planes in general position; where the sides are exact (axis planes) also touching ones',
     'Tests cut a few hand-made polylines by axis-aligned planes; the case analysis depends on which vertex is first, the direction of crossing and the orientation.',
     ['blmath/geometry/primitives/polyline.py', 'blmath/geometry/primitives/plane.py'],
     [('intersect_plane, cut_by_plane, _cut_by_plane_open, _cut_by_plane_closed', 'polyline.py')],
     ['Polyline.intersect_plane', 'Plane.polyline_xsection', 'Polyline.cut_by_plane'])

prop('C07', 'Planes: construction, signed distance, sides and projection agree',
     'A plane built from a point and normal, from three points, from two points and a vector, or fitted to points contains what defines it, has a unit normal of the documented orientation, and refuses a zero normal; its equation, reference point and canonical point describe the same plane, the canonical point being the one on the line through the origin along the normal. '
     'Signed distance is the distance along the normal, sign is its sign, distance its absolute value, points in front (or behind, when inverted) are those with non-negative (non-positive) sign in order, as points or indices, and the flipped plane contains the same points with the opposite normal. '
     'Projection moves a point along the normal onto the plane. No call changes its arguments, and a plane stays what it is whatever the caller later does to the arrays it passed or received.',
     ['inputs'], 'all points, normals and point sets in general position, any scale and orientation',
     'Tests use mostly axis-aligned planes and a few points; sign conventions and the reference-point arithmetic can be wrong only away from those.',
     ['blmath/geometry/primitives/plane.py'],
     [('__init__, from_points, from_points_and_vector, fit_from_points', 'plane.py'),
      ('equation, canonical_point, signed_distance, sign, points_in_front, project_point, flipped', 'plane.py')],
     ['the Plane API'])

prop('C08', 'Line and segment intersections with a plane are correct and batch agrees',
     'The intersection of a line with a plane is the point of the line that lies on the plane, and none when the line is parallel to it; the intersection with a segment is that point when the segment crosses the plane and none when both ends are strictly on the same side. '
     'The batch versions give, for each row, the same point and validity as the single versions, with NaN rows where there is no intersection. '
     'Arguments are not changed.',
     ['inputs'], 'all lines, segments and planes in general position, plus exactly parallel ones',
     'Tests use one or two lines per case; mixed batches of valid, parallel and out-of-range rows are where masks go wrong.',
     ['blmath/geometry/primitives/plane.py'],
     [('line_xsection, line_segment_xsection', 'plane.py'), ('line_xsections, line_segment_xsections', 'plane.py')],
     ['Plane.line_xsection(s)', 'Plane.line_segment_xsection(s)'])

prop('C09', 'Slicing a mesh yields every crossing exactly once, connected by faces',
     'For a triangle mesh in which an edge belongs to at most two faces and no two faces have the same corners, and a plane through none of its vertices, the cross section has one vertex for each mesh edge that crosses the plane, lying on that edge and on the plane, and consecutive vertices of each returned polyline are joined by a face that crosses the plane, each such face being used exactly once. '
     'There is one polyline per connected component, closed exactly when the component is a loop; nothing is returned when the plane misses the mesh. '
     'With a neighborhood, only the component whose mean vertex distance to it is smallest is returned, as it would be returned otherwise, and the backwards compatible single cross section joins the components in the same order into one closed polyline, empty when there is none. A component whose two ends lie at the same point (the mesh has a seam there) may come back closed, with that point once.',
     ['inputs'], 'all manifold meshes with and without boundary, any vertex and face numbering, all planes in general position',
     'Tests slice a box and two boxes; the path extraction depends on face order, winding, holes and the number of components.',
     ['blmath/geometry/primitives/plane.py'],
     [('mesh_xsections, mesh_xsection, mesh_intersecting_faces', 'plane.py'), ('EdgeMap, Graph.pop_euler_path', 'plane.py')],
     ['Plane.mesh_xsections', 'Plane.mesh_xsection', 'Plane.mesh_intersecting_faces'])

prop('C10', 'Unit conversion is consistent, class-safe and complete',
     'Within a class (length, weight, angle, time, time rate) factors follow the standard definitions of the units, so that any unit to itself is 1, there and back is 1, and going through a third unit makes no difference; converting values, lists, to defaults and to a unit system all use that factor, and give the units converted to. '
     'Conversion between classes, from a known unit to an unknown one or back, or with a required class that differs from that of the units (even of a unit to itself) is refused, also when the value is None; otherwise with no value there is no result, and with no units at all the value passes through. '
     'The catalogue lists each unit under exactly its class, default units follow the unit system with exceptions overriding, and prettifying rounds the value in both systems to the documented increments.',
     ['inputs', 'configurations'], 'all ordered triples of units, all values, both unit systems and any exceptions',
     'Tests spot-check a dozen conversions out of about 1500 pairs; each pair has its own factor and each default its own rounding.',
     ['blmath/units.py', 'blmath/numerics/rounding.py'],
     [('factor, convert, convert_list, convert_to_default, convert_to_system_default, prettify', 'units.py'),
      ('the table of units and defaults', 'units.py')],
     ['the functions of blmath.units'],
     [('_units, _default_units', 'class and factor of each unit; default unit per class and system', 'units.py')])

prop('C11', 'Arithmetic and comparison of values with units are unit-safe',
     'Adding, subtracting, comparing or dividing two values converts the second to the units of the first, so any result equals the same computation in one common unit, and is refused with an error when the units are of different classes; plain numbers are taken to be in the units of the value, a ratio of two values is unitless, and a product of two values, a remainder, a power, and a number divided by a value are refused. '
     'Results carry the units of the value operated on and operations never change their operands; reading a value as another unit, converting it, and converting to a system default agree with the conversion factor. '
     'Negation, absolute value, rounding, truth, float and int conversion, indexing and prettifying reflect the current number and units after any reassignment, and a missing number or an unknown unit is refused at construction.',
     ['inputs', 'histories'], 'all pairs of values and units, all operators in both operand orders, any history of reassignments',
     'Tests exercise each operator on one or two pairs of units; the unit of the result and the direction of conversion differ per operator and order.',
     ['blmath/value.py', 'blmath/units.py'],
     [('operators, _comparable, convert, __getattr__', 'value.py')],
     ['the Value API'], [('value, units', 'the number and its units', 'value.py')])

prop('C12', 'JSON encoding gives back the same values, arrays and sparse matrices',
     'Dumping any nesting of lists, dictionaries, plain data and values with units and loading it again, through strings or files, gives an equal structure in which each value has the same number and units. '
     'An annotated array decodes to an array of the annotated numbers, shape and type, 64-bit floats by default; an annotated sparse matrix decodes to the matrix of the annotated shape, type and format whose entries are the listed ones, duplicates added, and remains a dictionary when any part of the annotation is missing. '
     'Dictionaries without annotations are left alone.',
     ['inputs'], 'all nestings of plain data and values, all arrays and sparse matrices, all subsets of annotation keys',
     'Tests round-trip one value and decode one array and one matrix.',
     ['blmath/util/json.py', 'blmath/value.py'],
     [('decode_json, dump, load, dumps, loads', 'util/json.py'), ('for_json, from_json', 'value.py')],
     ['blmath.util.json.dumps/loads/dump/load'])

prop('C13', 'Array coercion accepts exactly numeric inputs of the requested shape',
     'Coercion returns an array holding the numbers given, of the requested type, when the input is array-like, consists of finite real numbers and fits the requested shape directly or transposed (a wildcard matches any size), and otherwise raises ValueError; None, and an empty array when so requested, become None only where None is allowed. '
     'The numeric predicates accept exactly finite real numbers and arrays of them, rejecting booleans, text, complex numbers, NaN and infinities, and each accepted input is a scalar or an array but not both. '
     'The emptiness predicate holds exactly for None, and for lists, tuples and arrays without elements.',
     ['inputs', 'configurations'], 'all inputs of built-in and numpy types (Decimal and Fraction included; a list that mixes booleans with numbers is not decided), all shape patterns and flags',
     'Tests list about thirty inputs for one shape; the decision depends on kind, shape pattern, and two flags together.',
     ['blmath/numerics/coercion.py', 'blmath/numerics/predicates.py'],
     [('as_numeric_array', 'coercion.py'), ('isnumeric, isnumericscalar, isnumericarray, is_empty_arraylike', 'predicates.py')],
     ['as_numeric_array', 'the predicates'])

prop('C14', 'Vector shortcuts obey their geometric definitions, stacked or not',
     'Normalizing gives the parallel unit vector; scalar projection, vector projection and rejection split a vector into parts along and perpendicular to any non-zero vector, whatever its length; magnitude is the length; and each of them, given stacked vectors (and one vector to project onto), gives what it gives for each row. '
     'The angle lies between 0 and 180 degrees and the signed angle is that angle, negative exactly when the cross product of the two vectors points against the look vector; the almost-zero and almost-collinear tests compare the components, and the length of the cross product, with the tolerance given. '
     'Padding and unpadding with ones, applying a homogeneous transform, removing an axis (zeroed or dropped) and the basis vectors do what they say, refuse other shapes (unpadding: also a last column that is not ones) and change no argument.',
     ['inputs'], 'all vectors and stacks, dimensions, axes and tolerances',
     'Tests check each function on one vector and one stack.',
     ['blmath/numerics/vector_shortcuts.py'],
     [('normalize, sproj, proj, reject, reject_axis, magnitude, angle, signed_angle', 'vector_shortcuts.py'),
      ('almost_zero, almost_collinear, pad_with_ones, unpad, apply_homogeneous, basis', 'vector_shortcuts.py')],
     ['blmath.numerics.vx'])

prop('C15', 'Rotation constructions give the rotation they describe',
     'The rotation from up and look is the proper rotation that takes up to the positive y axis and look into the half of the y-z plane with positive z, and zero or collinear vectors are refused; Euler angles, in degrees or radians, compose right-handed rotations about the named axes in the order named. '
     'A rotation vector gives the right-handed rotation about it by its length, a rotation matrix gives back a rotation vector of length at most pi that reproduces it, and the derivatives returned with either are the derivatives of the map. '
     'Rotating points to the x-z plane returns a proper rotation, the centring translation when one was needed, and the centred points rotated by it, with the given or estimated normal taken to the y axis.',
     ['inputs', 'configurations'], 'all vectors, axis orders, angles, rotation matrices and planar point sets in general position',
     'Tests check two or three rotations by hand.',
     ['blmath/geometry/transform/rotation.py', 'blmath/geometry/transform/rodrigues.py', 'blmath/geometry/transform/translation.py'],
     [('rotation_from_up_and_look, euler, rotate_to_xz_plane, estimate_normal', 'rotation.py'), ('rodrigues, as_rotation_matrix', 'rodrigues.py')],
     ['the functions of blmath.geometry.transform.rotation and .rodrigues', 'translation'])

prop('C16', 'Rigid alignment recovers the motion between two point sets',
     'When the second point set is a rotation and translation of the first, and the points span at least a plane, the rotation and translation found map the first onto the second and the rotation is proper; for the rotation-only problem likewise, for a single pair of points, and with scaling the scale factor is recovered too. '
     'For noisy data the rotation found, if one is, is proper and no worse in the least-squares sense than any other proper rotation about the centroids (about the origin, for the rotation-only problem), and the rigid transform refuses only data that a reflection fits better. '
     'Points may be given as rows or columns for the rigid transform (three points as columns), and the arguments are not changed.',
     ['inputs'], 'all point sets of full or planar rank, all rotations, translations and scales',
     'Tests use one point set with a fixed rotation; reflections, planar sets and orientation of the arrays are separate cases.',
     ['blmath/geometry/transform/rigid_transform.py'],
     [('find_rigid_transform, find_rigid_rotation', 'rigid_transform.py')],
     ['find_rigid_transform', 'find_rigid_rotation'])

prop('C17', 'Orthogonalization and change of basis keep their defining relations',
     'Orthogonalizing independent row vectors gives pairwise orthogonal vectors, each differing from the original by a combination of the preceding ones; orthonormalizing additionally makes exactly the selected rows unit length, all of them by default, and the argument is not changed. '
     'The isomorphism of two bases is the matrix whose columns express the second basis in the first, and it refuses bases of different size and linearly dependent bases. '
     'These hold in every dimension.',
     ['inputs'], 'all sets of independent vectors, all index selections, all pairs of bases including dependent ones',
     'Tests use three fixed vectors and one pair of 2D bases.',
     ['blmath/numerics/linalg/gram_schmidt.py', 'blmath/numerics/linalg/isomorphism.py'],
     [('orthogonalize, orthonormalize', 'gram_schmidt.py'), ('isomorphism', 'isomorphism.py')],
     ['orthogonalize', 'orthonormalize', 'isomorphism'])

prop('C18', 'Line-line intersections and barycentric coordinates are exact solutions',
     'The intersection of two non-parallel lines in the plane lies on both, and is NaN for lines that are parallel up to the rounding of their coordinates; in space, for two lines in a common plane, the intersection lies on both lines however each line is parametrised, and there is none for parallel or coincident lines unless a given point is shared. '
     'Barycentric coordinates of a projected point sum to one and reproduce the orthogonal projection of the point onto the plane of the triangle, for one point or for stacks of points and triangles alike. '
     'Arguments are not changed.',
     ['inputs'], 'all pairs of intersecting or parallel lines, all points and non-degenerate triangles',
     'Tests use four line pairs and one triangle; which of the two directions to walk depends on the sign of a product of crosses.',
     ['blmath/geometry/segment.py', 'blmath/geometry/barycentric.py'],
     [('line_intersect, line_intersect3', 'segment.py'), ('barycentric_coordinates_of_projection', 'barycentric.py')],
     ['line_intersect', 'line_intersect3', 'barycentric_coordinates_of_projection'])

prop('C19', 'Extremal queries and boxes return true extremes and consistent measures',
     'The apex in a direction is the first of the given points with the largest component in that direction; the farthest point is the first at the largest distance, with its index; inflection points are the vertices after which the second finite difference of height over span changes sign or is zero, in order. '
     "A box's ranges, minima, maxima, midpoints, centre, floor point, extents, volume and surface area are those of the axis-aligned cuboid with the given origin and extents, and negative extents or malformed arguments are refused. "
     'Arguments are not changed.',
     ['inputs'], 'all point sets, directions and boxes',
     'Tests use a few points and a single box.',
     ['blmath/geometry/apex.py', 'blmath/geometry/primitives/box.py', 'blmath/geometry/primitives/polyline.py'],
     [('apex, farthest, inflection_points', 'apex.py'), ('Box', 'box.py')],
     ['apex', 'farthest', 'inflection_points', 'Polyline.apex', 'the Box API'])

prop('C20', 'Convexifying a planar curve gives its convex hull',
     'For a planar curve in general position, convexifying returns vertices of the curve, each once and in cyclic order, whose convex polygon contains every vertex of the curve, keeps openness, and returns the indices of the chosen vertices when asked. '
     'With flattening, the result is the hull of the curve flattened onto its plane, in place. '
     'A curve of at most one vertex is returned as it is and the curve given is not changed.',
     ['inputs'], 'all planar curves in general position, any orientation of the plane, given or estimated normal',
     'Tests convexify one curve in one plane; the choice of dropped dimension depends on the orientation of the plane.',
     ['blmath/geometry/convexify.py', 'blmath/geometry/transform/rotation.py'],
     [('convexify_planar_curve, convexify_and_flatten_planar_curve', 'convexify.py')],
     ['convexify_planar_curve'])

prop('C21', 'Sparse factorization and block-sparse products equal their dense meaning',
     'For a sparse symmetric positive definite matrix A, the factorization returns a lower triangular L with positive diagonal, a permutation matrix S and the code 0, such that the permuted matrix S^T A S equals L L^T; for a matrix that is not positive definite the code is one more than the number of leading rows and columns of the permuted matrix that could be factored, and L is the factor of these; the matrix given is not changed. '
     'A block-sparse matrix splits rows and columns into sparse and dense ones as told or by the density threshold, and its products with vectors, with matrices and with its own transpose equal those of the matrix it was made from. '
     'The conjugate gradient solvers return a solution of the positive definite system they are given; the block-sparse one also takes systems with rows and columns that are zero throughout, where the right-hand side is zero too.',
     ['inputs', 'configurations'], 'all sparse matrices, all splits into sparse and dense rows and columns',
     'The single factorization test needs a missing data file and fails; nothing tests the block-sparse matrix.',
     ['blmath/numerics/linalg/lchol.py', 'blmath/numerics/linalg/cholmod.c', 'blmath/numerics/linalg/static_block_sparse_matrix.py', 'blmath/numerics/linalg/sparse_cg.py'],
     [('lchol', 'lchol.py'), ('cholmod_lchol_c', 'cholmod.c'), ('StaticBlockSparseMatrix', 'static_block_sparse_matrix.py'), ('block_sparse_cg_solve', 'sparse_cg.py')],
     ['lchol', 'StaticBlockSparseMatrix', 'block_sparse_cg_solve'])

prop('C22', 'Created solids and surface normals are oriented and placed as asked',
     'A created rectangular prism or cube has its eight corners at the origin plus every combination of the given extents, and a triangular prism (on a base triangle the library does not take for degenerate: twice its area above 1e-8) its base at the given points and its top displaced by the height against their counterclockwise normal; their faces form a closed surface, consistently oriented, in which every edge is shared by exactly two faces, enclosing the volume of the solid. '
     'The flattened form lists the corner coordinates of the same faces; the horizontal plane is a unit rhombus that faces up. '
     'The surface normal of each triangle, single or stacked, is perpendicular to it with the right-hand orientation, of unit length or of twice the area when not normalized.',
     ['inputs'], 'all origins, extents, base triangles and heights, and all stacks of triangles',
     'The solids have no test that runs without the lace package; normals are tested on two triangles.',
     ['blmath/geometry/shapes.py', 'blmath/geometry/surface_normals.py'],
     [('create_rectangular_prism, create_cube, create_triangular_prism, create_horizontal_plane', 'shapes.py'), ('surface_normal', 'surface_normals.py')],
     ['the functions of blmath.geometry.shapes and .surface_normals'])

prop('C23', 'Rounding, scaling and array helpers return what they promise',
     'Rounding to an increment gives a multiple of the increment no farther from the value than half of it, the closest floating-point number when the increment is a unit fraction (3.9, not 3.9000000000000004); list rounding rounds each item to the given number of decimals and keeps missing ones; division guarded against zero is ordinary division wherever that is finite and the default value elsewhere. '
     'Scaling to a range maps an array affinely so that its minimum and maximum become the ends of the range; translating by the default factor centres points at the origin and returns the factor used. '
     'Safe reshaping returns a view with the same elements or fails without copying, row and column helpers keep the elements, the sparse helper builds the matrix of the listed entries, a binary operation is spread over single rows and columns, and making arrays read-only prevents writing to each array given.',
     ['inputs'], 'all numbers, increments, arrays, shapes and memory layouts',
     'Tests cover six roundings and one division.',
     ['blmath/numerics/rounding.py', 'blmath/numerics/operations.py', 'blmath/numerics/numpy_ext.py', 'blmath/numerics/matlab.py', 'blmath/geometry/transform/translation.py'],
     [('round_to, rounded_list', 'rounding.py'), ('scale_to_range, zero_safe_divide', 'operations.py'), ('np_reshape_safe, np_make_readonly', 'numpy_ext.py'), ('row, col, sparse, bsxfun', 'matlab.py'), ('translation', 'translation.py')],
     ['the functions named'])

prop('C24', 'Console input repeats until it has a number, then returns exactly it',
     'Reading a float from the console shows the given prompt again after each line that is not a number, and returns the first number entered; an empty line repeats the prompt unless empty input is allowed, in which case it returns nothing. '
     'Reading a value shows its label and units, and returns the number entered with those units, or nothing for an allowed empty line. '
     'No more input is consumed than the line that is accepted.',
     ['inputs', 'histories'], 'every sequence of lines a user may type, every label and unit',
     'No test exercises the console.',
     ['blmath/console.py', 'blmath/value.py'],
     [('input_float, input_value', 'console.py')],
     ['input_float', 'input_value'])

prop('C25', 'Normal objectives compute mesh normals and their derivatives',
     'Triangle normals, their scaled form, triangle edges and vertex normals computed for optimization are those of the mesh: edges are differences of the named corners, scaled normals are cross products of two edges, and normalized ones are parallel to these with unit length. '
     'Vertex normals are parallel to the sum of the scaled normals of the adjoining faces, of unit length or, when asked, of the square root of the length of their mean. '
     'The derivatives with respect to the vertices, or to either factor of a cross product, are the derivatives of these maps. '
     'All of this holds after any sequence of changes to vertices, faces, factors and settings, whatever was read before.',
     ['inputs', 'histories'], 'all meshes without degenerate triangles, any vertices',
     'The module has no tests.',
     ['blmath/optimization/objectives/normals.py'],
     [('NormalizedNx3, VertNormals, TriNormals, TriNormalsScaled, TriEdges, CrossProduct', 'normals.py')],
     ['the classes and functions named'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
