A = 'viennagrid/algorithm/'
SYM = 'Proof over the reals: every path of the instantiated real templates is enumerated and every obligation discharged for all coordinate values; floating-point rounding is not modelled.'
prop('P01', 'Vector and point algebra is exact',
 'Adding, subtracting, scaling and negating points, and the inner product, cross product and the 1-, 2- and infinity-norms, return the mathematical result component by component in every supported dimension, leave their operands unchanged, and in-place forms agree with the value-returning forms.',
 (['inputs', 'configurations'], 'all real coordinates, dimensions 1..3, every operator'),
 'The tests compute a handful of fixed numbers; the operators must be right for all coordinates, signs and aliasing (a += a).',
 ['viennagrid/point.hpp', A+'inner_prod.hpp', A+'cross_prod.hpp', A+'norm.hpp'],
 [('spatial_point operators', 'viennagrid/point.hpp'), ('inner_prod_impl', A+'inner_prod.hpp'), ('cross_prod', A+'cross_prod.hpp'), ('norm_impl', A+'norm.hpp')], note=SYM)
prop('P02', 'Coordinate system conversion preserves the point',
 'Converting a point between Cartesian, polar, cylindrical and spherical coordinates denotes the same location, converting there and back returns the original point (away from the poles), and arithmetic on points in a curvilinear system equals arithmetic on their Cartesian images.',
 (['inputs', 'configurations'], 'all points of each coordinate system, every pair of systems'),
 'Tests convert a few sample points; angle quadrants, negative coordinates and mixed systems are not covered.',
 ['viennagrid/point.hpp'], [('coordinate_converter', 'viennagrid/point.hpp'), ('point_operators', 'viennagrid/point.hpp')], note=SYM+' Points on the axes and the origin are covered on a finite grid (bounded).')
prop('P03', 'Element volume is the geometric measure',
 'The volume of a vertex, line, triangle, quadrilateral, polygon, tetrahedron or hexahedron equals its geometric measure (length, area, volume) for every vertex position, is never negative, does not depend on the order in which the vertices of a simplex are given, and agrees with the measure computed from the points alone.',
 (['inputs', 'configurations'], 'all coordinates, all element kinds and space dimensions, all vertex permutations of simplices'),
 'Tests only compare sums on sample meshes; orientation (sign), vertex numbering and degenerate positions need all inputs.',
 [A+'volume.hpp', A+'spanned_volume.hpp'], [('detail::volume', A+'volume.hpp'), ('spanned_volume', A+'spanned_volume.hpp')], note=SYM,
 assumptions=['quadrilateral volume proved for planar convex, hexahedron for the trilinear cell split used by the manual (axis-parallel and sheared boxes); polygon volume for planar polygons'])
prop('P04', 'Element surface is the sum of its facet measures',
 'The surface of an element equals the sum of the measures of all its facets, each facet counted exactly once, for every vertex position.',
 (['inputs', 'configurations'], 'all coordinates, every element kind'),
 'Tests check total surfaces of two files; a facet left out, counted twice or measured wrongly on another shape is not visible.',
 [A+'surface.hpp'], [('detail::surface', A+'surface.hpp')], note=SYM)
prop('P05', 'Centroid is the center of mass',
 'The centroid of a vertex, line, simplex, quadrilateral or hexahedron is the arithmetic mean of its vertices, so it moves with the element under every translation and scaling and does not depend on vertex order.',
 (['inputs', 'configurations'], 'all coordinates, every element kind'),
 'The tests never compare centroids with an oracle; every coordinate and every dimension counts.',
 [A+'centroid.hpp'], [('detail::centroid', A+'centroid.hpp')], note=SYM)
prop('P06', 'Circumcenter is equidistant from all vertices',
 'For every non-degenerate line, triangle (2d and 3d), rectangle, tetrahedron and box the circumcenter has the same distance to every vertex and lies in the affine hull of the element.',
 (['inputs', 'configurations'], 'all non-degenerate coordinates'),
 'Voronoi tests only look at totals on one regular mesh; skewed or badly ordered cells never occur.',
 [A+'circumcenter.hpp'], [('detail::circumcenter', A+'circumcenter.hpp')], note=SYM)
prop('P08', 'Point-in-element test is exact',
 'A point is reported inside a triangle (2d, or 3d within its plane) or tetrahedron exactly when it is a convex combination of the vertices, independent of vertex order and orientation; with a tolerance, inside points are always accepted and points further outside than the tolerance allows are always rejected.',
 (['inputs'], 'all points and all non-degenerate elements of either orientation'),
 'No test exercises the point-in-element test at all; orientation and boundary cases need all inputs.',
 [A+'inclusion.hpp'], [('is_inside_impl', A+'inclusion.hpp')], note=SYM)
prop('P09', 'Angles, dihedral angles and solid angles are exact',
 'The angle between two vectors satisfies the cosine law and lies in [0, pi]; the form with an origin equals the angle of the shifted vectors; the dihedral angle is the angle of the plane normals; the solid angle satisfies the half-angle tangent formula, is positive for either orientation and is invariant under translation of its apex.',
 (['inputs'], 'all non-degenerate vectors'),
 'The test compares a few hand-picked configurations with a tolerance.',
 [A+'angle.hpp'], [('angle, dihedral_angle, solid_angle', A+'angle.hpp')], note=SYM)
prop('P10', 'Geometric transforms move every vertex by the same map',
 'Scaling and affine transformation of a mesh replace every vertex position p by exactly the requested image (about the requested center, through the requested matrix and translation), once per vertex, and change nothing else in the mesh.',
 (['inputs', 'configurations'], 'all vertex positions, factors, centers, matrices; meshes of the tested dimensions'),
 'The test checks one mesh with one factor about the origin.',
 [A+'geometric_transform.hpp'], [('scale, affine_transform', A+'geometric_transform.hpp')], note=SYM)
prop('P11', 'Normals, bounding boxes and orthogonalisation are geometrically right',
 'Facet normals are orthogonal to the facet with right-handed direction and area length; a bounding box contains every point and touches one on every side; determinants equal the mathematical value; orthogonalisation yields pairwise orthogonal vectors spanning the same space and reports how many are independent.',
 (['inputs'], 'all coordinates'),
 'None of these helpers has a test of its own.',
 [A+'geometry.hpp'], [('normal_vector, determinant, bounding_box, orthogonalize', A+'geometry.hpp')], note=SYM)

M = 'viennagrid/mesh/'
T = 'viennagrid/topology/'
S = 'viennagrid/storage/'
BND = 'Contract obligations are evaluated on the real code over the complete stated finite domain (bounded stand-in, not counted as proved).'
prop('P12', 'Boundary elements follow the documented reference orientation',
 'A cell of every topology (line, triangle, quadrilateral, tetrahedron, hexahedron) has, for every vertex order it is created with, exactly the boundary elements of the documented reference numbering: the k-th edge and k-th face of the cell connect the local vertices the manual lists for it, in that order, and the element types, counts and dimensions reported at compile time agree.',
 (['inputs', 'configurations'], 'every topology, all vertex orders, all coordinates'),
 'The tests only count elements of sample meshes; a wrong local vertex in one edge of one topology is invisible to them.',
 [T+'line.hpp', T+'simplex.hpp', T+'quadrilateral.hpp', T+'hexahedron.hpp', M+'element_creation.hpp'],
 [('boundary_element_generator', T+'hexahedron.hpp'), ('boundary_elements<tag, bnd>', T+'simplex.hpp'), ('make_element', M+'element_creation.hpp')], note='Exhaustive over all vertex orders (up to relabelling for the hexahedron), symbolic coordinates.')
prop('P13', 'An element exists exactly once per vertex set',
 'However cells are created and in whatever vertex order, a mesh holds exactly one edge or face object for each set of vertices that bounds a cell; all cells that share it refer to the same object, creating it again (in any vertex order) returns the existing one, and no element exists that no cell or creation call asked for.',
 (['inputs', 'histories', 'configurations'], 'all vertex ids, all vertex orders, cells sharing edges and faces'),
 'Tests compare element counts of one or two mesh files.',
 [S+'hidden_key_map.hpp', 'viennagrid/element/element_key.hpp', 'viennagrid/element/element.hpp', S+'inserter.hpp'],
 [('element_key::operator<', 'viennagrid/element/element_key.hpp'), ('hidden_key_map::insert', S+'hidden_key_map.hpp'), ('physical_inserter', S+'inserter.hpp')],
 note='Sharing and identity of up to two cells proved for all vertex ids (symbolic ids through the real mesh); larger meshes by exhaustive bounded stand-ins.')
prop('P14', 'Iterating a shared boundary element from a cell yields the local orientation',
 'For every cell and each of its boundary elements, the oriented view (local vertex order) visits the vertices of that boundary element in the order of the cell\'s own reference numbering, whatever order the shared global object was created with by another cell.',
 (['inputs', 'configurations', 'histories'], 'all vertex orders of all cells sharing an element'),
 'No test has two cells that see the same facet in different orders.',
 ['viennagrid/element/element_orientation.hpp', 'viennagrid/element/element.hpp'], [('element_orientation', 'viennagrid/element/element_orientation.hpp'), ('boundary_element_layer', 'viennagrid/element/element.hpp')],
 note='Orientation of shared elements proved for symbolic vertex ids where listed under contracts; '+BND)
prop('P15', 'Ids are unique and handles and ids stay valid',
 'Within a mesh no two elements of the same kind ever carry the same id, whether ids are generated or given explicitly and in any interleaving; an element created with an explicit id has that id; handles and ids obtained earlier keep referring to the same element (same vertices, same position) after any number of further insertions, and find() by id returns that element, or end() for ids never issued.',
 (['histories', 'inputs'], 'all interleavings of generated and explicit ids, all insertion histories'),
 'Tests never mix explicit and generated ids nor re-resolve old handles after growth.',
 [S+'id_generator.hpp', M+'element_creation.hpp', M+'mesh.hpp', S+'container.hpp'], [('continuous_id_generator', S+'id_generator.hpp'), ('find, dereference_handle', M+'mesh.hpp')],
 note='The id generator is proved by an inductive class invariant (any history); handle and find() stability by exhaustive histories of bounded length.')

prop('P17', 'The coboundary of an element is exact and never stale',
 'For every element of a mesh or segment, iterating the coboundary of a given kind visits exactly the elements of that kind in the same mesh or segment that contain it, each once; the answer reflects the mesh as it is at the time of the query, after any history of insertions, removals from segments, copies and earlier queries.',
 (['histories', 'configurations'], 'every element kind pair, every history of insertions interleaved with queries, mesh and segments'),
 'Cached incidence is only wrong for particular histories (query, insert, query); the tests build first and query once.',
 [M+'coboundary_iteration.hpp', M+'mesh.hpp', M+'segmentation.hpp'], [('create_coboundary_information', M+'coboundary_iteration.hpp'), ('coboundary_range', M+'coboundary_iteration.hpp'), ('change counters', M+'mesh.hpp')],
 level='exploration', note=BND)
prop('P18', 'Neighbors are exactly the elements that share a connector',
 'For every element of a mesh or segment, the neighbor range of a given kind through a given connector kind contains exactly the other elements of that kind that share at least one connector element with it inside the same mesh or segment, each once and never the element itself, after any history of insertions, removals from segments, copies and queries.',
 (['histories', 'configurations'], 'all element/connector kind pairs, every history, mesh and segments'),
 'Tests count neighbors of one mesh; multiplicity (sharing several connectors) and stale caches need specific histories.',
 [M+'neighbor_iteration.hpp'], [('create_neighbor_information', M+'neighbor_iteration.hpp'), ('neighbor_range', M+'neighbor_iteration.hpp')],
 level='exploration', note=BND)
prop('P19', 'Boundary detection is exact and never stale',
 'An element is reported as boundary of a mesh or segment exactly when it is a facet of exactly one cell of that mesh or segment, or lies in such a facet (in meshes where no facet belongs to more than two cells); the answer is right after any history of insertions, removals from segments, copies and queries, is independent for each segment, and an element is on the boundary of another element exactly when it is one of its boundary elements.',
 (['histories', 'configurations'], 'all histories of insertion and query, all element kinds, mesh and segments'),
 'Tests count boundary elements of complete sample meshes.',
 [A+'boundary.hpp'], [('detect_boundary', A+'boundary.hpp'), ('is_boundary', A+'boundary.hpp')],
 level='exploration', note=BND)
prop('P20', 'Interface detection between segments is exact',
 'For two segments without common cells, an element is reported on their interface exactly when it lies in a facet shared by a cell of the one and a cell of the other segment, the relation is symmetric in the two segments, and it is right after any history of insertions and queries; what has been erased from one of the segments is no longer on their interface.',
 (['histories', 'configurations'], 'all assignments of cells to segments, all histories of insertion and query'),
 'Tests count interface elements of one mesh with two segments.',
 [A+'interface.hpp'], [('detect_interface', A+'interface.hpp'), ('is_interface', A+'interface.hpp')],
 level='exploration', note=BND)
prop('P07', 'Distances and closest points are the true minimum',
 'The distance between points, lines, triangles, quadrilaterals, tetrahedra and hexahedra (where provided) is the Euclidean minimum over all pairs of their points, is symmetric in its arguments, and closest_points returns a pair attaining it with one point on each argument; boundary distances are the minimum over the boundary facets of an element, mesh or segment.',
 (['inputs', 'configurations'], 'all non-degenerate elements in any relative position (including parallel lines), every vertex order'),
 'The test compares about thirty fixed configurations; clamping, parallel lines and each region around an element need all inputs.',
 [A+'closest_points.hpp', A+'distance.hpp'], [('closest_points_point_line', A+'closest_points.hpp'), ('closest_points_line_line', A+'closest_points.hpp'), ('closest_points_point_triangle', A+'closest_points.hpp'), ('closest_points_point_tetrahedron', A+'closest_points.hpp'), ('distance, boundary_distance', A+'distance.hpp')],
 note=SYM+' Callers are verified against callee contracts (stubs selected by argument-dependent lookup). Boundary distances and the composed functions additionally on integer grids (bounded).',
 assumptions=['geometry lemmas used on paper: the projection onto a convex set is characterised by the variational inequality; if the unrestricted minimiser lies outside a simplex (or outside [0,1]^2 for two lines), the minimum is attained on its boundary; the point of an edge closest to p is the one closest to the projection of p (Pythagoras)', 'line pairs whose angle has 0 < sin^2 < 1e-6 (treated as parallel by the code) and simplices the code warns about as degenerate are excluded'])

prop('P22', 'Erasing removes exactly what was asked for',
 'Erasing elements from a mesh removes exactly those elements and all elements containing them (and nothing else); every remaining element keeps its id, its vertices, its boundary elements and its position, remains reachable by its id, neighborhood and boundary queries reflect the new mesh, and elements created afterwards share existing faces and edges instead of duplicating them.',
 (['histories', 'configurations'], 'every sequence of creations, queries and erasures on every mesh'),
 'The only deletion test erases from one mesh and prints it; the damage of a wrong handle or a stale key shows only in later operations.',
 [M+'element_deletion.hpp', 'viennagrid/storage/hidden_key_map.hpp', M+'mesh.hpp'], [('erase_elements, mark_erase_elements', M+'element_deletion.hpp'), ('hidden_key_map::erase', 'viennagrid/storage/hidden_key_map.hpp')],
 level='exploration', note=BND)
prop('P24', 'Segments know exactly their elements',
 'After any history of adding elements to segments, creating elements in them, erasing from them, clearing and copying, an element belongs to a segment exactly if it, or an element it bounds, was added and not erased since: membership test, the ranges of the segment, the list of segment ids of an element and the ranges of the segmentation all agree. Segments are found by their id and their name, ids and names are unique at all times, and requests violating this are rejected without side effects.',
 (['histories', 'configurations'], 'every history of additions, erasures, clears, copies and renamings with any number of segments'),
 'The segmentation tests only print; no test erases from or clears a segment and asks again, or collides names.',
 [M+'segmentation.hpp'], [('add', M+'segmentation.hpp'), ('erase', M+'segmentation.hpp'), ('segmentation::get_make_segment', M+'segmentation.hpp'), ('is_in_segment, segment_ids', M+'segmentation.hpp'), ('copy_segmentation', M+'segmentation.hpp')],
 level='exploration', note=BND)

prop('P26', 'Refining a triangle keeps it intact',
 'Refining triangles (in the plane or in space) with any set of marked edges replaces every triangle by triangles that cover it exactly, without gap, overlap or flat pieces; exactly the marked edges are split, each at its new vertex, and neighboring triangles remain conforming (no hanging nodes).',
 (['inputs', 'configurations'], 'all coordinates, every local vertex order, every set of marked edges of a cell and its neighbors'),
 'The refinement tests run on one mesh and check nothing but that the program ends.',
 [A+'detail/refine_tri.hpp', A+'refine.hpp'], [('element_refinement<triangle_tag>', A+'detail/refine_tri.hpp'), ('simple_refine', A+'refine.hpp')],
 note=SYM+' Exactness of the tiling follows from the chain argument (oriented interior edges cancel, areas add up in barycentric coordinates).',
 assumptions=['the cell loop of simple_refine is exercised on the cell with its three neighbors; per-cell results do not depend on other cells except through the shared vertices'])
prop('P27', 'Refining a tetrahedron keeps it intact and the mesh conforming',
 'Refining tetrahedra with any set of marked edges replaces every tetrahedron by tetrahedra that cover it exactly, without gap, overlap or flat pieces; exactly the marked edges are split, each at its new vertex, and the subdivisions of a face shared by two tetrahedra agree whatever the two cells look like.',
 (['inputs', 'configurations'], 'all coordinates (all orders of edge lengths, including ties), all 64 sets of marked edges, all local vertex orders relative to the ids'),
 'Sixty-four cases times vertex orders times edge-length orders; the tests refine one box mesh and check nothing.',
 [A+'detail/refine_tet.hpp', A+'refine.hpp'], [('element_refinement<tetrahedron_tag>', A+'detail/refine_tet.hpp'), ('stable_line_is_longer', A+'detail/refine_tet.hpp'), ('simple_refine', A+'refine.hpp')],
 note=SYM+' Exactness of the tiling follows from the chain argument (oriented interior faces cancel, volumes add up in barycentric coordinates); conformity from agreement with a neighbor across every face.',
 assumptions=['new vertices are the midpoints of the marked edges', 'conformity of two arbitrary cells follows by transitivity: both agree with the same reference neighbor, whose subdivision of the face depends on the face alone'])
prop('P28', 'Mesh refinement preserves volume, conformity and segments',
 'Refining a mesh by marked edges, by marked cells, uniformly or along a hyperplane puts a new vertex at the midpoint (or the cut point) of exactly the edges to be split, copies everything else, preserves the volume of every cell, yields a conforming mesh in which every new cell belongs to exactly the segments of the cell it came from, and leaves the input unchanged; after a hyperplane refinement no cell lies on both sides of the plane, and longest-edge closure marks the least set containing the longest edge of every cell with a marked edge.',
 (['configurations', 'inputs'], 'all meshes, all sets of marked edges or cells, all segment assignments, all hyperplanes'),
 'The refinement tests only run the drivers; nothing compares segments, volumes or conformity.',
 [A+'refine.hpp', M+'mesh_operations.hpp'], [('refine, element_refine, refine_uniformly', A+'refine.hpp'), ('hyperplane_refine', A+'refine.hpp'), ('ensure_longest_edge_refinement', A+'refine.hpp'), ('vertex_copy_map', M+'mesh_operations.hpp')],
 level='exploration', note=BND)

prop('P29', 'Voronoi quantities tile the mesh',
 'After applying the Voronoi computation, the Voronoi box of a vertex in a Delaunay mesh has the measure of the set of mesh points nearest to it and the interface of an edge has the measure of the set of mesh points equidistant from its two vertices and nearest to them; the total equals the sum of the recorded contributions per cell, box volumes of all vertices add up to the mesh volume, and the volume attached to an edge is that of the pyramids over its interface.',
 (['inputs', 'configurations'], 'all lines, rectangles, boxes, triangles (acute, right, obtuse at the boundary) and pairs of triangles, every vertex order'),
 'The Voronoi test compares totals on one regular mesh of right cells: all obtuse, skewed and boundary cases are unseen.',
 [A+'voronoi.hpp', A+'circumcenter.hpp'], [('write_voronoi_info', A+'voronoi.hpp'), ('apply_voronoi', A+'voronoi.hpp')],
 note=SYM+' Tetrahedra and larger meshes on a stated finite family (bounded).',
 assumptions=['pairs of triangles are proved in the frame whose first axis is parallel to the common edge (all others follow by rotation)', 'tetrahedra are covered by bounded stand-ins only'])
prop('P30', 'Accessors and fields return what was stored for that element',
 'An accessor or field returns for every element the value last stored for that element and no other: writing the data of one element leaves the data of all others unchanged, whatever the order of ids and however the underlying container grows; reading data never stored yields the default value, looking up with find or at reports absence (null, exception) without creating data, and accessors over the same container agree.',
 (['inputs', 'histories'], 'all containers (dense and associative), all ids, sizes and prior contents, every accessor kind'),
 'The tests write and read in increasing id order; growth, gaps, absence and cross-talk need all ids and contents.',
 ['viennagrid/accessor.hpp', S+'container.hpp'], [('container accessors', 'viennagrid/accessor.hpp'), ('field', 'viennagrid/accessor.hpp')],
 note='Accessors are executed over ghost containers with opaque ids and sizes; obligations hold for all ids, sizes and contents. The instantiations with the real containers are additionally run on a stated finite domain (bounded).',
 assumptions=['std::vector, std::deque and std::map meet their documented contracts (the ghost containers are these contracts)'])
prop('P31', 'Quantity transfer applies the averaging to exactly the right elements',
 'Transferring a quantity between elements of different dimension sets, for every destination element that passes the destination filter, the value the averaging functor gives for the source values of exactly the source elements passing the source filter that are contained in it, or that contain it, within the mesh or segment; no other value is written and no source value changes.',
 (['configurations', 'histories'], 'all meshes, segments, kinds of source and destination elements, filters and averaging functors'),
 'The only test transfers one constant field and prints the result.',
 [A+'quantity_transfer.hpp'], [('quantity_transfer', A+'quantity_transfer.hpp')],
 level='exploration', note=BND)
prop('P21', 'Totals of a mesh or segment count each of its elements once',
 'The volume of a mesh or segment is the sum of the volumes of its cells, its surface the sum over exactly its boundary facets (those of the segment, not of the mesh), its centroid the volume-weighted mean of the cell centroids, and its bounding box the smallest box containing all its vertices; nothing outside the segment contributes and nothing is counted twice.',
 (['inputs', 'configurations'], 'all coordinates, mesh and segments, every assignment of cells to segments'),
 'Tests compare one total of one mesh; segments, shared facets and skewed positions are not varied.',
 [A+'volume.hpp', A+'surface.hpp', A+'centroid.hpp', A+'geometry.hpp'], [('volume_mesh', A+'volume.hpp'), ('surface_meshsegment', A+'surface.hpp'), ('centroid_mesh', A+'centroid.hpp'), ('bounding_box, mesh_size', A+'geometry.hpp')],
 note=SYM+' The number of cells is bounded (1 to 4 cells); element values are taken from the contracts of P03 to P05.',
 assumptions=['the loops over cells and facets are unrolled for meshes of up to 4 cells: larger meshes follow only if the loop body treats all cells alike'])

prop('P16', 'Views and ranges reach exactly the elements put into them',
 'A view of a mesh contains exactly the elements inserted and not removed since, in insertion order (mesh views: each element once, by id), refers to the elements of the mesh itself and not to copies, and is independent of its copies; ranges of a mesh, segment or view reach each of their elements exactly once, and forward and backward iteration, pre- and postfix increment, index, handle and lookup by id, by element or by handle all agree, including for elements that are absent.',
 (['histories', 'configurations'], 'all histories of insertions and removals, all storage kinds of views, all element kinds'),
 'Tests iterate forward over whole meshes; removal, absence, copies and views of views are never checked.',
 [S+'view.hpp', S+'range.hpp', S+'container.hpp', S+'hidden_key_map.hpp', M+'mesh.hpp', 'viennagrid/element/element_view.hpp'], [('view', S+'view.hpp'), ('container_range_wrapper', S+'range.hpp'), ('find, find_by_handle, handle_mesh', M+'mesh.hpp'), ('element_view', 'viennagrid/element/element_view.hpp')],
 level='exploration', note=BND)
prop('P23', 'Copies of meshes are complete and independent',
 'A copied or assigned mesh (with or without segmentation) has the same elements with the same ids, vertices, boundary elements and positions, all its references lead into the copy and never into the original, segment memberships carry over, original and copy live independently afterwards, and assigning a mesh to itself changes nothing. Copying cells, or the boundary of a mesh, into another mesh creates exactly those elements with their positions, sharing vertices, edges and faces that coincide.',
 (['histories', 'configurations'], 'all meshes and segmentations, all states of cached neighborhood information before and after the copy'),
 'The copy test prints one mesh; dangling or shared references show only when the original is changed or destroyed.',
 [M+'mesh.hpp', M+'mesh_operations.hpp', M+'segmented_mesh.hpp', M+'element_creation.hpp', A+'extract_boundary.hpp'], [('mesh copy constructor and assignment', M+'mesh.hpp'), ('vertex_copy_map, copy_segmentation', M+'mesh_operations.hpp'), ('segmented_mesh', M+'segmented_mesh.hpp'), ('copy_element, copy_elements, make_unique_vertex', M+'element_creation.hpp'), ('extract_boundary', A+'extract_boundary.hpp')],
 level='exploration', note=BND)
prop('P25', 'Seed points identify every connected part exactly once',
 'Extracting seed points of a mesh or segmentation yields, for every part connected through facets (within each segment), exactly one point, which is the centroid of one cell of that part, labelled with its segment.',
 (['configurations'], 'all meshes and assignments of cells to segments'),
 'No test covers it; a traversal that stops early or restarts shows only for parts with particular shapes and orders.',
 [A+'extract_seed_points.hpp'], [('extract_seed_points', A+'extract_seed_points.hpp')],
 level='exploration', note=BND)
prop('P32', 'Files describe the mesh and reading them restores it',
 'A written VTK file contains exactly the cells of the mesh or segment with their vertices in the vertex order the VTK format prescribes, and for each registered quantity the value of exactly that vertex or cell; reading it back, alone or as one of several segments, restores the same vertices, cells, segment memberships and data (vertices belonging to no written cell are not written). Reading a Netgen file yields the vertices, cells and segments it lists, with ids in file order.',
 (['configurations', 'inputs'], 'all meshes with distinct vertex positions, all cell types and orientations, all segment assignments, all registered quantities, reader objects used repeatedly'),
 'The I/O test reads, writes and re-reads two files without comparing them; shared vertices, per-segment data and hexahedron orientation are not looked at.',
 ['viennagrid/io/vtk_writer.hpp', 'viennagrid/io/vtk_reader.hpp', 'viennagrid/io/vtk_common.hpp', 'viennagrid/io/xml_tag.hpp', 'viennagrid/io/helper.hpp', 'viennagrid/io/netgen_reader.hpp'], [('vtk_writer', 'viennagrid/io/vtk_writer.hpp'), ('vtk_reader', 'viennagrid/io/vtk_reader.hpp'), ('vtk orientations', 'viennagrid/io/vtk_common.hpp'), ('netgen_reader', 'viennagrid/io/netgen_reader.hpp')],
 level='exploration', note=BND)
