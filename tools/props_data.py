EXACTNOTE = 'Equality of the symbolic results over real arithmetic (rounding not modelled) for every input value and every branch outcome; '
prop('C01', 'Vector algebra computes its mathematical definition in every coordinate system',
     'For all input vectors, the 1-, 2- and infinity norms, inner product, cross product, determinants, (signed) spanned volumes, plane, solid and dihedral angles return the value of their mathematical definition, up to rounding. This holds in one, two and three dimensions and for Cartesian, polar, spherical and cylindrical points, including mixed operands, whose values are those of the Cartesian locations they denote.',
     ['inputs', 'configurations'], 'for all coordinate values (including zero vectors and degenerate arguments), dimensions and coordinate systems',
     'Tests sample a few axis-aligned vectors; sign slips, a missing absolute value or a clamp that is too wide only show for particular coordinates.',
     ['viennagrid/algorithm/norm.hpp', 'viennagrid/algorithm/inner_prod.hpp', 'viennagrid/algorithm/cross_prod.hpp', 'viennagrid/algorithm/spanned_volume.hpp', 'viennagrid/algorithm/angle.hpp', 'viennagrid/algorithm/geometry.hpp'],
     [('norm_impl', 'viennagrid/algorithm/norm.hpp'), ('inner_prod_impl', 'viennagrid/algorithm/inner_prod.hpp'), ('cross_prod_impl', 'viennagrid/algorithm/cross_prod.hpp'), ('spanned_volume_impl / signed_spanned_volume_impl', 'viennagrid/algorithm/spanned_volume.hpp'), ('angle, solid_angle, dihedral_angle', 'viennagrid/algorithm/angle.hpp'), ('determinant', 'viennagrid/algorithm/geometry.hpp')],
     note=EXACTNOTE + 'instantiated for double coordinates and the library\'s own point type.')
prop('C02', 'Points keep their location under construction, conversion and arithmetic',
     'For all coordinate values, constructing, copying, assigning and converting a point between coordinate systems denotes the same location, and addition, subtraction, scaling and division give the point whose Cartesian location is the corresponding vector expression, also when an operand is the destination itself. Component-wise minimum and maximum are exact, and the point order is the lexicographic strict order of the coordinates.',
     ['inputs', 'configurations'], 'for all coordinate values, all pairs of coordinate systems, all aliasing of operands',
     'Tests check a handful of points in one octant; quadrant handling, the origin and self-aliasing are value dependent.',
     ['viennagrid/point.hpp', 'viennagrid/algorithm/geometry.hpp'],
     [('coordinate_converter', 'viennagrid/point.hpp'), ('cartesian_cs / cs_base operations', 'viennagrid/point.hpp'), ('spatial_point operators', 'viennagrid/point.hpp'), ('point_less', 'viennagrid/point.hpp'), ('min, max', 'viennagrid/algorithm/geometry.hpp')],
     note=EXACTNOTE + 'instantiated for double coordinates.')
prop('C03', 'Boundary elements of each cell follow the documented reference numbering',
     'For every line, triangle, quadrilateral, tetrahedron and hexahedron, its edges and faces are exactly those of the documented reference numbering, in that order, whichever vertices the cell was built from. The vertices of a boundary element seen from a cell are reported in the cell\'s own local order, for every orientation in which the mesh may already store the shared element.',
     ['inputs', 'histories', 'configurations'], 'for all cells, all vertex handles and all insertion histories that determine the stored orientation of shared edges and faces',
     'Tests only count boundary elements or use a few meshes; a wrong table entry keeps the counts and the orientation permutation matters only for particular insertion orders.',
     ['viennagrid/topology/simplex.hpp', 'viennagrid/topology/quadrilateral.hpp', 'viennagrid/topology/hexahedron.hpp', 'viennagrid/element/element.hpp', 'viennagrid/element/element_orientation.hpp'],
     [('boundary_element_generator', 'viennagrid/topology/*.hpp'), ('set_boundary_element', 'viennagrid/element/element.hpp'), ('element_orientation', 'viennagrid/element/element_orientation.hpp'), ('local_vertex', 'viennagrid/element/element.hpp')],
     technique='static analysis: constant and value propagation through the compiled boundary generators, compared with the documented reference tables, for every stored orientation',
     note='All vertex handles symbolic; every permutation of the stored orientation of edges and faces is enumerated; the inserter is replaced by a stand-in that keeps each boundary element.')
prop('C04', 'Element measures equal their geometric definitions',
     'For every element, whatever its vertices, volume is the length, area or volume spanned by its vertices in reference numbering (for quadrilaterals and hexahedra: of a decomposition into simplices), the centroid is the mean of its vertices, the circumcenter of a line, triangle or tetrahedron is equidistant from its vertices, and the surface is the sum of the facet volumes. The normal vector is orthogonal to the element with the length and direction given by the first vertices. All of them read coordinates only through the point accessor they are given.',
     ['inputs', 'configurations'], 'for all coordinates, element types, geometric dimensions and point accessors',
     'Tests use unit or axis-aligned cells where wrong decompositions, swapped vertices and the wrong accessor give the right number.',
     ['viennagrid/algorithm/volume.hpp', 'viennagrid/algorithm/centroid.hpp', 'viennagrid/algorithm/circumcenter.hpp', 'viennagrid/algorithm/surface.hpp', 'viennagrid/algorithm/geometry.hpp'],
     [('volume_impl', 'viennagrid/algorithm/volume.hpp'), ('centroid_simplex / centroid', 'viennagrid/algorithm/centroid.hpp'), ('circumcenter', 'viennagrid/algorithm/circumcenter.hpp'), ('element_surface', 'viennagrid/algorithm/surface.hpp'), ('normal_vector_impl', 'viennagrid/algorithm/geometry.hpp')],
     note=EXACTNOTE + 'Cartesian double points, one element with arbitrary vertex and facet handles, default and custom point accessors. Polygons and PLCs are not covered.')

prop('C05', 'Mesh-level measures and transformations range over exactly the right elements',
     'The volume and centroid of a mesh or segment are the sum and the volume-weighted mean over exactly its cells, and its bounding box and mesh size are the exact extrema over exactly its vertices and lines. Scaling, affine and general geometric transformations move every vertex of the mesh exactly once, to the image of its own old location, and nothing else; orthogonalisation yields the Gram-Schmidt residual.',
     ['inputs', 'configurations'], 'for all coordinates, all connectivity of the fixed-size meshes, all segments of them, all matrices, factors and centers',
     'Tests transform one or two meshes with simple matrices; in-place updates that read already overwritten coordinates or extrema seeded with a wrong start value need particular data.',
     ['viennagrid/algorithm/volume.hpp', 'viennagrid/algorithm/centroid.hpp', 'viennagrid/algorithm/geometry.hpp', 'viennagrid/algorithm/scale.hpp', 'viennagrid/algorithm/geometric_transform.hpp'],
     [('volume_mesh / volume(segment)', 'viennagrid/algorithm/volume.hpp'), ('centroid_mesh', 'viennagrid/algorithm/centroid.hpp'), ('bounding_box, mesh_size, orthogonalize', 'viennagrid/algorithm/geometry.hpp'), ('geometric_transform, scale, affine_transform', 'viennagrid/algorithm/geometric_transform.hpp')],
     note=EXACTNOTE + 'meshes with up to a few elements of each dimension stored in fixed-size containers; the argument is uniform in the element, but larger counts are not enumerated.')
prop('C06', 'Coboundary and neighbour queries report exactly the current incidences',
     'The coboundary elements of an element in a mesh or segment are exactly the elements of the requested type that contain it on their boundary, each once, and the neighbours are exactly the other elements of the requested type sharing a connecting element with it. The answer describes the mesh as it is at the time of the query: an answer computed for an earlier state is never reported after the mesh or segment changed.',
     ['inputs', 'histories', 'configurations'], 'for all connectivities, all elements queried, all change counters and all stale cache contents',
     'Tests query a few meshes once; stale caches and duplicate or missing incidences need particular connectivity or a change between two queries.',
     ['viennagrid/mesh/coboundary_iteration.hpp', 'viennagrid/mesh/neighbor_iteration.hpp', 'viennagrid/mesh/mesh.hpp'],
     [('create_coboundary_information, coboundary_elements', 'viennagrid/mesh/coboundary_iteration.hpp'), ('create_neighbor_information, neighbor_elements', 'viennagrid/mesh/neighbor_iteration.hpp'), ('is_obsolete / update_change_counter', 'viennagrid/mesh/mesh.hpp')],
     note='Line, triangle and tetrahedral meshes and mesh views of up to three cells with unknown connectivity; containers of the cache replaced by fixed-capacity models with unknown (stale) contents; the argument is uniform in the element, larger counts are not enumerated.')
prop('C07', 'Boundary classification matches the facet incidence of the current mesh',
     'A facet is reported on the boundary of a mesh or segment exactly when it belongs to exactly one of its cells, and a lower-dimensional element exactly when it lies on such a facet. The answer describes the current mesh or segment: flags of an earlier state are never reported after a change.',
     ['inputs', 'histories', 'configurations'], 'for all connectivities, all elements queried, all change counters and all stale flags',
     'Tests check counts on fixed meshes and never change a mesh after the first query; stale flags and incidence miscounts need particular connectivity and order of queries.',
     ['viennagrid/algorithm/boundary.hpp', 'viennagrid/algorithm/detail/boundary.hpp', 'viennagrid/mesh/mesh.hpp'],
     [('detect_boundary', 'viennagrid/algorithm/detail/boundary.hpp'), ('is_boundary', 'viennagrid/algorithm/boundary.hpp'), ('boundary_information_wrapper', 'viennagrid/mesh/mesh.hpp')],
     note='Line, triangle and tetrahedral meshes and views of up to three cells with unknown connectivity, unknown previous flags and change counters; larger counts are not enumerated.')
prop('C08', 'Closest points, distances and point inclusion are exact minima',
     'For all coordinates, the closest points of two supported objects (points, lines, triangles, quadrilaterals, tetrahedra, hexahedra, and the boundaries of meshes and segments) consist of one point of each object, and no other pair of their points is closer; the distance is the distance of that pair, whatever the order of the arguments and the point accessor. A point is inside a triangle or tetrahedron exactly when its barycentric coordinates are nonnegative up to the given tolerance.',
     ['inputs', 'configurations'], 'for all coordinates, element types, dimensions, argument orders and point accessors; for all boundary flags of the fixed-size meshes and segments',
     'Tests probe a few positions around unit cells; the region decomposition around a cell (beyond a vertex, beyond an edge, inside, parallel lines) has many branches that each need particular coordinates.',
     ['viennagrid/algorithm/closest_points.hpp', 'viennagrid/algorithm/distance.hpp', 'viennagrid/algorithm/inclusion.hpp'],
     [('closest_points_point_line, closest_points_line_line, closest_points_point_triangle, closest_points_point_tetrahedron', 'viennagrid/algorithm/closest_points.hpp'), ('closest_points_on_boundary', 'viennagrid/algorithm/closest_points.hpp'), ('distance, boundary_distance', 'viennagrid/algorithm/distance.hpp'), ('is_inside', 'viennagrid/algorithm/inclusion.hpp')],
     note='Real arithmetic; measure-zero ties between equally close pairs are not compared; degenerate elements only as far as the formulas are defined. Optimality is established structurally: interior minimiser where it lies inside, otherwise the minimum over all lower-dimensional faces, each face query replaced by its own verified contract; quadrilaterals and hexahedra through their simplex decomposition.')
prop('C09', 'Segments behave as sets of elements, consistently in every view',
     'Adding an element to a segment makes exactly it and all its boundary elements members, erasing an element removes exactly it and the members it bounds, clearing a segment removes all its members, and no operation changes the membership in other segments. After any history of such operations the element ranges of the segment and of the whole segmentation list every member exactly once and agree with is_in_segment and segment_ids, the change counter of every changed segment differs, and boundary and interface queries answer for the current members. Segments are found by the ID they were made with, and newly made segments get an unused ID.',
     ['histories', 'inputs'], 'for all membership states reachable or not (one unknown bit per element and segment), all change counters and all segment IDs',
     'Tests add the cells of a mesh once and look at counts; duplicates, elements left behind by erase or clear, and stale interface flags need particular prior membership or a change between two queries.',
     ['viennagrid/mesh/segmentation.hpp', 'viennagrid/mesh/element_deletion.hpp', 'viennagrid/algorithm/interface.hpp', 'viennagrid/mesh/mesh.hpp'],
     [('add, unchecked_add, erase, clear, is_in_segment, segment_ids', 'viennagrid/mesh/segmentation.hpp'), ('segmentation::get_make_segment, make_segment, clear', 'viennagrid/mesh/segmentation.hpp'), ('detect_interface, is_interface', 'viennagrid/algorithm/interface.hpp'), ('is_boundary(segment, element)', 'viennagrid/algorithm/boundary.hpp')],
     note='Segmentations with two segments of a mesh of two lines or of one triangle, every membership state; standard containers replaced by bounded models of their documented behaviour; segment names are modelled by numbers. The operations are uniform in the element; larger meshes are not enumerated.')
prop('C10', 'Accessors and fields read and write exactly the data of their element',
     'For every container state and element, find returns the address of the data stored for that element or null if there is none, at returns that data or throws std::out_of_range without changing the container, and operator() returns it, creating a default value in a non-const container where there is none; a const field returns its default value instead. Writing through an accessor or field changes the data of exactly that element, and an accessor or field without a container reports that it is not valid.',
     ['inputs', 'configurations'], 'for all element IDs, container sizes and sets of stored entries within the bound, stored values and default values; vector, deque and map storage, const and non-const, static and dynamic wrappers',
     'Tests write and read back the data of existing elements; missing entries, sparse IDs and default values are not exercised in every combination of storage, constness and access.',
     ['viennagrid/accessor.hpp'],
     [('dense_container_accessor, std_map_accessor', 'viennagrid/accessor.hpp'), ('dense_container_field, std_map_field', 'viennagrid/accessor.hpp'), ('dynamic_accessor_wrapper, dynamic_field_wrapper', 'viennagrid/accessor.hpp'), ('appendix_accessor, default_point_accessor', 'viennagrid/accessor.hpp')],
     note='Element IDs 0 to 2 and containers of up to three entries, all values unknown; standard containers replaced by bounded models of their documented behaviour. Larger IDs take the same code path and are not enumerated.')
prop('C11', 'Quantity transfer averages exactly the accepted incident source values',
     'After quantity_transfer every destination element of the mesh or segment that passes the destination filter and is incident to at least one source element passing the source filter has been set exactly once, to the average of exactly the values of those source elements, each taken once. No other destination element with an accepted source is set.',
     ['inputs', 'configurations'], 'for all connectivities of the fixed-size meshes, all source values, all filters and every averager that is symmetric in its values; both directions (to lower and to higher dimension)',
     'The only test transfers one field on one mesh without filters; wrong indices, a filter applied to the wrong element or repeated values need particular filters and connectivity.',
     ['viennagrid/algorithm/quantity_transfer.hpp'],
     [('quantity_transfer (both directions)', 'viennagrid/algorithm/quantity_transfer.hpp')],
     note='Line and triangle meshes and views with up to three elements per dimension; destinations without accepted source are left open (the library calls the averager with no values in one direction).')
prop('C12', 'Created elements have the given vertices and share their boundary elements',
     'Creating a cell or lower-dimensional element in a mesh or segment adds exactly that element with the given vertices in the given order, plus those of its edges and faces that no existing element provides; an edge or face with the same vertex set, in whatever order, is shared, never duplicated. Every element gets an ID that no other element of its type has, also after elements with explicit IDs, the mesh is marked as changed, and an element made in a segment is a member of it together with its whole boundary, and of no other segment. make_unique_vertex returns an existing vertex within the tolerance if there is one, and a new vertex at the given point otherwise.',
     ['histories', 'inputs', 'configurations'], 'for all choices and orders of the vertices of the second element within the bound, all explicit IDs, points and tolerances; full and thin meshes of lines, triangles, quadrilaterals, tetrahedra and hexahedra',
     'Tests build a few fixed meshes and count elements; wrong sharing, duplicated IDs and wrong segment membership need a particular order of vertices, IDs or prior elements.',
     ['viennagrid/mesh/element_creation.hpp', 'viennagrid/storage/inserter.hpp', 'viennagrid/storage/id_generator.hpp', 'viennagrid/storage/hidden_key_map.hpp', 'viennagrid/element/element_key.hpp', 'viennagrid/element/element.hpp', 'viennagrid/storage/container.hpp'],
     [('make_vertex, make_element, make_cell, make_*_with_id, make_unique_vertex', 'viennagrid/mesh/element_creation.hpp'), ('physical_inserter, recursive_inserter', 'viennagrid/storage/inserter.hpp'), ('element_key', 'viennagrid/element/element_key.hpp'), ('continuous_id_generator', 'viennagrid/storage/id_generator.hpp'), ('element::insert_callback', 'viennagrid/element/element.hpp')],
     note='Histories of up to five vertices and two to four cells; standard containers replaced by bounded models of their documented behaviour.')
prop('C13', 'Copied meshes equal their source, are self-contained and independent of it',
     'Copy construction and assignment of a mesh give elements with the same IDs, vertices, points and boundary elements, where every element refers only to elements of the copy; later changes of the copy do not affect the source, new elements get unused IDs and share the copied edges, and no boundary or coboundary information of the source is taken for that of the copy. A filtered copy, copy_elements and the copy of a segmented mesh contain exactly the accepted cells with their vertices in order, each used vertex once, and the same segment membership. A cleared mesh is empty and can be filled again.',
     ['histories', 'inputs', 'configurations'], 'for all connectivities of the second cell within the bound, all coordinates, filters and segment memberships',
     'Tests copy one mesh and count; a handle that still points into the source, stale derived information or a colliding ID goes unnoticed until the source is changed or destroyed.',
     ['viennagrid/mesh/mesh.hpp', 'viennagrid/mesh/mesh_operations.hpp', 'viennagrid/mesh/element_creation.hpp', 'viennagrid/mesh/segmented_mesh.hpp'],
     [('mesh::mesh(mesh const &), operator=, clear, detail::fix_handles', 'viennagrid/mesh/mesh.hpp'), ('copy, vertex_copy_map', 'viennagrid/mesh/mesh_operations.hpp'), ('copy_elements', 'viennagrid/mesh/element_creation.hpp'), ('segmented_mesh::operator=', 'viennagrid/mesh/segmented_mesh.hpp')],
     note='Triangle meshes of four vertices and two cells; standard containers replaced by bounded models of their documented behaviour.')
prop('C14', 'Erasing elements removes exactly them and what refers to them',
     'Erasing an element, or a set of marked elements, from a mesh removes exactly those and the elements that have one of them as boundary element; every other element remains once, with its ID, vertices in order, point and boundary elements, and the mesh is marked as changed. Elements created afterwards share the remaining edges and get IDs that were never used. Erasing from a view changes the view only.',
     ['histories', 'inputs'], 'for all choices of the erased cell, edge or vertex and all sets of marked elements within the bound, all coordinates',
     'The only test erases vertices of one mesh and counts; a handle left pointing to a moved element or an edge stored under the wrong key shows only for particular positions or on later creation.',
     ['viennagrid/mesh/element_deletion.hpp', 'viennagrid/mesh/mesh_operations.hpp', 'viennagrid/storage/hidden_key_map.hpp'],
     [('erase_element, erase_elements, mark_erase_elements', 'viennagrid/mesh/element_deletion.hpp'), ('mark_referencing_elements', 'viennagrid/mesh/mesh_operations.hpp'), ('switch_handle', 'viennagrid/mesh/element_deletion.hpp')],
     note='Triangle mesh of four vertices and two cells; standard containers replaced by bounded models of their documented behaviour. Handles that the caller keeps across an erase are not covered (the library invalidates them).')
prop('C15', 'Iterators, ranges, views and handles address exactly the elements they hold',
     'For every container, view and range, mutable or const and with pointer, iterator or ID handles, moving an iterator (pre- or postfix, forward or backward) visits each element exactly once, in one order, and returns the old or new position as in the standard library. Index access, front, back, handle_at, iterator handles and find by ID, element or handle agree with that order, and dereferencing a handle gives that very element. Inserting, replacing or erasing a handle in a view changes exactly that entry of the view and no element; IDs compare as their numbers.',
     ['inputs', 'histories', 'configurations'], 'for all stored values and searched IDs, all container and handle kinds; sequences of view changes with any of the chosen handles',
     'Tests use prefix increments over default containers; postfix forms, const variants, alternative handle kinds and missing IDs are hardly executed at all.',
     ['viennagrid/storage/container.hpp', 'viennagrid/storage/view.hpp', 'viennagrid/storage/range.hpp', 'viennagrid/storage/handle.hpp', 'viennagrid/storage/static_array.hpp', 'viennagrid/storage/id.hpp', 'viennagrid/storage/hidden_key_map.hpp'],
     [('iterator, const_iterator, container', 'viennagrid/storage/container.hpp'), ('view', 'viennagrid/storage/view.hpp'), ('container_range_wrapper', 'viennagrid/storage/range.hpp'), ('dereference_handle, handle', 'viennagrid/storage/handle.hpp'), ('static_array', 'viennagrid/storage/static_array.hpp'), ('smart_id, id_compare', 'viennagrid/storage/id.hpp')],
     note='Containers of three to five elements; standard containers replaced by bounded models of their documented behaviour. Iterator templates do not depend on the size.')

prop('C16', 'Refinement splits every cell into a conforming partition of itself',
     'For every set of flagged edges, refining a triangle or tetrahedron yields cells that fill it exactly, without overlap, gap or degenerate cell, use only its corners and the new vertices of its flagged edges, and subdivide each face in a way that depends on that face alone, so that neighbouring cells fit together. Each flagged edge gets exactly one new vertex, at its middle (for hyperplane refinement: on the plane, for edges that cross it by more than the tolerance), shared by all cells; the source mesh is unchanged and every new cell is in exactly the segments of the cell it comes from. Marking functions flag exactly the edges they describe: all, those of the flagged cells, or additionally the longest edge of each cell that has a flagged one.',
     ['inputs', 'configurations'], 'for all 64 (8) sets of flagged edges of a tetrahedron (triangle), all coordinates and all orders of the edge lengths including equal ones',
     'The case tables have hundreds of entries selected by edge flags and length comparisons; a test refines a few meshes and looks at the cell count or total volume.',
     ['viennagrid/algorithm/refine.hpp', 'viennagrid/algorithm/detail/refine_tet.hpp', 'viennagrid/algorithm/detail/refine_tri.hpp'],
     [('element_refinement<tetrahedron_tag>', 'viennagrid/algorithm/detail/refine_tet.hpp'), ('element_refinement<triangle_tag>', 'viennagrid/algorithm/detail/refine_tri.hpp'), ('refine, simple_refine, mark_*, hyperplane_refine, ensure_longest_edge_refinement', 'viennagrid/algorithm/refine.hpp')],
     note='The case tables are covered completely; mesh level functions on two adjacent triangles, the wrapper functions at fixed coordinates, longest edge marking on one triangle of non-zero edge lengths. A repeated refinement is not analysed.')
prop('C17', 'Written files describe exactly the given mesh, segments and quantities',
     'The VTK, OpenDX, vmesh and mphtxt writers emit every vertex coordinate, every cell with its vertices in the order, indexing and cell type of the format, offsets and counts that agree with them, and every registered scalar or vector quantity with the value of its own vertex or cell, each exactly once and in matching order. For segmented meshes each VTK piece holds exactly the vertices, cells and quantities of its segment in its local numbering, and the collection file names every piece. A VTK or OpenDX file that cannot be opened raises cannot_open_file_exception.',
     ['inputs', 'configurations'], 'for all coordinates, quantity values and open results; meshes of lines, triangles, quadrilaterals, tetrahedra and hexahedra, with and without segments',
     'Tests write files without reading what is in them; wrong vertex order, index base, offset or a value written for the wrong element is invisible to them.',
     ['viennagrid/io/vtk_writer.hpp', 'viennagrid/io/vtk_common.hpp', 'viennagrid/io/opendx_writer.hpp', 'viennagrid/io/vmesh_writer.hpp', 'viennagrid/io/mphtxt_writer.hpp'],
     [('vtk_writer', 'viennagrid/io/vtk_writer.hpp'), ('vtk vertex order and cell types', 'viennagrid/io/vtk_common.hpp'), ('opendx_writer', 'viennagrid/io/opendx_writer.hpp'), ('vmesh_writer', 'viennagrid/io/vmesh_writer.hpp'), ('mphtxt_writer', 'viennagrid/io/mphtxt_writer.hpp')],
     note='One to two cells per mesh and two segments; streams, strings and containers replaced by models, so number formatting and precision are outside; literal text around the numbers is compared as a whole.')
prop('C18', 'Readers build exactly the described mesh or throw',
     'The Netgen reader builds exactly the vertices, cells and segments of the file, with coordinates, vertex order and segment numbers as given, and throws if the file cannot be opened, ends early, holds an unreadable token or a vertex index that does not exist. The VTK reader builds from the pieces of a .vtu or .pvd file, whatever was read before, one vertex per distinct point, one cell per distinct vertex tuple in ViennaGrid vertex order and the segments of the pieces, and assigns every scalar or vector quantity to the vertex or cell it was given for, also through registered accessors.',
     ['inputs', 'configurations'], 'for all coordinates, vertex indices, counts, segment numbers, quantity values and read failures at every token within the bound; triangle, quadrilateral, tetrahedron and hexahedron meshes',
     'Tests read a few well-formed files; truncated or inconsistent files, points shared between pieces and data order are not among them.',
     ['viennagrid/io/netgen_reader.hpp', 'viennagrid/io/vtk_reader.hpp', 'viennagrid/io/vtk_common.hpp'],
     [('netgen_reader::operator()', 'viennagrid/io/netgen_reader.hpp'), ('vtk_reader::readNodeCoordinates, setupVertices, setupCells, setupData', 'viennagrid/io/vtk_reader.hpp'), ('vtk to ViennaGrid vertex order', 'viennagrid/io/vtk_common.hpp')],
     note='Meshes of one to two cells; streams deliver typed tokens any of which may fail; the character scanner xml_tag::parse is replaced by a sequence of tags with attributes; the VTK reader reports errors inside a .vtu file only on the console, which is not claimed.')
prop('C19', 'Voronoi quantities are the measures of the dual interfaces and boxes',
     'apply_voronoi assigns to every edge the length or area of its dual interface and to every edge and vertex the size of its dual box: in lines, quadrilaterals, hexahedra and triangles that contain their circumcenter, what cell, facet and edge circumcenters span; for a triangle whose circumcenter lies beyond the edge to its neighbour, what lies beyond is attributed to the neighbour, with the negative part on the shared edge; in tetrahedra, the polygon of circumcenters around the edge, split at the middle between two cells. Per cell contributions name the cell they lie in and sum up to the totals, and the boxes of the vertices to those of the edges.',
     ['inputs', 'configurations'], 'for all coordinates without exactly vanishing lengths, areas or predicates, and all three positions of an obtuse triangle\'s long edge',
     'Tests sum the boxes of two regular meshes; which cell a contribution is attributed to and obtuse triangles are not looked at.',
     ['viennagrid/algorithm/voronoi.hpp'], [('apply_voronoi, write_voronoi_info', 'viennagrid/algorithm/voronoi.hpp')],
     note='One or two cells per mesh; standard containers replaced by bounded models of their documented behaviour. Obtuse triangles with their long edge on the boundary and nearly flat tetrahedra (reported by an exception) are outside.')
prop('C20', 'Extraction returns exactly the boundary, the parts or the selected elements',
     'extract_boundary replaces whatever the hull mesh held by exactly the boundary facets of the mesh, or of each segment in the hull segment of the same number, with the coordinates and vertex order of the source and every vertex and shared facet once; the source is unchanged. extract_seed_points appends exactly one point for every facet-connected part of the mesh or segment, the centroid of a cell of it, with the number of its segment. element_view with a filter holds exactly the elements the filter accepts, in the order of the mesh or segment.',
     ['inputs', 'configurations'], 'for all coordinates and all filters; strips, parts touching in a vertex, cells stored in any of several orders, with and without segments',
     'No test calls these functions.',
     ['viennagrid/algorithm/extract_boundary.hpp', 'viennagrid/algorithm/extract_seed_points.hpp', 'viennagrid/element/element_view.hpp'],
     [('extract_boundary', 'viennagrid/algorithm/extract_boundary.hpp'), ('extract_seed_points, neighbor_mark', 'viennagrid/algorithm/extract_seed_points.hpp'), ('element_view', 'viennagrid/element/element_view.hpp')],
     note='Meshes of two to four cells; standard containers replaced by bounded models of their documented behaviour. The const overload of element_view does not compile for any mesh and is not claimed.')
prop('N01', 'Numerical results are accurate to a bounded rounding error',
     'For all finite coordinates the floating-point result of every geometric function differs from the exact real result by at most a small multiple of the rounding unit times the condition of the problem.',
     ['inputs'], 'for all finite coordinates',
     'Tests compare a few well-conditioned results with a tolerance.',
     ['viennagrid/algorithm/geometry.hpp', 'viennagrid/algorithm/spanned_volume.hpp'], [('all geometric functions', 'viennagrid/algorithm/*.hpp')],
     na='Depends on runtime magnitudes and cancellation that no sound static argument in reach bounds for unrestricted inputs; the analysis works over the reals.')
prop('N02', 'Numbers and tags survive a round trip through the text of a file',
     'Every number written can be read back with the documented precision, and the XML scanner recovers every tag and attribute from any well-formed text, whatever its whitespace and order.',
     ['inputs'], 'for all texts and numbers',
     'Tests read a few files written by hand.',
     ['viennagrid/io/xml_tag.hpp', 'viennagrid/io/vtk_writer.hpp'], [('xml_tag::parse', 'viennagrid/io/xml_tag.hpp')],
     na='Quantifies over character sequences of unbounded length scanned by data-dependent loops, and over the formatting of the C++ runtime; no static argument in reach decides it.')
prop('N03', 'Voronoi boxes of a Delaunay mesh partition it',
     'For every Delaunay mesh, of any number of cells, the Voronoi boxes assigned to the vertices sum to the volume of the mesh.',
     ['inputs', 'configurations'], 'for all Delaunay meshes',
     'Tests check two meshes.',
     ['viennagrid/algorithm/voronoi.hpp'], [('apply_voronoi', 'viennagrid/algorithm/voronoi.hpp')],
     na='The precondition (Delaunay) is a metric relation over a mesh of any size; without it the unsigned contributions do not sum up, so no per-function static rule decides it. The contributions of one or two cells are decided by C19.')
prop('N04', 'Queries and refinement finish in time proportional to the mesh',
     'Element queries cost constant or linear time after the first one, and longest-edge refinement terminates, for meshes of every size.',
     ['inputs', 'histories'], 'for all mesh sizes',
     'Tests use small meshes.',
     ['viennagrid/algorithm/refine.hpp', 'viennagrid/mesh/coboundary_iteration.hpp'], [('ensure_longest_edge_refinement', 'viennagrid/algorithm/refine.hpp')],
     na='A bound on run time over unbounded mesh sizes and coordinates; termination of the marking depends on the lengths of edges at run time.')
