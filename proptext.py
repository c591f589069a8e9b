"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""
U = "src/utils/"
A = "src/algorithm/"


def P(id, title, statement, over, text, why, files, mech, note, level="proof", observe=None, **kw):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
         "level_note": note, "level": level}
    if observe:
        d["anchors"]["observe_at"] = observe
    d.update(kw)
    return d


REAL = "Double arithmetic is treated as real arithmetic in the proof; the executable contract runs the real double code on inputs where it is exact or nearly so. "

BOUND = "Bounded for now: executable contracts over random histories and inputs of the real code; the deductive part is listed in the evidence file."

PROPS = [
 P("P01", "Side classification of a point against a directed line",
   "For every directed line through two points and every third point, the point is classified as left, right or collinear exactly as the sign of the signed triangle area says, where areas whose double has a magnitude below the square root of machine epsilon count as collinear. The two left-of-line tests agree with that classification (strictly left; left or collinear), and the classification flips when the direction of the line is reversed and is unchanged by cyclic rotation of the three points.",
   ["inputs"], "all triples of points in the plane",
   "the tests sample a few well-shaped triples; the classification must be right for every triple, at every scale and rotation",
   [U + "Geometry.h"], [("orientation", U + "Geometry.h"), ("is_left / is_lefton", U + "Geometry.h")],
   REAL + "All obligations are discharged for all real coordinates."),
 P("P02", "Segment and facet intersection tests",
   "For every pair of segments, the crossing test is true exactly when each segment has its endpoints strictly on opposite sides of the other, and the intersection test is true exactly when they cross or an endpoint of one lies in the open interior of the other, both independent of the order of segments and endpoints. Segment-triangle, segment-quadrilateral and element-element intersection tests are true exactly when at least one pair of their edges intersects (crosses, for the crossing variant). Two segments are reported as overlapping exactly when they have the same two endpoints.",
   ["inputs"], "all pairs of segments, triangles and quadrilaterals in the plane",
   "the nine to sixteen edge pairs times the collinear, touching and scaled cases cannot be enumerated by examples",
   [U + "Geometry.h"], [("line_line_intersection / line_line_crossing", U + "Geometry.h"), ("tri_tri, tri_quad, quad_quad intersection", U + "Geometry.h")],
   REAL + "Facet tests are proved against the contract of the segment test (modular)."),
 P("P03", "Point containment and box overlap tests",
   "A point is reported inside (strictly) or inside-or-on a counter-clockwise triangle or quadrilateral exactly when it lies strictly left of, respectively not right of, every directed edge. The axis-aligned box tests agree with the coordinate comparisons (closed and open), two boxes overlap exactly when they share a point, and the bounding box of two points is their coordinate-wise minimum and maximum.",
   ["inputs"], "all points, boxes, triangles and quadrilaterals in the plane",
   "tests check one or two points per shape; borders, vertices and every edge need all inputs",
   [U + "Geometry.h"], [("in_rect, in_on_rect, rect_overlap", U + "Geometry.h"), ("in_triangle, in_on_triangle, in_quad, in_on_quad", U + "Geometry.h")],
   REAL + "All obligations are discharged for all real coordinates."),
 P("P04", "Vector arithmetic is componentwise real arithmetic",
   "Every vector operation gives, for every operand, the componentwise result of the real operation: sum, difference, product, quotient and negation of vectors and scalars, in both operand orders and in place; squared norm, norm, dot and cross product, angle, sum, product, minimum and maximum of the entries. Two vectors are equal exactly when all entries are equal, and operations leave their operands unchanged except the target of an in-place operation.",
   ["inputs"], "all vectors of two and three (executable contract: also four) entries and all scalars (divisors non-zero)",
   "each operator is its own code path for each operand order; tests try one pair of vectors each",
   [U + "VecND.h"], [("VecND operators and free operators", U + "VecND.h"), ("VecND::sum, min, max, norm, angle", U + "VecND.h")],
   REAL + "acos is uninterpreted with its range axiom. Proved for the double instantiations with 2 and 3 entries."),
 P("P05", "Point-segment distance and polygon area",
   "For every point and every segment of positive length, the squared distance returned is attained at some point of the segment and is not larger than the squared distance to any other point of it. For every closed polygon given as a list of points of any length, the signed area returned is half the shoelace sum, positive for counter-clockwise simple polygons.",
   ["inputs"], "all points and segments; all point lists of any length",
   "minimality is a statement over all points of the segment, and the area over lists of any length",
   [U + "Geometry.h"], [("distance_point_edge_sqr", U + "Geometry.h"), ("polygon_area", U + "Geometry.h")],
   REAL + "The area loop is proved by an inductive invariant for any number of points."),
 P("P06", "Element and edge measures match the current vertex positions",
   "After creation, and again after a refresh following any movement of vertices, every triangle and quadrilateral reports the signed area, vertex mean, edge lengths, interior angles, their extremes, circumscribed circle (quadrilateral: vertex mean and largest vertex distance), validity (positive area and edge lengths) and size-dependent quality that its current vertex coordinates define. Every edge likewise reports its length, midpoint, unit tangent from first to second vertex and the unit normal to the left of it.",
   ["inputs", "histories"], "all vertex coordinates (distinct vertices), creation and every later refresh",
   "tests check one or two elements of special shape; the formulas must be right for every shape and after every move",
   [A + "FacetGeometry.h", A + "Triangle.h", A + "Quad.h", A + "Edge.h"],
   [("Triangle::update_metrics, Quad::update_metrics, Edge::update_metrics", A + "Triangle.h"), ("TriangleGeometry / QuadGeometry", A + "FacetGeometry.h")],
   REAL + "acos is uninterpreted; the re-indexing of the element's position in its container is P08/P09's subject."),
 P("P07", "Local vertex, edge and neighbour numbering of elements",
   "For every triangle and quadrilateral with distinct vertices, asking for the local index of a vertex gives its position in the vertex order or -1 for any other vertex, and asking for the local index of an edge by its two end vertices in either order gives the documented slot (triangle: the slot of the opposite vertex; quadrilateral: edges v1v2, v2v3, v3v4, v4v1 have slots 3, 0, 1, 2) or -1 for any pair that is not an edge. Setting a neighbour slot, colour or index changes exactly that slot and is read back unchanged; new elements have no neighbours.",
   ["inputs", "histories"], "all elements, all vertices and vertex pairs, all sequences of neighbour updates",
   "the neighbour relation of the whole mesh is built on these slots; a test checks one element",
   [A + "Triangle.h", A + "Quad.h"], [("get_vertex_index / get_edge_index", A + "Triangle.h"), ("neighbor setters", A + "Quad.h")],
   "All obligations are discharged over the heap model of the verifier; no arithmetic is involved."),
 P("P08", "Entity flags behave as independent bits",
   "For every vertex and edge and every sequence of flag operations, adding a flag sets exactly that flag, removing it clears exactly that flag, setting replaces the whole set, and every query reports exactly the flags currently set; different flags never influence each other. A new vertex or edge carries no flags, and a new vertex has exactly the position, local mesh size and size range it was given.",
   ["histories", "inputs"], "all flag sets and all sequences of flag operations on vertices and edges",
   "boundary, front, fixed and quad-layer status drive every algorithm and are changed in long interleaved sequences",
   [A + "Vertex.h", A + "Edge.h", A + "VertexProperty.h"], [("add_property / remove_property / set_property / has_property", A + "Vertex.h")],
   "Discharged for all flag bytes (one step from an arbitrary state, hence any history)."),
 P("P09", "Vertex adjacency lists mirror the existing edges and elements",
   "After every history of creating and removing edges, triangles and quadrilaterals, each vertex lists exactly the existing edges that end at it and exactly the existing elements that have it as a corner. Creation and removal change the lists of the entity's own vertices only, and following next or previous edge from an edge gives an edge of the same list that starts (ends) at the shared vertex, or none exactly when there is no such edge.",
   ["histories"], "all histories of creations and removals of edges and elements over any vertices",
   "a dangling or missing entry appears only after particular creation/removal orders",
   [A + "Vertex.h", A + "Edge.h", A + "Triangle.h", A + "Quad.h"],
   [("Vertex::add_edge / remove_edge / add_facet / remove_facet", A + "Vertex.h"), ("container_destructor", A + "Quad.h"), ("Edge::get_next_edge / get_prev_edge", A + "Edge.h")],
   "Discharged as one-step contracts from an arbitrary well-formed state, with quantified membership; std::list is a trusted sequence."),
 P("P10", "Collision queries that guard every new element",
   "Of the entities whose reference point lies within the given range of an element's own, the element is reported as colliding exactly when an active other triangle or quadrilateral has an edge intersecting one of its edges or a centre inside it (or contains its centre), a front edge intersects one of its edges, or a vertex that is not its corner lies inside or on it. A triangle collides with the domain exactly when a boundary edge crosses one of its edges, a quadrilateral exactly when a corner is not inside the domain. A vertex collides with elements exactly when it lies inside or on one it is not a corner of, and with mesh edges exactly when its distance to one is within the limit.",
   ["inputs"], "all elements and vertices and all sets of surrounding entities, of any number",
   "one missed or misreported entity gives overlapping elements, and depends on the arrangement of many neighbours",
   [A + "Triangle.h", A + "Quad.h", A + "Vertex.h"], [("intersects_triangle / intersects_quad / intersects_vertex / intersects_front / intersects_domain", A + "Triangle.h"), ("Vertex::intersects_facet / intersects_mesh_edges", A + "Vertex.h")],
   REAL + "The geometric predicates (P02, P03, P05) and the lookup (P11) are used through their contracts; loops are discharged for any number of neighbours."),
 P("P11", "Spatial lookup finds exactly the stored items",
   "After every history of inserting, removing and moving items inside a container's region, a rectangle query returns exactly the items in the closed rectangle, a radius query exactly those strictly within the radius, each once, and the nearest-item query an item of least distance (none only if the container is empty). Iteration and size cover exactly the items inserted and not removed, in list order, and a removed item is never returned by any query.",
   ["histories", "inputs"], "all histories of insert, remove and move over any item positions, tree depths and leaf sizes, and all query regions",
   "splits, merges and border positions of the tree depend on the whole insertion and removal history",
   [U + "QuadTree.h", U + "Container.h"], [("QuadTree::get_items / get_nearest / add / remove / split / merge", U + "QuadTree.h"), ("Container::insert / remove / update", U + "Container.h")],
   REAL + "Proved for trees of any depth and content: rectangle, radius, leaf and nearest queries. Bounded: histories of insertions, removals and movements.", "other"),
 P("P12", "Local mesh size is positive, bounded and follows its definition",
   "For every domain and every location, the local mesh size is the smallest of the user's size there and, for both end vertices of every boundary edge and every fixed vertex with a size, the exponential blend between that vertex's size (limited by the edge length; the user's size if none is set) and the user's size over its range (edge length, respectively the user's size, if none is set), where the range of an edge's vertices is stretched by the larger ratio of edge length and user's size. It is therefore positive and never larger than the user's size. Exporting it writes exactly these values on the requested grid, row by row.",
   ["inputs"], "all domains, all user size functions with positive values, all locations",
   "the minimum runs over any number of edges and vertices with many parameter cases",
   [A + "Domain.h"], [("SizeFunction::evaluate", A + "Domain.h"), ("SizeFunction::export_size_function", A + "Domain.h")],
   REAL + "Proved: evaluate equals the defining minimum over all edges and fixed vertices, is positive and bounded, for any number of them. Bounded: the exported file (executed and compared).", "other"),
 P("P13", "Edge lists: ring structure, area, lookup and point location",
   "For every edge list and history of insertions, removals and splits, the reported area is the shoelace area of its current edges; lookups by vertex pair (either or given direction), by vertex and by position give an edge of the list with that property or none exactly if there is none; splitting an edge replaces it by two consecutive edges through the requested point with the same colour and flags. A point is inside a closed list exactly when it lies on one of its edges or is enclosed by it, the self- and mutual intersection tests are true exactly when two edges intersect, the closest vertex is one of least distance, and an edge is traversable to another exactly when following next edges leads there.",
   ["inputs", "histories"], "all closed polygons (and open chains), all points, all histories of edge operations",
   "ring orientation, collinear points and position in the list matter only for particular shapes and orders",
   [A + "EdgeList.h"], [("EdgeList::compute_area / split_edge / get_edge / is_inside / is_traversable / intersects_self / intersects_edgelist / get_closest_vertex", A + "EdgeList.h")],
   REAL + "Proved for lists of any length: area, lookups, traversability, crossing parity of is_inside, intersection tests, closest vertex. Bounded: that parity means enclosure, and histories of insertions, removals and splits.", "other"),
 P("P14", "Boundaries and domains represent the described region",
   "A boundary built from a point list, a CSV file or a built-in shape (rectangle, square, circle, triangle, equilateral triangle) has exactly the described vertices and sizes, with the edge colours in order for lists given in the boundary's own direction, closed, counter-clockwise for exterior and clockwise for interior boundaries whatever order was given, and malformed input is refused. A domain's area is the sum of its boundaries' signed areas, its extent is the bounding box of its vertices, a point is inside exactly when it is inside the exterior boundaries and not inside an interior one, and radius lookups return exactly the boundary edges whose centre is within the radius. Domains are reported valid exactly when they have an exterior boundary, every boundary is closed and no boundary edges intersect.",
   ["inputs"], "all point lists, shapes, colours and combinations of boundaries",
   "tests build a few squares near the origin; orientation, holes and offsets need all shapes",
   [A + "Boundary.h", A + "Domain.h", A + "EntityChecks.h"], [("Boundary::create_boundary_shape and set_shape_*", A + "Boundary.h"), ("Domain::is_inside / area / extent / get_boundary_edges", A + "Domain.h"), ("EntityChecks::check_domain_validity", A + "EntityChecks.h")],
   REAL + "Proved for any number of points and boundaries: built shapes, orientation, colours, new vertices, area, extent, inside, lookup filter, validity. Bounded: reading CSV files.", "other"),
 P("P16", "Triangulation fills the domain with a conforming mesh",
   "Whenever triangulation reports success for a valid domain, every element is counter-clockwise with positive area, every element edge is either an interior edge shared by exactly two elements or a boundary edge of exactly one, and the element areas add up to the domain's area (so there are no gaps or overlaps). The mesh boundary subdivides the domain boundary edge by edge, in its direction and with its colours; every domain vertex and every fixed vertex is a mesh vertex at its exact position; all elements carry the mesh's element colour, and the vertex, edge, element and neighbour relations and spatial lookups are mutually consistent. The completeness check accepts exactly such meshes.",
   ["inputs"], "all valid domains (any shape, holes, size functions, fixed vertices and edges)",
   "the advancing front takes a different path for every domain; tests mesh about ten domains and count elements",
   [A + "Triangulation.h", A + "FrontUpdate.h", A + "Front.h", A + "Mesh.h", A + "MeshBuilder.h"], [("Triangulation::generate_elements / advance_front_*", A + "Triangulation.h"), ("FrontUpdate::advance_front / update_front", A + "FrontUpdate.h"), ("MeshBuilder::prepare_mesh", A + "MeshBuilder.h"), ("MeshChecker::check_completeness", A + "MeshChecker.h")],
   REAL + "Proved for fronts and meshes of any size: which triangles and vertices are accepted (orientation, size, no collision with front, domain, vertices, triangles, quads), how the front and the mesh edges change with each accepted triangle, that the best candidate is kept and all others are removed again, that the loops report success only for an empty front (or the requested number of elements) and failure only after every front edge failed, the clean-up of degenerate elements, the element and edge operations of the mesh and the completeness check. Bounded: that these steps compose to a conforming mesh of the whole domain, and the set-up of the front.", "other"),
 P("P17", "Quad layers and partially meshed domains stay consistent",
   "After quad-layer generation along any stretch of boundary, and after a triangulation stopped at any number of elements, all elements are counter-clockwise and do not overlap, no edge has two elements on one side, the boundary keeps its shape, colours and direction, and the elements plus the region enclosed by the remaining front edges make up exactly the domain. All vertices of layer quads are flagged, layer elements lie along the chosen stretch, and a later triangulation that reports success gives a mesh with all properties of a complete one.",
   ["inputs", "histories"], "all valid domains, start and end positions, layer numbers, heights and growth rates, and all stopping points",
   "layers meet corners, holes and earlier elements in ways that depend on all parameters",
   [A + "QuadLayering.h", A + "MeshingStrategy.h", A + "Triangulation.h"], [("QuadLayering::generate_elements", A + "QuadLayering.h"), ("QuadLayerVertices", A + "QuadLayering.h"), ("MeshingStrategy::add_remaining_front_edges_to_mesh", A + "MeshingStrategy.h")],
   REAL + "Proved for meshes of any size: the front of a partial mesh consists of exactly its front edges with their vertices, direction, colour and flags, and the remaining front edges are kept as interior edges of the mesh. Bounded: quad layers and the composition of the steps.", "other"),
 P("P18", "Refinement splits every element into quads",
   "Refining a complete mesh with convex quads leaves only quads: three for each former triangle and four for each former quad, with every former vertex kept in place with its flags, one new vertex at the midpoint of every former edge and one at the vertex mean of every former element, and nothing else. The result is again a complete conforming mesh of the same region, former element colours and boundary colours pass to the parts, and midpoints of boundary edges become boundary vertices. A mesh that is connected to a neighbour mesh is refused and left unchanged.",
   ["inputs"], "all complete meshes of triangles and convex quads",
   "the sub-quad wiring must be right for every local numbering of edges and neighbours",
   [A + "RefinementStrategy.h"], [("QuadRefinement::refine", A + "RefinementStrategy.h")],
   REAL + "Proved for meshes of any size: what refine does to each triangle, quad, interior and boundary edge (new vertices, sub-quads in order, colours, flags), that every former entity is gathered, refined and removed exactly once, that former vertices keep place and flags, and that connected meshes are refused unchanged. Bounded: that these local steps give a complete conforming mesh.", "other"),
 P("P19", "Turning triangles into quads keeps the mesh complete",
   "Converting a complete mesh to a quad-dominant one gives a complete conforming mesh of the same region; no vertex is added or moved, no fixed or boundary vertex is removed, the number of triangles plus twice the number of quads drops by exactly two for every vertex removed, no two triangles of the same colour with a common edge remain where no vertex was removed, and the area covered by each element colour is unchanged.",
   ["inputs"], "all complete meshes",
   "merging order and clean-up of degenerate quads depend on the whole mesh",
   [A + "ModificationStrategy.h", A + "MeshCleanup.h"], [("Tri2QuadModification::modify", A + "ModificationStrategy.h"), ("MeshCleanup::clear_double_quad_edges / clear_double_triangle_edges / merge_degenerate_triangles", A + "MeshCleanup.h")],
   REAL + "Proved for meshes of any size: exactly the edges between two triangles of one colour are collected, each merge replaces two triangles and their edge by one quad of the same outline and colour, and both clean-ups replace two elements around an unfixed vertex by one with their outline and colour, each element once. Bounded: that these local steps give a complete conforming mesh.", "other"),
 P("P20", "Smoothing moves only free vertices and keeps the mesh valid",
   "Laplace, torsion and mixed smoothing with any parameters leave the connectivity, colours and flags unchanged and every boundary and fixed vertex bitwise in place; quad-layer vertices stay in place unless quad-layer smoothing is enabled, and then move parallel to the nearest boundary edge only. The mesh stays a complete conforming mesh of the same region with positive element areas and consistent lookups. In one Laplace pass every free vertex moves by epsilon times the mean offset to the vertices of its elements, or stays where it was if that would make the mesh invalid.",
   ["inputs"], "all complete meshes, smoothing methods, parameters and numbers of passes",
   "an inverted element appears only for particular shapes next to concave boundaries",
   [A + "SmoothingStrategy.h"], [("SmoothingStrategy::smoothing_iteration / new_vertex_position_is_valid", A + "SmoothingStrategy.h"), ("LaplaceSmoothing / TorsionSmoothing::compute_displacement", A + "SmoothingStrategy.h")],
   REAL + "Proved for meshes of any size: boundary, fixed and (unless enabled) quad-layer vertices keep their position, a moved vertex is moved by epsilon times the displacement or put back where it was if the new position is not accepted, the Laplace displacement is the mean offset, passes and methods run as configured. Bounded: whole-mesh validity, torsion displacement.", "other"),
 P("P21", "Adjacent meshes conform and merge into one",
   "A mesh created next to existing meshes takes over their boundary edges on the common boundary, vertex by vertex and with their colour, and facing edges of the two meshes (and only those) are twins of each other. Merging a donor into a receiver they share edges with gives a complete conforming mesh of the union: all elements with their colours, shared vertices once and fixed in place, all other vertices with their flags, shared edges as interior edges, twins to other meshes kept; the donor is removed from the generator and leaves no influence on later meshes. Meshes without common edges are not merged, reported as such and left unchanged.",
   ["inputs", "histories"], "all arrangements of adjacent domains, mesh orders and merge orders",
   "conformity depends on which mesh came first and how often meshes were merged before",
   [A + "FrontInitData.h", A + "MeshMerger.h", A + "MeshGenerator.h", A + "MeshBuilder.h"], [("FrontInitData::get_neighbor_mesh_edges", A + "FrontInitData.h"), ("MeshMerger::merge", A + "MeshMerger.h"), ("MeshGenerator::merge_meshes", A + "MeshGenerator.h")],
   BOUND, "exploration"),
 P("P22", "Mesh files contain exactly the mesh",
   "Writing any mesh (complete, partial or empty) as text, to the screen or as VTU gives exactly its vertices in order with coordinates, size-function values and flags, and exactly its elements with their vertices in order, colours, types, offsets and metrics; the text form also gives every element's neighbour across each edge, and the interior, boundary, interface and front edges with their elements and colours. All counts and indices are consistent, the numbers are correct to the digits written, the mesh itself is not changed, the file extension is appended if missing, and writing reports failure if the file could not be written or the mesh does not belong to the generator.",
   ["inputs", "histories"], "all meshes at any stage of their construction, all three formats",
   "index maps, neighbour slots and section counts must agree for every mesh history",
   [A + "MeshWriter.h", A + "Mesh.h", A + "MeshCleanup.h", U + "VtkIO.h"], [("MeshWriter::write / write_to_txt / write_to_vtu", A + "MeshWriter.h"), ("operator<<(ostream, Mesh)", A + "Mesh.h"), ("MeshCleanup::assign_mesh_indices / setup_facet_connectivity / assign_size_function_to_vertices", A + "MeshCleanup.h"), ("VtuWriter::write", U + "VtkIO.h")],
   BOUND, "exploration"),
 P("P23", "Parameter files are read as written",
   "For every parameter file, a query of a scalar, vector or matrix parameter succeeds exactly if a further well-formed definition with its key follows in the current block, and then gives the values written there, converted to the requested type; successive queries go through the definitions in file order. Comment lines, comments behind values, blank lines, indentation and brackets do not matter, missing trailing values take the default if one is requested, additional values of a vector are ignored, and definitions in other blocks are never seen. Malformed definitions are reported as not found, and unknown names, doubly declared names, empty keys, values never found and missing files are refused with an exception.",
   ["inputs"], "all parameter files and sequences of queries",
   "line positions, defaults and block limits interact for every file",
   [U + "ParaReader.h"], [("ParaBlock::query / query_scalar / query_vector / query_matrix", U + "ParaReader.h"), ("ParameterBase::get_query_data", U + "ParaReader.h"), ("ParaBlock::read_content", U + "ParaReader.h")],
   BOUND, "exploration"),
 P("P24", "The application generates the described meshes",
   "For every parameter file, the application writes for each mesh block, in order, the file that the described sequence of library calls gives: the domain with exactly the described vertices, fixed vertices and edges and boundaries (all definition forms, any item order), quad layers, the chosen algorithm, merging with the mesh so far, refinements and smoothing with their defaults, under the given name and in the given format. It reports success exactly if all these meshes are complete. Invalid descriptions (missing mandatory items, unknown algorithm, undefined vertex indices, negative colours, unreadable CSV files) end with an error and never with success or a crash.",
   ["inputs"], "all parameter files with constant element size",
   "the command-line application has no automated tests at all",
   ["src/app/TQMeshApp.h", "src/app/size_function.cpp"], [("MeshConstruction::construct_mesh / init_* / generate_mesh", "src/app/TQMeshApp.h"), ("TQMeshApp::run", "src/app/TQMeshApp.h")],
   BOUND, "exploration"),
]
NA = []
