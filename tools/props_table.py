prop("C01", "Manifold mesh stays valid, with documented effects, under every edit history",
     "After any sequence of mutation calls on a ManifoldSurfaceMesh (edge and face insertions, splits, flips, collapses, removals, separation, triangulation, compression) the mesh is a valid oriented manifold: navigation, element counts, boundary flags and iteration all agree with each other. "
     "Each call that reports success changes exactly what its documentation says (element count deltas, the faces it affects, the element it returns) and leaves everything else, including element identities, as it was. "
     "A call that reports failure or throws leaves the mesh exactly as it was, and compress() only renumbers.",
     ["histories", "inputs", "fault_sequences"],
     "every starting mesh (closed, bounded, several components, polygonal), every finite sequence of mutation calls with legal or illegal arguments in any order",
     "the tests apply a few fixed edits to two fixed meshes and call validateConnectivity; interactions between edits (an ear next to a hole, dangling edges, deleted slots, storage growth at a particular moment) form an unbounded space, and these tests are not even in the stable set",
     ["src/surface/manifold_surface_mesh.cpp", "src/surface/surface_mesh.cpp", "include/geometrycentral/surface/surface_mesh.ipp", "include/geometrycentral/surface/halfedge_element_types.ipp"],
     "index arrays next/vertex/face per halfedge plus one halfedge per vertex/face, lazily grown and deleted, with cached counts that every mutation must keep in step",
     "public navigation, iteration, counts and return values of ManifoldSurfaceMesh",
     [("halfedge arrays", "connectivity"), ("counts", "cached numbers of live elements of each kind"), ("boundary loops", "stored from the back of the face array")],
     "every run re-derives the whole mesh through the public API after every operation and compares it with an independent statement of the operation's effect; sampled histories, not all of them")

prop("C02", "Mesh data follows its elements through every edit, copy and compression",
     "A MeshData container always holds, for every live element, exactly the value last written for that identical element: mesh mutations, buffer growth and compress() in any order never move, lose or mix values, and an element created later holds the container's default. "
     "Copies, moves, swaps, conversions to and from vectors, arithmetic, reinterpretTo and fills agree with a per-element reference map, and never affect another container. "
     "Containers may be created, destroyed, moved or outlive their mesh in any order without touching freed memory.",
     ["histories", "inputs", "fault_sequences"],
     "every interleaving of container operations (all six element kinds, several value types) with mesh mutations, compressions, moves, copies, and early destruction of the mesh",
     "the tests check a few containers over a few fixed edits; what breaks is the interplay of growth, permutation and registration in a particular order",
     ["include/geometrycentral/utilities/mesh_data.h", "include/geometrycentral/utilities/mesh_data.ipp", "src/surface/surface_mesh.cpp", "src/surface/manifold_surface_mesh.cpp"],
     "each container registers expand, permute and delete callbacks in lists owned by the mesh, and mutations invoke them",
     "container reads and writes through the public API against a reference map keyed by element identity",
     [("containers", "value buffer, default, registration"), ("mesh", "callback lists, element capacities, permutations")],
     "sampled histories; every live value of every container is compared after every operation")

prop("C03", "General (nonmanifold) meshes stay consistent under every edit history",
     "After any sequence of edits on a general SurfaceMesh (flip, orientation inversion, face duplication, edge and vertex separation, greedy orientation, compression, copying) the mesh is consistent: sibling cycles, vertex and edge neighbourhoods, counts, boundary and manifold flags and derived matrices all agree with each other and with the faces. "
     "Each edit has exactly its documented effect, the separation procedures end with all edges or vertices manifold without changing the faces, and toManifoldMesh() gives the same mesh or refuses loudly. "
     "User data containers stay attached to their elements throughout.",
     ["histories", "inputs"],
     "every starting mesh, including nonmanifold, non-orientable, inconsistently oriented and disconnected ones, and every finite sequence of these edits",
     "tests load a few meshes once; consistency of the sibling and per-vertex lists depends on the order of edits and on the shape of the nonmanifold neighbourhood",
     ["src/surface/surface_mesh.cpp", "include/geometrycentral/surface/surface_mesh.ipp", "include/geometrycentral/surface/halfedge_element_types.ipp"],
     "explicit sibling, edge and per-vertex in/out linked lists which every edit has to patch",
     "navigation, counts, flags and containers through the public API of SurfaceMesh",
     [("sibling lists", "halfedges of an edge"), ("vertex lists", "incoming and outgoing halfedges per vertex"), ("counts", "cached numbers")],
     "sampled histories; the whole mesh is re-derived and compared with an independent model after every operation")

prop("C04", "Copies of meshes, geometries and containers are exact and independent",
     "copy(), copyToSurfaceMesh(), toManifoldMesh() and rebuilding from face lists give a mesh with the same elements, numbering, faces, boundary and flags as the original, at any point of its edit history; geometry copies and reinterpretTo() carry over positions or lengths, and container copies and reinterpretTo() every value and the default. "
     "Afterwards original and copy are fully independent: editing, compressing, moving or destroying either one, in any order, never changes or invalidates the other, and applying the same edits to both keeps them identical. "
     "Moved-from and orphaned containers stay usable as documented.",
     ["histories", "inputs"],
     "every interleaving of creating, copying, editing, compressing and destroying several meshes with geometries and containers attached, manifold or not",
     "tests copy one freshly loaded mesh; a field forgotten in a copy, a shared buffer or a stale callback shows only after particular edits on one side, when the capacity, the numbering or the deleted slots differ",
     ["src/surface/surface_mesh.cpp", "src/surface/manifold_surface_mesh.cpp", "include/geometrycentral/utilities/mesh_data.ipp", "src/surface/vertex_position_geometry.cpp", "src/surface/edge_length_geometry.cpp"],
     "copyInternalFields and hand-written copies of every array, counter and callback list",
     "several meshes, geometries and containers compared through the public API after every operation on any of them",
     [("meshes", "connectivity arrays and counters of each copy"), ("containers", "buffers registered with either mesh")],
     "sampled histories; all worlds' members are compared in full after every operation")

prop("C05", "Required geometric quantities are always current, whatever the order of calls",
     "In any order of requireX, unrequireX, purgeQuantities, refreshQuantities, moving vertices, editing edge lengths and mutating the mesh, every quantity that is required holds, after the last refresh, exactly what a fresh geometry built from the same inputs computes, including all quantities it depends on. "
     "Quantities nobody requires are dropped by a purge, required ones survive it; unbalanced unrequire calls are rejected loudly and change nothing. "
     "Immediate computations agree with the cached quantities, and a failed computation leaves the geometry usable.",
     ["histories", "inputs", "fault_sequences"],
     "every order and multiplicity of require/unrequire/purge/refresh over all quantities of all geometry classes, interleaved with edits, on every mesh",
     "tests require each quantity once on a fixed mesh; stale or missing dependencies show only for particular orders, e.g. when a dependency was purged or first required by someone else",
     ["include/geometrycentral/utilities/dependent_quantity.ipp", "src/surface/base_geometry_interface.cpp", "src/surface/intrinsic_geometry_interface.cpp", "src/surface/extrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", "src/surface/vertex_position_geometry.cpp", "src/surface/edge_length_geometry.cpp"],
     "lazy quantities with reference counts; each compute function asks for the quantities it reads",
     "values of the public quantity members, presence of their buffers, exceptions",
     [("quantity cache", "computed flag, require count and buffer per quantity")],
     "fresh geometries serve as the oracle after every operation; allocation failures are injected inside computations")

prop("C06", "Geometric quantities obey their defining identities on every evolving mesh",
     "On every non-degenerate mesh, and after every edit and refresh, the quantities satisfy their definitions: areas, angles, lengths, normals, curvatures, dual areas, tangent bases and transport agree with the vertex positions or edge lengths; curvature sums obey Gauss-Bonnet. "
     "Laplacians (cotan, Crouzeix-Raviart, connection, polygon) are symmetric or Hermitian, positive semidefinite and vanish on constants; mass matrices integrate to the surface area; the discrete exterior derivative squares to zero, gradients are exact on linear functions and Laplacian = divergence of gradient. "
     "Intrinsic and embedded realizations of the same surface agree, as do quantities and their immediate versions.",
     ["histories", "inputs"],
     "every mesh (triangle, polygon, general, edge lengths only), every geometry, every sequence of edits",
     "tests check a few quantities on a few meshes for finiteness; identities must hold for every geometry and every connectivity, including deleted and permuted elements where indices and element ids differ",
     ["src/surface/intrinsic_geometry_interface.cpp", "src/surface/extrinsic_geometry_interface.cpp", "src/surface/embedded_geometry_interface.cpp", "src/surface/vertex_position_geometry.cpp", "include/geometrycentral/surface/intrinsic_geometry_interface.ipp", "include/geometrycentral/surface/vertex_position_geometry.ipp"],
     "per-element formulas and sparse matrices assembled through index maps of live elements",
     "values of the public quantity members and immediate functions, with independent formulas as the oracle",
     [("quantities", "per-element buffers and matrices")],
     "the simulator drives the evolution of mesh and geometry; each state is judged by identities with tolerances; near-degenerate states are not judged")

prop("C07", "Linear solvers and matrix utilities give correct results or fail loudly",
     "Every solver object and one-shot solve (least squares, square, positive definite; float, double, complex) returns a vector which solves its system up to rounding, every time it is used and independently of any other solver or of later changes to the matrix; eigen solvers return eigenvectors of the pencil. "
     "Block decomposition and reassembly, stacking, checks, conversions and the other matrix utilities give the exact result, and leave their inputs alone. "
     "Matrices written to a file or stream are read back exactly; wrong arguments, numerical failure and damaged, truncated or unwritable files are reported.",
     ["histories", "inputs", "fault_sequences"],
     "every interleaving of building, using and destroying solvers over matrices of every shape, scalar type, storage state and conditioning, and every stream fault during saving and loading",
     "the stable tests contain no solver at all; reuse of factorizations, uncompressed or empty matrices, rectangular and underdetermined systems and stream failures form an unbounded space",
     ["src/numerical/linear_solvers.cpp", "src/numerical/qr_solvers.cpp", "src/numerical/square_solvers.cpp", "src/numerical/positive_definite_solvers.cpp", "src/numerical/eigenproblem_solvers.cpp", "src/numerical/suitesparse_utilities.cpp", "include/geometrycentral/numerical/linear_algebra_utilities.ipp"],
     "Eigen sparse matrices are handed to SuiteSparse by hand-written conversions; factorizations are cached in the solver object; text formats for matrices",
     "return values, residuals, exceptions and files, against dense double or long double linear algebra",
     [("solver", "factorization, workspace, SuiteSparse context"), ("stream", "text of a matrix, possibly cut or damaged")],
     "systems which are singular up to rounding are judged by their rank only")

prop("C08", "MutationManager mutates as asked, informs every policy, obeys constraints",
     "Every reposition, flip, split, collapse and face split through a MutationManager changes the mesh exactly like the plain mesh operation, puts the affected vertex where the arguments say and leaves all other vertices alone. "
     "All policies registered with that manager, and no removed ones, are called exactly once in registration order, before it with the unchanged mesh and after it with the finished one and the right elements and parameters; data kept up to date through them therefore stays correct over any history. "
     "Constraints forbid exactly what they say and are passed on to the halves of split edges; a forbidden, impossible or aborted operation changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "every triangle mesh, every order of registering and removing policies of all kinds, setting and clearing constraints, mutating through one or several managers or directly, compressing, and policies throwing exceptions",
     "there are no tests of callbacks or constraints at all; what is shown to a callback, in which order, and what is left behind after removal or an exception depends on the history",
     ["src/surface/mutation_manager.cpp", "include/geometrycentral/surface/mutation_manager.h", "include/geometrycentral/surface/mutation_manager.ipp"],
     "lists of policy objects per kind of mutation, invoked around the mesh operation, with constraint containers updated by an internal policy",
     "callbacks of simulated policies, return values, mesh, positions and constraint arrays",
     [("policies", "registered callback objects, owned by the manager"), ("constraints", "flags per vertex, edge and face")],
     "simulated policies compare every callback with a model; sampled histories")

prop("C09", "Intrinsic triangulations keep describing the input surface under every edit",
     "After any sequence of intrinsic flips, edge splits, face and vertex insertions, vertex removals and relocations, Delaunay flips and refinement, a signpost or integer-coordinates triangulation is a valid triangulated manifold whose lengths satisfy the triangle inequality and describe the same surface: total area, boundary length, angle sums (2 pi at inserted vertices), Gaussian curvature at original vertices and Euler characteristic are those of the input. "
     "Each operation has its documented effect (which edges and vertices appear or vanish, what is returned, marked edges stay, callbacks see every edit), refusals change nothing, and cached quantities, signpost angles and normal coordinates agree with the edges. "
     "flipToDelaunay() ends with every unmarked edge Delaunay, refinement with the requested quality within its insertion limit.",
     ["histories", "inputs"],
     "every triangulated surface (closed, bounded, self-glued after flips), both data structures, every finite order of intrinsic edits with or without marked edges",
     "tests run refinement on a few models and compare final totals; one edit in an unusual configuration (self-edge, boundary, split of a marked edge, callback during refinement) is invisible there, and these tests are not in the stable set",
     ["src/surface/intrinsic_triangulation.cpp", "src/surface/signpost_intrinsic_triangulation.cpp", "src/surface/integer_coordinates_intrinsic_triangulation.cpp", "src/surface/normal_coordinates.cpp", "src/surface/simple_idt.cpp"],
     "every edit updates the mesh, edge lengths, signposts or normal coordinates and geometry caches by local formulas",
     "public mesh, lengths, signposts, normal coordinates, return values and callbacks of the triangulations",
     [("edge lengths", "intrinsic metric"), ("signpost angles", "direction of halfedges at vertices"), ("normal coordinates", "crossings with input edges"), ("vertex locations", "position of intrinsic vertices on the input")],
     "states whose triangles are degenerate up to rounding end a run; all other states are judged after every operation")

prop("C10", "Intrinsic and input triangulations correspond exactly: traces, points, overlay",
     "In every state of an intrinsic triangulation, tracing intrinsic edges over the input and input edges over the intrinsic triangulation gives paths with the right endpoints, length and crossings, and both directions agree. "
     "Points mapped between the triangulations and back return to the same place, and vertex locations are true. "
     "The common subdivision refines both triangulations: its faces have the right parents, interpolation reproduces values and functions linear on either side, and its lengths, areas and counts agree with both.",
     ["histories", "inputs"],
     "every sequence of intrinsic edits on every triangulated surface, both data structures, every edge, and every point",
     "tests check the overlay of one refined model; wrong branches need shared edges, split edges, self-edges, boundary traces or particular orders of edits",
     ["src/surface/common_subdivision.cpp", "src/surface/trace_geodesic.cpp", "src/surface/signpost_intrinsic_triangulation.cpp", "src/surface/integer_coordinates_intrinsic_triangulation.cpp", "src/surface/normal_coordinates.cpp", "include/geometrycentral/surface/surface_point.ipp"],
     "straight lines are traced with floating point through faces (signpost) or recovered from integer crossing counts (normal coordinates)",
     "trace functions, equivalentPoint functions, CommonSubdivision members, traceGeodesic",
     [("common subdivision", "points, slices and overlay mesh of the two triangulations")],
     "crossings which pass through vertices up to rounding are not judged; two known findings about self-glued faces are listed")

prop("C11", "Remeshing, subdivision, simplification and cutting keep their promises",
     "Remeshing, smoothing, edge length adjustment, Delaunay flipping and simplification change a mesh only by mutations they announce to the mutation manager they are given, never against a constraint, only where their documented criterion holds (length thresholds, angle sums, quadric cost) and leave nothing undone that the criterion demands; subdivision produces exactly the refined connectivity and the positions of its scheme, and cutting opens exactly the marked edges with a faithful map of parents. "
     "All of them keep the mesh valid and its topology, keep positions finite, leave no quantity required, and report truthfully what they did. "
     "Results depend on mesh, positions, constraints and options alone: not on deleted elements, earlier operations, cached quantities, or a policy that threw before.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of edits, constraints, required quantities and algorithm calls on every manifold mesh with non-degenerate triangles, with policies that throw at any callback",
     "the existing tests do not run these algorithms with policies, constraints, boundaries, uncompressed meshes or after other operations; errors are wrong positions or missed callbacks in rare configurations, visible only against a model of each single mutation",
     ["src/surface/remeshing.cpp", "src/surface/subdivide.cpp", "src/surface/quadric_error_simplification.cpp", "src/surface/surgery.cpp", "src/surface/mutation_manager.cpp"],
     "the algorithms interleave with policies registered by the user, which observe and may interrupt every mutation",
     "per-mutation judgement inside the callbacks, positions and connectivity recomputed from the definitions, the same operation in a fresh world",
     [("cached quantities", "shared with the user through the geometry"), ("policies", "simulated; throw at a scheduled callback")],
     "positions next to degenerate triangles are not judged; cuts that would join boundary loops are documented as not implemented and may be refused")
prop("C12", "Heat-based solvers are repeatable, faithful and without side effects",
     "On every connected surface, distance, scalar extension, vector transport, log map and signed distance queries return finite values that solve the discrete problem they are defined by (short-time heat or vector diffusion, normalised gradient, Poisson equation, the level set constraints asked for; source values and zero sets are kept), whichever way the sources are given. "
     "The answer is a function of surface, sources and diffusion time alone: a solver that was used, interrupted by a failed allocation or retimed before answers like a new one, and so do meshes with deleted elements, copies, other scales and positions, and the bare edge lengths. "
     "Queries change no input and leave no quantity required.",
     ["histories", "inputs", "fault_sequences"],
     "every connected triangle mesh (polygon mesh for the polygon solver), every order of queries with any admissible sources, edits of the mesh, quantities required or purged, and allocation failures in between",
     "tests ask one solver one question on a few closed compressed meshes and look at the range of the result; state that leaks from one query to the next, index mix-ups on edited meshes and singular systems need histories or particular inputs",
     ["src/surface/heat_method_distance.cpp", "src/surface/vector_heat_method.cpp", "src/surface/signed_heat_method.cpp", "src/surface/polygon_mesh_heat_solver.cpp", "src/surface/tufted_laplacian.cpp", "src/surface/intrinsic_mollification.cpp", "src/surface/simple_idt.cpp"],
     "solvers keep factorizations which are built on first use and share the geometry's cached quantities with their caller",
     "results of the queries against dense linear algebra written from the definitions, solver against fresh solver on equivalent surfaces",
     [("factorizations", "cached in the solver on first use"), ("required quantities", "counted by the geometry")],
     "ill-conditioned problems (by the reference's own condition number) are only asked, not judged")

prop("C13", "Geodesic and edge distances, fronts and level sets equal their definitions",
     "On every triangle mesh, exact geodesic distance, closest source, traced path, gradient and logarithm agree with the true shortest paths over the polyhedral surface from any set of vertex, edge and face sources (also after re-propagation and, on nonmanifold meshes, through nonmanifold edges and vertices), and a propagation limited by a radius or stop points answers correctly for what it was asked. "
     "Distance balls and shortest edge paths equal their definitions, fast marching gives the distances of its update rule from every source with the sign of the side of the curve, and level lines of a function are complete, oriented and at the value. "
     "Queries leave nothing required in the geometry and never return deleted elements.",
     ["histories", "inputs", "fault_sequences"],
     "every triangle mesh with any edit history (deleted elements included), any lengths or positions, any sources, radii and stop points, any order of propagations and queries, allocation failures in between",
     "tests run a geodesic query on a few closed meshes and look at ranges; lost windows, wrong sources and signs appear only for particular configurations of several sources, flat or boundary vertices, partial propagations or nonmanifold neighbourhoods",
     ["src/surface/exact_geodesics.cpp", "src/surface/exact_geodesic_helpers.cpp", "src/surface/exact_polyhedral_geodesics.cpp", "src/surface/mesh_graph_algorithms.cpp", "src/surface/fast_marching_method.cpp", "src/surface/marching_triangles.cpp", "src/surface/surface_centers.cpp", "src/surface/trace_geodesic.cpp"],
     "window propagation with interval lists per edge and a priority queue; Dijkstra-like fronts over cached edge lengths and angles",
     "results of the queries against the simulator's own distances found by unfolding triangles, and against direct statements of the update rules",
     [("interval lists", "windows per edge, kept between queries"), ("required quantities", "counted by the geometry")],
     "level lines through vertices exactly and fast marching cases decided by the rounding of a right angle are not judged")

prop("C14", "Point cloud quantities and solvers equal their definitions and stay current",
     "On every point cloud, neighborhoods, nearest neighbor queries, normals, tangent frames, coordinates and transport, local and tufted triangulations, Laplacians and gradients equal their definitions, for every admissible neighborhood size and in any order of requiring, purging, refreshing and moving points. "
     "Heat-based distance, extension, transport, log map and signed distance on the cloud solve the discrete problems they are defined by, also with opposite normals, several sources and several curves. "
     "Containers follow copies and outlive their cloud safely, and a failed allocation leaves everything usable.",
     ["histories", "inputs", "fault_sequences"],
     "every cloud (random, on surfaces, regular, planar, coincident points), neighborhood sizes, given or computed normals, any order of requires, purges, refreshes and solver queries, allocation failures in between",
     "tests require each quantity once on one scanned cloud and look at sizes; wrong signs, missing dependencies and singular systems need particular normals, orders or sources",
     ["src/pointcloud/point_cloud.cpp", "src/pointcloud/point_position_geometry.cpp", "src/pointcloud/point_position_normal_geometry.cpp", "src/pointcloud/point_position_frame_geometry.cpp", "src/pointcloud/neighborhoods.cpp", "src/pointcloud/local_triangulation.cpp", "src/pointcloud/point_cloud_heat_solver.cpp", "src/utilities/knn.cpp", "include/geometrycentral/pointcloud/point_cloud.ipp"],
     "quantities cached on first use with dependencies between them; solvers built lazily on the tufted triangulation",
     "public quantities and query results against brute force, exact Delaunay predicates and dense linear algebra",
     [("quantity cache", "per geometry, shared with the solver"), ("containers", "registered with the cloud"), ("solver", "factorizations kept between queries")],
     "triangulations are judged only where no predicate hangs on rounding; allocation failures inside Eigen's JacobiSVD are excluded (not exception safe)")

prop("C15", "Flattenings, direction fields and stripes equal their definitions",
     "On every triangle mesh of the stated kind, boundary first flattening (from scale factors, exterior angles or neither), disk uniformization and parameterization, smoothest, boundary-aligned and curvature-aligned direction fields, their indices and stripe patterns with isolines equal what they are defined to compute. "
     "This holds before and after any edits of the mesh, compressed or not, for geometry given by positions or lengths, rotated or scaled, and again after a failed allocation; surfaces of the wrong topology are refused. "
     "Inputs are left as they were and quantities the caller requires stay current.",
     ["histories", "inputs", "fault_sequences"],
     "every disk or other surface reached by edits, symmetry order, scale factors, angles, frequencies and fields; reused solvers; allocation failures in between",
     "tests compute one field or flattening per mesh and check that it is finite; wrong boundary handling, reused solvers and deleted elements need particular histories",
     ["src/surface/boundary_first_flattening.cpp", "src/surface/uniformize.cpp", "src/surface/parameterize.cpp", "src/surface/direction_fields.cpp", "src/surface/stripe_patterns.cpp", "src/surface/simple_idt.cpp"],
     "solvers factor matrices taken from the geometry's cached quantities, once or per query",
     "results against dense linear algebra and the definitions of angles, turning, increments and level lines",
     [("BFF solver", "factorizations kept between queries"), ("geometry", "cached quantities, required and released")],
     "nearly singular systems, repeated smallest eigenvalues and stripes whose sheets do not fit together on coarse curved meshes are not judged; uniformization only up to moderate curvature")

prop("C16", "Samples, transferred functions, intersections, embeddings meet their definitions",
     "On every triangle mesh, Poisson disk samples keep their distance from each other and from points to avoid and leave no gaps, geodesic Voronoi sites move by the mean of their cells, functions move between two triangulations of a surface as pointwise values or as the nearest function, reported intersections are exactly the segments in which triangles cross, and convex metrics embed as their convex polyhedron. "
     "This holds before and after any edits of the mesh, compressed or not, scaled or moved, and again after a failed allocation; polygons, boundaries, other genus and negative curvature are refused where they are not supported. "
     "Samples lie on live elements of the mesh and inputs are left as they were.",
     ["histories", "inputs", "fault_sequences"],
     "every surface reached by edits, spacing, points to avoid, random choices, intrinsic triangulation, pair of surfaces, folding and convex polyhedron; reused samplers; allocation failures in between",
     "tests run each algorithm once on one mesh; distances missed by bucket lookups, indices shared by two meshes, deleted elements and invalid tetrahedra need particular inputs",
     ["src/surface/poisson_disk_sampler.cpp", "src/surface/geodesic_centroidal_voronoi_tessellation.cpp", "src/surface/transfer_functions.cpp", "src/surface/intersection.cpp", "src/utilities/tri_tri_intersect.cpp", "src/surface/embed_convex.cpp"],
     "all-pairs checks of samples, own barycentric and mass matrices, own triangle-triangle crossing and convex hulls as references",
     "positions returned on the mesh, transferred values and matrices, reported segments, embedded vertex positions",
     [("PoissonDiskSampler", "buckets and options kept between calls"), ("geometry", "cached quantities, required and released"), ("library randomness", "reseeded by the simulator")],
     "crossings too close to an edge to call are not judged; embeddings only of polyhedra with 5 to 12 vertices without nearly flat edges or thin triangles")
