#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, re, subprocess, sys

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="", built=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        _level=" ".join(level.split()), _built=built))

B = "src/halfedge/mesh/builder/"
prop("C01", "Every edit history leaves a well-formed half-edge mesh",
 """After any history of mesh edit operations whose documented preconditions hold (adding vertices, edges, paths and loops, connecting vertices,
 closing faces and holes, removing faces, splitting and flipping edges, clearing), the mesh is a well-formed half-edge structure: twins are paired and point
 in opposite directions, next and previous are inverse, every cycle of next links lies in exactly one face or boundary, every face has exactly one cycle of
 at least three edges, all edges leaving a vertex are reached by its edge wheel, there are no loops or parallel edges, and the representatives of vertices and faces are incident to them.
 Iterators, lookups, counts and the built-in consistency check agree with this.""",
 ["histories", "inputs"], "all histories of edit operations with valid arguments, on meshes with any mixture of index types, with wire edges, several components, several boundaries and reused face slots",
 "The tests build a handful of fixed meshes; the links at a vertex with dangling edges, several boundaries, reused slots etc. are only reached by long mixed histories.",
 [B+"halfedge.rs", B+"builder.rs", B+"semi.rs", "src/halfedge/edge/halfedge.rs", "src/halfedge/mesh/check.rs", "src/mesh/vertex/halfedge.rs"],
 [("link updates of the edit operations", B+"halfedge.rs, "+B+"builder.rs, "+B+"semi.rs"), ("debug assertions of the preconditions", B+"halfedge.rs")],
 [("half-edges", "origin, twin, next, prev and face of every half-edge", "src/halfedge/edge/mod.rs"), ("representatives", "one edge per vertex and face", "src/halfedge/vertex/mod.rs, src/halfedge/face/mod.rs")],
 ["public accessors of mesh, vertices, edges and faces after every operation"])

prop("C02", "Edit operations change only what they must and never lose data",
 """Every edit operation has exactly its documented effect: the new elements get fresh ids and the given payloads, the returned ids denote the documented elements, and all other vertices, edges
 and faces keep their ids, links, payloads and curved flags.
 Removing a face returns its payload and makes its edges boundary edges, and closing the hole again restores the same mesh up to the face id.
 Cloning, flipping a clone and mutating payloads never affect anything else.""",
 ["histories", "inputs"], "all histories of edit operations with valid arguments and unique payloads on every element",
 "The tests use meshes without edge and face payloads and compare counts or positions; a payload on the wrong side of an edge or a disturbed neighbour is invisible to them.",
 [B+"halfedge.rs", B+"builder.rs", B+"semi.rs", "src/mesh/mesh/builder.rs"],
 [("link updates of the edit operations", B+"halfedge.rs"), ("payload arguments are moved into the new elements", B+"semi.rs")],
 [("payloads", "vertex, edge, face and mesh payload", "src/halfedge")], ["all links and payloads before and after each operation"])

prop("C03", "Deleted slots are reused safely and never alias live elements",
 """The container behind vertices, edges and faces behaves like a map from ids to elements under every sequence of adding, allocating, overwriting, deleting, clearing and mutating:
 ids of live elements never change or alias, a new id is never one that is in use, the length is the number of live elements, iteration yields exactly the live elements in id order, deleted slots are reused before the storage grows,
 and reading, mutating or overwriting is refused (by panicking) for ids that are deleted or live, respectively.""",
 ["histories"], "all sequences of operations on the slot container with any index type, including many delete and reuse cycles",
 "No test calls the container directly and only two delete faces at all.",
 ["src/util/deletable.rs"], [("free list", "src/util/deletable.rs")], [("free list", "ids of deleted slots", "src/util/deletable.rs")], ["return values and iteration of the container"])

prop("C04", "Traversal and incidence queries agree with the links of the mesh",
 """On every well-formed mesh, all traversals and queries give exactly the elements that the links define, each once and in the documented cyclic order: edges, vertices and neighbouring faces around faces, along boundaries (forwards and backwards), and around vertices;
 shared edges and faces, origin and target, boundary and manifold predicates, degrees, edge and vertex counts, twin pairs, and edge and face reachability.
 Iterators terminate, and iterators that know their length report the number of remaining items at every position.""",
 ["inputs", "histories"], "all meshes produced by edit histories, including open meshes, wire edges, isolated vertices and several components, and all pairs of elements in them",
 "The tests query a triangle and a cube; wheels at boundary vertices, dangling edges and repeated vertices in a face are not covered.",
 ["src/halfedge/vertex/iterator.rs", "src/halfedge/edge/iterator.rs", "src/halfedge/edge/halfedge.rs", "src/halfedge/vertex/basics.rs", "src/halfedge/face/mod.rs", "src/halfedge/mesh/basics.rs", "src/mesh/vertex/halfedge.rs", "src/mesh/mesh/halfedge.rs"],
 [("edge iterators", "src/halfedge/edge/iterator.rs"), ("vertex wheel", "src/halfedge/vertex/iterator.rs")], [], ["values yielded by the iterators and queries"])

prop("C05", "Splitting an edge inserts a chain without disturbing its surroundings",
 """Inserting any number of vertices into an edge, or subdividing an edge and its twin, replaces it by a chain through the new vertices in the given order between the same end points, with the given payloads on the given sides.
 Both sides keep their face or boundary, the faces keep their ids and cyclic order, the edge wheels at both end points keep their order, and nothing else changes; inserting no vertices changes nothing.""",
 ["histories", "inputs"], "every edge of every mesh that can be built: interior, boundary, wire and dangling edges, edges with the same face on both sides, any number of inserted vertices",
 "There is no test that inserts vertices into an edge at a dangling end or compares the links afterwards.",
 [B+"builder.rs", B+"semi.rs"], [("insertion of vertices into an edge", B+"builder.rs"), ("subdivision and fix-up of the twin", B+"semi.rs")], [], ["all links and payloads before and after"])

prop("C06", "Flipping edges only swaps the roles of a half-edge and its twin",
 """Flipping an edge exchanges the two half-edges of the pair (their origins, faces, and places in the next and previous links) while payloads stay with the ids, so that faces, boundaries and vertex wheels describe the same shape.
 Flipping twice restores every link, flipping the whole mesh flips every pair exactly once, and the flipped copy leaves the original untouched.""",
 ["histories", "inputs"], "every edge of every mesh that can be built, including dangling edges, isolated edges and edges inside one face",
 "The tests flip a triangle and a cube where no half-edge is the next of its own twin.",
 ["src/halfedge/edge/halfedge.rs", "src/mesh/mesh/halfedge.rs"], [("flip", "src/halfedge/edge/halfedge.rs")], [], ["all links and payloads before and after"])

prop("C07", "No safe use of the library causes undefined behaviour",
 """Running the library through its safe interface never causes undefined behaviour: no invalid, aliasing or out-of-bounds memory access, no use of freed or uninitialised memory, and no leak; the mutable references to elements that exist at the same time (for instance all half-edges around a face) are exclusive.
 This covers building, editing and traversing meshes (especially mutating all edges of a face), triangulating with every algorithm, and the geometry code.""",
 ["inputs", "histories"], "all edit histories, traversals, triangulations and conversions reachable through safe functions",
 "Tests observe return values; a mutable alias created inside an iterator or an access past the end of a buffer does not change them.",
 ["src/halfedge/edge/iterator.rs", "src/util/deletable.rs", "src/tesselate"], [("exclusive borrows of all edges of a face", "src/halfedge/edge/iterator.rs")], [], ["Miri's interpreter state", "AddressSanitizer reports"])

prop("C08", "Running out of ids is refused instead of aliasing elements",
 """For every index type, all ids below the reserved largest value can be used, and an operation that would need an id beyond them panics instead of wrapping around, handing out an id that is in use, or creating an element that cannot be accessed.
 Up to that point meshes with small index types behave exactly like meshes with large ones.""",
 ["inputs", "histories"], "all index types, alone or mixed, and all histories that reach the capacity",
 "All tests use 32- or 64-bit indices and never reach their limits.",
 ["src/math/index_type.rs", "src/util/deletable.rs"], [("range check when creating an index", "src/math/index_type.rs")], [("largest index", "reserved to mark missing elements", "src/math/index_type.rs")], ["ids and panics at the capacity limit"])

prop("C09", "Closed primitives are closed, oriented spheres with the right counts",
 """Every primitive solid (cuboids, pyramids, bipyramid-like polyhedra, prisms, antiprisms, frustums, cones, cylinders, platonic solids, dihedra, UV-, ico- and geodesic spheres) is, for every admissible size and resolution, a well-formed connected mesh without boundary and with Euler characteristic 2,
 with the number of vertices, edges and faces and the face sizes that define that solid.
 For solids with volume, all faces are consistently oriented so that the enclosed signed volume is positive, i.e., faces are counter-clockwise seen from outside.""",
 ["inputs", "configurations"], "all primitives, sizes and subdivision numbers",
 "The tests instantiate a few primitives with one parameter each and only some check more than the counts.",
 ["src/primitives/prismatoid.rs", "src/primitives/sphere.rs", "src/primitives/polygon.rs", "src/operations/subdivision.rs"], [("constructions by extrusion, loft and hole filling", "src/primitives/prismatoid.rs")], [], ["the mesh returned by the constructor"])

prop("C10", "Primitive solids have the documented dimensions",
 """The vertices of every primitive solid lie where its parameters say: on the sphere of the given radius, on regular rings of the given radii and height, with the given edge length for the regular and uniform solids, or spanning the given box, and all faces are planar where the solid's are.
 Regular solids are centred at the origin and congruent to the mathematical solid; the enclosed volume has the value of the closed formula.""",
 ["inputs", "configurations"], "all primitives with geometric parameters, for sizes over several orders of magnitude and all resolutions",
 "The tests compare almost no coordinates.",
 ["src/primitives/prismatoid.rs", "src/primitives/sphere.rs", "src/primitives/polygon.rs"], [("coordinate computations", "src/primitives")], [], ["vertex positions of the returned mesh"])

prop("C11", "Flat primitives are single faces with their outline in the given order",
 """Polygons, regular polygons, stars, zigzags and dihedra contain exactly the given points as one outline in the given cyclic order with a single face (two for dihedra), all other sides being boundary, and regular outlines have the given radii, number of corners and counter-clockwise orientation.
 Inserting several of them into one mesh keeps them as separate, independent components.""",
 ["inputs", "histories"], "all outlines, corner numbers and radii and all combinations in one mesh",
 "Only a few shapes with fixed parameters are created in the tests.",
 ["src/primitives/polygon.rs", "src/primitives/plane.rs", "src/halfedge/primitives/mod.rs", "src/primitives/misc.rs"], [("insertion of a loop and closing it", "src/primitives/polygon.rs")], [], ["mesh and returned edge"])

prop("C12", "Extrusion adds exactly a band of faces and a cap around the selection",
 """Extruding a boundary or face creates one translated or transformed copy of its outline, connects it to the outline with a band of quads (or triangles, as requested) without touching the rest of the mesh, and closes the top if asked to; the returned edge lies on the new outline.
 A closed mesh stays closed, the Euler characteristic of a face extrusion is preserved, all new positions are exactly the transformed ones, and faces that were not extruded keep their vertices, positions and ids.""",
 ["inputs", "histories"], "all meshes, boundaries and faces, all transformations, repeated extrusions",
 "The tests extrude single polygons via the primitives and mostly count elements.",
 ["src/operations/extrude.rs", "src/operations/loft.rs"], [("loft around the boundary and hole closing", "src/operations/extrude.rs")], [], ["mesh before and after"])

prop("C13", "Lofting builds the requested strip of faces along a boundary",
 """Lofting a boundary to a new row of vertices creates faces with the requested numbers of vertices on both sides in cyclic order, uses all given vertices in the given order, closes the strip only if asked to, keeps everything else unchanged, and leaves a well-formed mesh.
 The returned edges lie at the documented ends of the strip.""",
 ["inputs", "histories"], "all boundaries, strip lengths, vertex ratios, open and closed, forwards and backwards",
 "The tests cover a few ratios on one start polygon and compare with hand-made meshes.",
 ["src/operations/loft.rs"], [("polygon loft and triangle loft", "src/operations/loft.rs")], [], ["mesh before and after"])

prop("C14", "Hole filling with an apex or a single face closes exactly one boundary",
 """Filling a boundary with an apex creates one new vertex and one triangle per boundary edge, closing a hole creates one face along the boundary; both make all edges of that boundary interior and consistently oriented with their neighbours, and leave other boundaries, faces and positions unchanged.
 The Euler characteristic grows by one.""",
 ["inputs", "histories"], "all meshes with any number of boundaries of any length",
 "Only used indirectly for pyramids with one boundary.",
 ["src/operations/loft.rs", "src/operations/extrude.rs", B+"builder.rs"], [("loft to an apex", "src/operations/loft.rs")], [], ["mesh before and after"])

prop("C15", "Subdivision refines every triangle by the requested pattern",
 """Frequency and loop subdivision of a triangle mesh keep the mesh well-formed, keep its Euler characteristic, boundaries and orientation, keep the ids, positions and order of the original vertices, and split every triangle into the number of triangles given by the pattern, with new vertices created once per edge and interpolated from the corners of their triangle.
 The result does not depend on the order in which faces are stored.""",
 ["inputs", "configurations"], "all triangle meshes without a pair of faces on the same three corners, open or closed, with boundaries and several components, and all supported subdivision patterns (powers of two)",
 "The tests check a few counts for icospheres.",
 ["src/operations/subdivision.rs", "src/mesh/vertex/interpolator.rs"], [("subdivision of edges and faces", "src/operations/subdivision.rs")], [], ["mesh before and after"])

prop("C16", "Every triangulation algorithm partitions every simple polygon correctly",
 """For every simple polygon, every triangulation algorithm (fan only for convex ones) produces exactly n-2 triangles that use only the polygon's own vertices, have positive area up to rounding, do not overlap, cover exactly the polygon, contain every boundary edge exactly once and use only diagonals inside it.
 Appending to a non-empty index buffer leaves the existing indices untouched, and the same input always gives the same output.""",
 ["inputs", "configurations"], "all simple polygons (convex, concave, monotone, spiral, comb, star, collinear points, integer grids, tiny and huge coordinates) and all algorithms",
 "The tests use a small set of fixed shapes and random stars and check areas with a tolerance.",
 ["src/tesselate", "src/mesh/triangulation.rs"], [("ear clipping, sweep, Delaunay, minimum weight, special cases", "src/tesselate")], [], ["index buffer after triangulating a face"])

prop("C17", "Exported triangle meshes match the mesh",
 """Triangulating a whole mesh yields, for every face, triangles over its own vertices that together cover the face with its orientation for faces in any plane of space, no triangle for holes or boundaries, n-2 triangles per face, and vertex data that is exactly the vertices' data addressed by the indices.
 With flat normals each face gets its own copies of its corners with the unit normal of the face.""",
 ["inputs", "configurations"], "all meshes with planar faces of any size and orientation, with all algorithms, also with deleted faces and isolated vertices",
 "The tests only export a few primitives and hardly compare anything.",
 ["src/mesh/mesh/triangulate.rs", "src/tesselate/mod.rs", "src/halfedge/mesh/basics.rs", "src/mesh/face/face3d.rs", "src/mesh/triangulation.rs"], [("triangulation of all faces and compaction of the vertices", "src/mesh/mesh/triangulate.rs")], [], ["index and vertex buffers"])

prop("C18", "Minimum weight triangulation is optimal",
 """The minimum weight algorithm returns a triangulation whose total length of diagonals is minimal among all triangulations of the polygon, for every simple polygon and also for the special cases of three and four corners.
 No other algorithm of the library ever finds a lighter one.""",
 ["inputs"], "all simple polygons, convex or not, with ties, collinear points and near-degenerate diagonals",
 "The tests compare the weight with known values for few polygons.",
 ["src/tesselate/min_weight_dynamic.rs", "src/tesselate/fixed_n.rs", "src/mesh/triangulation.rs"], [("dynamic programme over visible diagonals", "src/tesselate/min_weight_dynamic.rs")], [], ["index buffer"])

prop("C19", "Delaunay triangulations respect the constraints and the circle criterion",
 """The Delaunay triangulation of a simple polygon keeps all its edges, and every diagonal of it is locally Delaunay: no corner opposite to a diagonal lies inside the circumcircle of the triangle on its other side (faces with at most four corners get the shorter diagonal instead, unless the Delaunay function is called directly).
 The Delaunay variant of the sweep does the same for every polygon that is monotone in the sweep direction.""",
 ["inputs"], "all simple polygons, including cocircular, collinear and integer grid points",
 "The tests only measure areas.",
 ["src/tesselate/delaunay.rs", "src/tesselate/sweep/monotone/delaunay.rs", "src/mesh/triangulation.rs"], [("constrained Delaunay triangulation", "src/tesselate/delaunay.rs"), ("edge flips inside a monotone piece", "src/tesselate/sweep/monotone/delaunay.rs")], [], ["index buffer"])

prop("C20", "Normals are unit vectors perpendicular to their faces",
 """The normal of a planar face is perpendicular to it and points to the side from which it is counter-clockwise, for every orientation, size and position of convex or concave faces.
 Smooth vertex normals are unit vectors equal to the normalised sum of the unit normals of the adjacent faces, are finite for all vertices, and change no position or topology; flat normals equal the face normal.
 Projecting a face into its plane keeps all lengths and makes it counter-clockwise.""",
 ["inputs"], "all meshes with planar faces in any orientation, including boundary and isolated vertices",
 "The tests check one or two axis-aligned faces.",
 ["src/mesh/face/face3d.rs", "src/mesh/mesh/normals.rs", "src/mesh/mesh/triangulate.rs"], [("normal of a face", "src/mesh/face/face3d.rs")], [], ["normals of faces and vertices"])

prop("C21", "Mesh comparison decides equality and isomorphism correctly",
 """Comparing meshes reports equivalence exactly if they are: equality by ids holds if and only if both meshes have the same ids, the same links (including the order of edges around vertices) and (if compared) positions, payloads or curves; isomorphism by position holds if and only if mapping vertices by position maps edges and face cycles onto each other, independent of ids and insertion order.
 Comparison is reflexive and symmetric, never panics, and reports any single change of a vertex, edge, face or orientation as a difference.""",
 ["inputs", "histories"], "all pairs of meshes with distinct positions: identical, renumbered, mutated, with different counts or missing elements",
 "The tests compare a cube with itself and a moved vertex.",
 ["src/mesh/mesh/basics.rs", "src/mesh/mesh/iso.rs"], [("vertex, edge and face correspondence", "src/mesh/mesh/basics.rs")], [], ["reported difference"])

prop("C22", "Graph queries agree with the edge graph of the mesh",
 """The shortest path between two vertices is a path of edges from one to the other with the minimal number of edges, and is absent exactly if they are not connected.
 Adjacency, degree and Laplacian matrices and the degree list, unweighted and by edge length, are those of the edge graph: symmetric, one entry per edge, Laplacian rows summing to zero.""",
 ["inputs"], "all meshes with consecutive vertices: open, closed, disconnected, with wires and isolated vertices, and all pairs of vertices",
 "The tests check one small mesh.",
 ["src/mesh/mesh/topology.rs", "src/mesh/mesh/netsci.rs"], [("breadth-first search", "src/mesh/mesh/topology.rs"), ("matrices from edges", "src/mesh/mesh/netsci.rs")], [], ["returned paths and matrices"])

prop("C23", "Planar predicates and measures agree with exact arithmetic",
 """Signed area, convexity, orientation, point-in-triangle and point-in-polygon tests, segment intersection, collinearity, angles, lengths and products of vectors, points, segments and polygons agree with exact arithmetic whenever the exact answer is not within rounding distance of the decision boundary.
 They are invariant under rotating the vertex order, and negate or stay the same as they should when the order is reversed.""",
 ["inputs"], "all points and polygons, including collinear, touching, duplicated-coordinate and large-offset ones",
 "The tests check a few points of fixed shapes.",
 ["src/math/vector2d.rs", "src/math/polygon.rs", "src/math/line_segment.rs", "src/extensions/nalgebra/math/vec_n.rs", "src/extensions/nalgebra/math/polygon.rs", "src/extensions/bevy/math/vec2.rs", "src/extensions/bevy/math/polygon.rs"], [("orientation and area formulas", "src/math")], [], ["return values"])

prop("C24", "Stable sums, means and centroids are accurate for any number of terms",
 """Stable sums of scalars are within rounding of the exact sum up to terms of second order, and stable sums of vectors are within a few units of rounding relative to the sum of magnitudes, independent of the number of terms and their order; the mean is that sum divided by the count.
 Centroids of edges, faces and meshes are the mean of their vertices.""",
 ["inputs"], "all sequences of finite numbers, including many terms, cancellation, and mixed magnitudes, for 32 and 64 bit",
 "The tests sum a few fixed values.",
 ["src/math/scalar.rs", "src/math/vector.rs", "src/mesh/mesh/position.rs", "src/mesh/face/mod.rs", "src/mesh/edge/basics.rs"], [("compensated summation", "src/math/scalar.rs")], [], ["returned sums"])

prop("C25", "Affine transformations obey the laws of composition",
 """For every backend and dimension, transformations built from identity, translations, rotations and scalings apply to points as the corresponding affine map and to vectors as its linear part; chaining applies the first and then the second, and adding a translation, rotation or scaling happens after the previous transformation.
 Rotations preserve lengths and angles, the rotation between two directions maps the first onto the second, including (anti)parallel ones, and interpolation of positions is linear and starts and ends at the given ones (up to rounding).""",
 ["inputs"], "all compositions of elementary transformations in 2, 3 and 4 dimensions with both math backends, including (nearly) parallel and opposite directions",
 "The tests compose one or two transformations.",
 ["src/math/transform.rs", "src/math/quaternion.rs", "src/math/transformable.rs", "src/extensions/nalgebra/math/transform_n.rs", "src/extensions/nalgebra/math/rotate.rs", "src/extensions/bevy/math/mat5.rs", "src/extensions/bevy/math/quat.rs", "src/extensions/bevy/math"], [("transform implementations", "src/extensions/*/math")], [], ["transformed points and vectors"])

prop("C26", "Transforming a mesh transforms every position and nothing else",
 """Transforming, translating, rotating or scaling a mesh moves every vertex position and every curve control point by exactly that map, keeps all ids, links and payloads, and keeps normals unit length and equal to the rotated normal for rotations and unchanged for translations.
 The copying variants leave the original unchanged and equal the in-place ones; flipping the coordinate axes is the documented permutation.""",
 ["inputs"], "all meshes (2d, 3d, curved) and all transformations",
 "The tests transform few meshes by one translation.",
 ["src/mesh/mesh/transform.rs", "src/mesh/vertex/transform.rs", "src/extensions/nalgebra/default_vertex_payload.rs", "src/mesh/edge/payload.rs", "src/extensions/bevy/vertex_payload_3d.rs", "src/extensions/bevy/vertex_payload_2d.rs"], [("transformation of all payloads", "src/mesh/mesh/transform.rs")], [], ["mesh before and after"])

prop("C27", "Flattening curves stays within the tolerance and leaves only lines",
 """Flattening the curved edges of a mesh replaces every curve by a chain of straight edges with the same end points whose vertices lie on the curve in order, whose distance from the curve is within (about) the tolerance, and which keeps straight edges, faces, their orientation and all original vertices.
 Afterwards no edge is curved, a tighter tolerance never gives fewer points, and flattening again changes nothing.""",
 ["inputs"], "all meshes with quadratic and cubic curves on either side of the edge, S-shaped, almost flat and strongly curved, and all positive tolerances",
 "There is no test of flattening accuracy.",
 ["src/mesh/mesh/basics.rs", "src/mesh/edge/curved.rs"], [("recursive subdivision until flat", "src/mesh/edge/curved.rs")], [], ["mesh before and after"])

prop("C28", "The path builder builds exactly the outline that was drawn",
 """Drawing lines, quadratic and cubic curves from a start point creates one vertex per drawn point in order, connected by one edge per command that carries the given curve in the drawn direction; starting at an existing vertex or edge extends the mesh there.
 Closing the path connects back to the start without duplicating vertices, creates exactly one face with the drawn outline, and leaves the rest of the mesh unchanged; the reported current and start positions and the closed state are right at any time.""",
 ["histories", "inputs"], "all sequences of path commands on empty or existing meshes",
 "Only one or two fixed paths are drawn in the tests.",
 ["src/mesh/mesh/path_builder.rs"], [("path state", "src/mesh/mesh/path_builder.rs")], [("current and start edges", "where the path goes on and where it closes", "src/mesh/mesh/path_builder.rs")], ["mesh and reported state after every command"])

prop("C29", "Text layout reproduces the glyph outlines in order",
 """Laying out text adds, for every character, its glyph's contours as closed faces with the same points and curves as in the font, scaled by the font scale and shifted by the advances of the preceding characters, and nothing for blank characters.
 The result is well-formed, scales linearly with the font scale, and does not depend on what was already in the mesh.""",
 ["inputs", "configurations"], "all strings over the glyphs of cubic and quadratic fonts, and all scales",
 "One test lays out one string and looks at the counts.",
 ["src/mesh/mesh/fonts.rs"], [("glyph outlines through the path builder", "src/mesh/mesh/fonts.rs")], [], ["mesh after layout"])

prop("C30", "SVG import reproduces every path of the image",
 """Importing an SVG adds one closed face per subpath of every visible path or basic shape, with exactly its points, lines and curves after applying all transformations of groups, elements, references and the view box, in drawing order; subpaths that are not closed are closed by a straight line.
 The result is well-formed, hidden elements add nothing, and the order and nesting of elements in the file and what was in the mesh before have no other effect.""",
 ["inputs"], "all images made of paths and shapes whose subpaths have at least three different corners, nested groups, references and transformations",
 "One test imports a single shape.",
 ["src/extensions/svg/svg.rs", "src/extensions/svg/mod.rs"], [("translation of path segments to the path builder", "src/extensions/svg/svg.rs")], [], ["imported mesh"])

prop("C31", "Converting a mesh to another type preserves it",
 """Converting a mesh to another dimension (or, with the bevy backend, to its index and payload types) keeps all vertices, edges, faces, links, curved flags, holes and the order of elements, maps every position to the same coordinates padded with zeros, and works for isolated vertices and meshes with deleted faces.
 The original is unchanged.""",
 ["inputs", "histories"], "all meshes, in all dimensions, with deleted faces, wires and isolated vertices",
 "One test converts a single star.",
 [B+"halfedge.rs", "src/extensions/nalgebra/mesh2d.rs", "src/extensions/nalgebra/mesh_nd.rs"], [("import of a mesh", B+"halfedge.rs")], [], ["both meshes"])

prop("C32", "Bevy export contains exactly the triangulated mesh",
 """Exporting to a bevy mesh gives a triangle list whose indices and position and normal attributes have consistent lengths and are exactly the triangulated faces of the mesh, with valid indices, for every triangulation algorithm.
 Removing attributes and exporting again gives the same result, and the bevy and the nalgebra backend give the same topology and positions for the same construction up to rounding.""",
 ["inputs", "configurations"], "all meshes with planar faces and all algorithms",
 "One test exports without looking at the result.",
 ["src/extensions/bevy/mesh3d.rs", "src/extensions/bevy/mesh2d.rs", "src/extensions/bevy/vertex_payload_3d.rs"], [("export of vertex attributes", "src/extensions/bevy/mesh3d.rs")], [], ["bevy mesh attributes"])

prop("C33", "The consistency check detects every corrupted link",
 """The built-in consistency check accepts every well-formed mesh whose edges all touch a face, and rejects every mesh in which a single link has been changed to another existing element: the next, previous, twin, origin or face of a half-edge or the representative of a vertex or face, whenever the change breaks the half-edge invariants.""",
 ["inputs"], "all meshes and all single-link corruptions to other valid ids",
 "The tests only ever call the check on valid meshes, so it could accept anything.",
 ["src/halfedge/mesh/check.rs"], [("list of invariants", "src/halfedge/mesh/check.rs")], [], ["result of the check"])

prop("C34", "Triangle lists report, flip and check exactly their own triangles",
 """A triangulation reports exactly the triangles that were appended since it was created on an index buffer, with their areas and total edge length; renaming and flipping the common edge of two triangles change only its own
 indices, a flip replaces abc and adb by adc and dbc, and a request that does not name the common edge is refused without a change.
 The self-checks accept every correct triangulation of a simple polygon and reject every list with a missing, surplus, repeated, reversed or crossing triangle, an unused or foreign vertex or a wrong total area.""",
 ["inputs", "fault_sequences"], "all triangulations of simple polygons with any vertex indices behind any earlier content of the index buffer, all flips, and all single kinds of damage that exceed the tolerances of the checks",
 "The tests only run the checks on correct triangulations, so they could accept anything.",
 ["src/mesh/triangulation.rs"], [("index buffer with a start offset, edge flips, verify functions", "src/mesh/triangulation.rs")], [], ["index buffer, reported measures, panics of the checks"])

# ------------------------------------------------------------------------------------------
BUILT = set(open("/verif/tools/built.txt").read().split())
NA = {}
TECH = {
 
}
def main():
    props = []
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        s = re.split(r"(?<=[.])\s+(?=[A-Z])", q["statement"])
        assert len(s) <= 3, (q["id"], len(s))
        props.append(q)
    with open("/verif/properties.jsonl", "w") as f:
        for q in props:
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in BUILT:
            checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                technique=TECH.get(i, "runtime monitoring: " + TECHNIQUE.get(i, "online monitors over generated workloads on the real code")),
                level="exploration", level_note=LEVEL.get(i, "Every execution of the generated workload is judged by an independent oracle; assurance is limited to the executions explored (counts in the evidence file). Trusts the oracle code in /verif and rustc.")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "the check for this property is not built yet")))
    m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=na,
        notes="No hooks are needed in /repo: all monitors read the public accessors. Exit 2 of a check means that it has no answer (e.g. the build failed).")
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open("/verif/MANIFEST.json", "a").write("\n")

TECHNIQUE = {
 "C01": "random edit histories; a well-formedness monitor reads all links after every step",
 "C02": "random edit histories; all links, ids and payloads compared with an exact reference model after every step",
 "C05": "random edit histories rich in edge splits, compared with an exact reference model after every step",
 "C16": "random simple polygons triangulated in 17 ways; an exact partition monitor judges every index buffer",
 "C17": "random scenes exported with every algorithm; monitors judge every face, corner and exported vertex",
 "C18": "optimum recomputed by an independent dynamic programme over exactly tested diagonals",
 "C19": "circle test of every diagonal with error bounds",
 "C03": "random operation sequences on the container, compared with a reference map after every step",
 "C04": "every traversal and query on meshes from random edit histories, compared with sequences derived from the raw links",
 "C07": "Miri (undefined-behaviour interpreter) and AddressSanitizer/LeakSanitizer over the workloads of all checks; exclusive mutable references checked natively",
 "C08": "edit histories up to the capacity of small index types, compared with the same history on large ones",
 "C09": "every primitive over random parameters; a monitor checks links, counts, face sizes and signed volume",
 "C10": "every primitive over random parameters; positions compared with closed formulas",
 "C11": "random outlines and shapes inserted into one mesh; the exact outline is expected",
 "C12": "random extrusions judged against an independently computed result",
 "C13": "random lofts judged against an independently computed result",
 "C14": "random hole fillings judged against an independently computed result",
 "C15": "random triangle meshes; the refined mesh is compared with an independently computed subdivision",
 "C20": "random faces and scenes; normals compared with exact areas and independent sums",
 "C21": "pairs of meshes (variants, renumbered reconstructions); verdicts compared with ones computed from raw links and positions",
 "C22": "meshes from random histories; paths and matrices compared with an independent graph search over the raw links",
 "C23": "random and adversarial points, segments and polygons; exact expansion arithmetic as the oracle",
 "C24": "random and adversarial sequences; exact expansion sums as the oracle",
 "C27": "random curved meshes flattened; an exact Bezier oracle measures deviation, order and what else changed",
 "C28": "random drawing commands on random meshes; links, payloads, curves and the reported state compared with a reference model after every command",
 "C29": "random texts in real and synthetic fonts; outlines, advances and kerning read directly from the font are compared with every face, vertex and curve",
 "C30": "random SVG documents built from known outlines; every face, vertex and curve of the imported mesh is compared with them",
"C34": "random triangulations by an independent ear cutter; contents, flips and verdicts of the self-checks on damaged lists compared with a model",
 "C33": "single-link fault injection into meshes from random histories; the verdict of the check is compared with an independent one",
 "C25": "random chains of transformations in both backends; every mapped point, vector and interpolation compared with an affine map in double precision",
 "C26": "meshes of seven types are transformed; every payload compared with an affine map in double precision, all links with those before",
 "C31": "meshes from random histories are converted; all links and payloads compared with the original",
 "C32": "random constructions run on both backends and exported with every algorithm; a partition monitor judges the triangles of every face in double precision",
 "C06": "random edit histories rich in flips, compared with an exact reference model after every step",
}
LEVEL = {}
if __name__ == "__main__":
    main()
