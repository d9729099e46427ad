"""What each property is, and what its check explores. bin/generate.py writes properties.jsonl and
MANIFEST.json from here; bin/check.py runs the jobs."""

import os

CHECKS = {}
U, T, M = "lib/mito/utilities/", "lib/mito/topology/", "lib/mito/materials/"
STATELESS = "stateless model checking: every operation sequence up to a depth, on the real code, against a reference model"
INPUTS = "bounded exhaustive enumeration of inputs on the real code, against an independent oracle"
TRUST = ("Exhaustive within the stated bounds, on the real code (no model of it): every step of every execution is compared "
         "with a reference model. Trusts the reference model in the harness, the compiler and the C++ library.")
TRUST_IN = ("Every input of the stated finite space is evaluated on the real code and compared with an oracle written "
            "independently of it. Nothing is claimed outside that space. Trusts the oracle, the compiler and the C++ library.")
NOSHIM = []


def add(id, title, statement, over, text, why, files, mechanism, jobs, bounds, level="model_checking",
        technique=None, note=None, rule=None, state=(), observe=(), assumptions=()):
    CHECKS[id] = dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)),
        jobs=jobs, bounds=bounds, level=level, rule=rule,
        technique=technique or (STATELESS if level == "model_checking" else INPUTS),
        note=note or (TRUST if level == "model_checking" else TRUST_IN), assumptions=list(assumptions))


# ------------------------------------------------------------------------------- utilities
add("C01", "Shared handles keep their resource alive exactly as long as needed",
    "A handle to a shared resource denotes the same object, and the resource counts exactly the handles that denote it, "
    "after any sequence of creating, copying, moving, assigning (also to itself, or from a handle of the same resource), "
    "resetting and destroying handles; null handles can be copied, assigned and compared. "
    "A handle that owns its resource destroys it exactly once, when the last handle lets go, and never earlier. "
    "Handles compare equal, and hash alike, if and only if they denote the same object.",
    ["histories"], "every history of handle operations over a few handles and resources",
    "the unit tests walk through one scripted history per constructor; aliasing (self-assignment, move between handles of one "
    "resource, null operands) only shows in particular combinations of earlier operations",
    [U + f for f in ("SharedPointer.h", "SharedPointer.icc", "Shareable.h", "Shareable.icc", "StdSharedPointer.h", "StdSharedPointer.icc", "utilities.h")],
    [("reference counting in the special members of the handle", U + "SharedPointer.icc"), ("counter in the resource", U + "Shareable.icc"),
     ("owning handle over the standard shared pointer", U + "StdSharedPointer.icc")],
    [dict(src="c01_shared.cc", asan=True, shards="all")],
    {"quick": "all histories of up to 6 operations on 2 handles and 2 resources, 5 on 3 handles; merged states (4 handles x 3 resources, 5 x 2) up to 12-14 operations; up to 131074 handles to one resource, 400 resources compared pairwise",
     "thorough": "as quick, one operation deeper"},
    state=[("references", "number of handles to a resource", U + "Shareable.h")], observe=["references()", "id()", "is_nullptr()", "destructor of the resource"])

add("C02", "The segmented container holds exactly the elements inserted and not erased",
    "After any history of insertions, erasures and iterations, the container holds exactly the elements inserted and not erased: "
    "size, iteration (pre- and post-increment, mutable and constant) and access agree, and each surviving element keeps its value and its "
    "address for its whole life. Each element is constructed once and destroyed once; slots of erased elements are reused before the container grows.",
    ["histories"], "every history of insertions and erasures (any victim) for segment sizes 1 to 4, including histories that spill over several segments",
    "the tests erase one or two hand-picked elements at one segment size; wrong reuse or wrong skipping depends on the pattern of holes across segment ends",
    [U + f for f in ("SegmentedVector.h", "SegmentedAllocator.h", "SegmentedAllocatorIterator.h", "SegmentedContainerIterator.h", "Invalidatable.h")],
    [("free list of erased locations and segment growth", U + "SegmentedAllocator.h"), ("skipping of invalid elements", U + "SegmentedContainerIterator.h")],
    [dict(src="c02_vector.cc", asan=True, shards="all")],
    {"quick": "all histories of up to 9 operations for each segment size 1..4, up to 6 for an odd-sized element, 5 at segment size 100; 3000 merged states; all erase patterns (stride 1..4, offset) of up to 30 elements; up to 40000 elements filled, thinned and refilled; gaps of 300000 erased elements",
     "thorough": "11 operations, 60000 merged states, erase patterns of up to 60 elements"},
    state=[("available locations", "slots of erased elements", U + "SegmentedAllocator.h")], observe=["size()", "begin()/end()", "constructors and destructors of the element"])

add("C03", "A repository never drops a resource in use, nor destroys one twice",
    "A repository hands out a live resource for every insertion and keeps it, with its identity and its value, until it is erased with nobody else using it; "
    "erasing a resource that someone still uses changes nothing. "
    "Size and iteration reflect exactly the resources present, and every resource is destroyed exactly once, when it is erased or when the repository goes away.",
    ["histories"], "every history of inserting, looking up, copying and dropping handles, and erasing, for several segment sizes",
    "one test inserts and erases in a fixed order; use-while-erased and double destruction need an erase interleaved with outstanding handles and later reuse of the slot",
    [U + "Repository.h", U + "SegmentedAllocator.h", U + "SegmentedContainerIterator.h", U + "SharedPointer.icc"],
    [("erase guarded by the reference count", U + "Repository.h"), ("destruction of the live resources only", U + "Repository.h")],
    [dict(src="c03_repository.cc", asan=True, shards="all")],
    {"quick": "all histories of up to 7 operations for segment sizes 1..3, 6 at segment size 100, 2500 merged states for sizes 1..4 (up to 8 live resources); up to 40000 resources filled, thinned and refilled; gaps of 200000 erased ones",
     "thorough": "10 operations, 8 at segment size 100, 60000 merged states"},
    observe=["size()", "begin()/end()", "resource()", "references()", "destructor of the resource"])

# ------------------------------------------------------------------------------- topology
TOPO_BOUNDS = {
    "quick": "all histories of building (from vertices in every order, from boundaries), flipping, dropping and erasing: segments on 2 vertices to depth 5, "
             "segments and triangles on 3 vertices to depth 3-4, triangles on 4 vertices to depth 5, tetrahedra on 4 and 5 vertices to depth 3-4; "
             "from empty, used and nearly full registries; and crowds: all segments on 200, triangles on 50 and tetrahedra on 26 vertices at once",
    "thorough": "one operation deeper in every configuration, all 12 even rotations of a tetrahedron's boundary"}


def topo(focus):
    return [dict(src="c04_identity.cc", flags=["-DFOCUS=%d" % focus], shards="all")]


add("C04", "The same simplex is always the same object",
    "Building a simplex from its vertices in any even reordering, from its oriented boundary, or by flipping its opposite twice, always gives the same object while it exists; "
    "an odd reordering gives the object with the opposite orientation riding on the same footprint. Simplices on different vertices never share an object or a footprint.",
    ["histories"], "every history of building, flipping, dropping and erasing segments, triangles and tetrahedra over few vertices",
    "the tests build a handful of simplices in one order; identity depends on which orientation of each face was registered first and on what was erased in between",
    [T + f for f in ("Topology.icc", "OrientedSimplexFactory.h", "SimplexFactory.h", "OrientedSimplex.h")],
    [("representative of the class of compositions", T + "SimplexFactory.h"), ("map from footprint and orientation to the oriented simplex", T + "OrientedSimplexFactory.h")],
    topo(1), TOPO_BOUNDS, state=[("registries", "oriented and unoriented simplices by footprint", T + "OrientedSimplexFactory.h")],
    observe=["id()", "footprint()", "orientation()", "vertices()"])
add("C05", "A simplex reports consistent vertices, edges and boundary",
    "A simplex reports the vertices it was built from, up to an even permutation, and exactly their edges; its oriented boundary is that of its vertex order, and the boundary has no boundary. "
    "The flip of a simplex has the same faces with the opposite orientation; heads and tails of segments and their connection agree with the vertex order.",
    ["histories", "inputs"], "every vertex order and construction route of segments, triangles and tetrahedra, on every previous history up to a depth",
    "the tests inspect single simplices built first-hand; what a simplex reports depends on the route and orientation in which its faces were first registered",
    [T + f for f in ("Simplex.h", "OrientedSimplex.h", "utilities.h", "Topology.icc")],
    [("recursive collection of vertices and edges", T + "Simplex.h"), ("odd permutation for flipped simplices", T + "OrientedSimplex.h")],
    topo(2), TOPO_BOUNDS, observe=["vertices()", "edges()", "composition()", "head(), tail(), headTailConnected()", "isValid()", "sanityCheck()"])
add("C06", "Existence queries and counts reflect what was built and not erased",
    "A simplex is reported as existing, in a given orientation, if and only if it was built in that orientation and has not been erased, whichever way it was built; "
    "the number of simplices of each order is exact, and asking changes nothing.",
    ["histories"], "every history of building, flipping, dropping and erasing over few vertices, all queries after each step",
    "the tests ask about one or two simplices after one script",
    [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "SimplexFactory.h"],
    [("lookup of the composition and orientation", T + "OrientedSimplexFactory.h"), ("existence of segments from vertices", T + "Topology.icc")],
    topo(4), TOPO_BOUNDS, observe=["exists()", "exists_flipped()", "n_simplices()"])
add("C07", "Erasing a simplex removes what only it used, and nothing else",
    "Erasing a simplex that nobody else uses removes it together with those of its faces, edges and vertices that nothing else uses, and leaves everything else unchanged; "
    "erasing one that is still in use changes nothing. Once all that was built has been erased, nothing is left.",
    ["histories"], "every history of building, flipping, dropping and erasing over few vertices, with every erase order",
    "two tests erase one triangle of one small complex; which subsimplices are shared, and held in which orientation, takes many forms",
    [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "SimplexFactory.h", U + "Repository.h"],
    [("recursive erasure guarded by reference counts", T + "Topology.icc"), ("erasure of footprints", T + "OrientedSimplexFactory.h")],
    topo(8), TOPO_BOUNDS, observe=["exists()", "n_simplices()", "sanityCheck() of survivors"])
add("C08", "Only closed, consistently oriented boundaries make a simplex",
    "A collection of faces is accepted as the boundary of a simplex if and only if the faces are those of a simplex on the right number of distinct vertices and are consistently oriented, "
    "in whatever order they are listed and however they were registered; anything else is rejected and leaves no simplex behind. The same goes for repeated vertices.",
    ["inputs"], "all ordered collections of oriented vertices, edges (4 vertices) and faces (4 vertices; unordered on 5)",
    "no test feeds an inconsistent collection; the accepted set must be checked over all combinations, not for one valid triangle",
    [T + "utilities.h", T + "OrientedSimplexFactory.h"],
    [("net orientation of the ridges", T + "utilities.h"), ("rejection on construction", T + "OrientedSimplexFactory.h")],
    [dict(src="c08_invalid.cc", shards="all")],
    {"quick": "all 36 pairs of oriented vertices, all vertex tuples over 4 vertices, all ordered triples of 12 directed edges, all ordered quadruples of 8 faces on 4 vertices, all multisets of 4 of 20 faces on 5 vertices; faces registered first-hand or as flips",
     "thorough": "edges on 5 vertices, faces on 6 vertices, all registration styles"},
    observe=["isValid()", "simplex(composition)", "n_simplices()", "exists()"])
add("C09", "Flipping a diagonal swaps the two triangles of a quadrilateral",
    "Flipping the shared edge of two adjacent, consistently oriented triangles gives the two triangles on the other diagonal, with the same outline and orientation, whichever way the given triangles were built, flipped or listed. "
    "Flipping twice gives back the original pair; erasing the old triangles removes the old diagonal and leaves the new triangles intact.",
    ["inputs", "histories"], "all labelings, orientations, construction routes and list orders of a pair, and all sequences of flips of triangulated polygons up to a depth",
    "one test flips one pair of triangles built in one way",
    [T + "FlipDiagonal.h", T + "FlipDiagonal.icc"],
    [("search for the shared edge and walk of the outline", T + "FlipDiagonal.icc")],
    [dict(src="c09_flip.cc", shards="all")],
    {"quick": "13824 pairs; all flip sequences of polygons with 4 to 7 vertices up to depth 3-5", "thorough": "flip sequences up to depth 5-7"},
    observe=["flip_diagonal()", "vertices()", "composition()", "exists()"])

# ------------------------------------------------------------------------------- math, tensor
add("C10", "The sign of a permutation is its parity",
    "The sign of any sequence with respect to any reordering of it is +1 or -1 according to the parity of the reordering, for every element type and container; "
    "it is the same for the inverse, flips with every exchange of two entries, and leaves its arguments alone. Two sequences are said to have the same elements if and only if they agree as multisets.",
    ["inputs"], "all permutations against all reference orders of up to 6 elements (7 against one), all pairs of sequences over small alphabets",
    "one test computes the sign of a few permutations of three elements",
    ["lib/mito/math/combinatorics.h"], [("sorting by exchanges", "lib/mito/math/combinatorics.h")],
    [dict(src="c10_permutations.cc", shards="all")],
    {"quick": "all pairs of permutations of up to 6 elements, all permutations of 7 against one reference, all pairs of sequences of length up to 4 over 3 letters; rotations, reversals, transpositions and strides of 7 to 16, and a dozen lengths up to 520, against each other",
     "thorough": "all pairs of permutations of 7, all permutations of 8 against one reference, longer sequences"}, level="exploration",
    rule="one case per (sequence, reference) pair; non-trivial when the two differ; distinct by content", observe=["permutation_sign()", "same_elements()"])
add("C11", "Exterior algebra obeys its laws",
    "A one-form built from a vector and a metric pairs with vectors through that metric; sums, differences and scalar multiples of forms act pointwise. "
    "Tensor products multiply, and wedge products of one-forms, in any grouping, are the determinant of the pairings, hence multilinear and antisymmetric. "
    "Fixing any subset of the arguments of a form and supplying the rest later gives the same value. The basis vectors and matrices are the canonical ones.",
    ["inputs"], "all one-forms and vectors with small integer components in two and three dimensions, all argument slots",
    "the tests use a few basis vectors, for which missing or misplaced terms often vanish",
    ["lib/mito/tensor/" + f for f in ("Form.h", "factories.h", "forms_algebra.h", "tensor.h", "wedge.h", "api.h")],
    [("tensor products", "lib/mito/tensor/tensor.h"), ("wedge products", "lib/mito/tensor/wedge.h"), ("partial contraction", "lib/mito/tensor/Form.h")],
    [dict(src="c11_forms.cc", shards="all")],
    {"quick": "one-forms over {-2..2}^2 and {-1..2}^3 with 64 metrics each; products of two over {-1..2}^2 and {0,1}^3, of three over 6 vectors; in integers, exactly, and in three systems of units in which rounding occurs, to 1e-11",
     "thorough": "products of two over {-2..2}^2 and {-1..1}^3, of three over 10 vectors"}, level="exploration",
    rule="one case per tuple of forms and arguments; distinct by the tuple", observe=["form(...) with vectors and placeholders"])

# ------------------------------------------------------------------------------- materials
add("C12", "Linear elasticity follows Hooke's law",
    "For every admissible pair of elastic constants and every deformation, the stress is the isotropic linear function of the symmetric strain, the energy is half their product and never negative, "
    "and the tangents are their constant, fully symmetric derivative; in particular a bar under tension shows Young's modulus and Poisson's ratio. "
    "The consistency test accepts the material and tells it from one with a single wrong stress or tangent component.",
    ["inputs"], "all deformation gradients on a 3^9 lattice and a grid of constants",
    "one test checks consistency at one random deformation of size 0.1 and one set of constants",
    [M + "LinearElastic.h", M + "MaterialConsistencyTest.h", M + "factories.h"],
    [("Lame parameters", M + "LinearElastic.h"), ("finite differences", M + "MaterialConsistencyTest.h")],
    [dict(src="c12_materials.cc", flags=["-DFOCUS=1"], shards="all")],
    {"quick": "21 parameter sets on the full 3^9 lattice {0, 1/8, -1/4} around the identity, 14 more on a subset; the lattices {0, t, -t} for t from 1e-9 to 1e6 on 1/7, singular ones at 1/3; consistency by fourth-order differences on 1/81 of it; 91 faults at 8 states",
     "thorough": "all parameter sets on the full lattice {0, 1/8, -1/2}"}, level="exploration",
    rule="one case per parameter set and deformation gradient; non-trivial when the deformation is not the identity",
    observe=["energy()", "stress()", "tangents()", "consistency_test()"], assumptions=["floating point: agreement to 1e-10 relative to the moduli"])
add("C13", "The Gent material derives its stress and tangents from its energy",
    "For every parameter set and every admissible deformation, the Gent material has the energy of the model, its stress is the derivative of the energy and its tangents are the derivative of the stress; the reference configuration is free of energy and stress. "
    "The response does not depend on rotations of the observer or of the material, and exerts no torque. The consistency test accepts the material and tells it from one with a single wrong component.",
    ["inputs"], "all admissible deformation gradients on a 3^9 lattice and a grid of parameters",
    "one test checks consistency at one random deformation of size 0.1 and one set of parameters, where the volumetric terms are negligible",
    [M + "Gent.h", M + "MaterialConsistencyTest.h", M + "factories.h"],
    [("closed-form derivatives", M + "Gent.h"), ("finite differences", M + "MaterialConsistencyTest.h")],
    [dict(src="c12_materials.cc", flags=["-DFOCUS=2"], shards="all")],
    {"quick": "36 parameter sets on the admissible part of the 3^9 lattice {0, 1/8, -1/4} (some subsampled 1 in 9), tangents on 1/27; the lattices {0, t, -t} for t from 1e-6 to 8 on 1/37, with tangents; differences on 1/243, 28 rotations on 1/81; 91 faults at 8 states",
     "thorough": "all parameter sets and tangents on the full lattice"}, level="exploration",
    rule="one case per parameter set and admissible deformation gradient; non-trivial when the deformation is not the identity",
    observe=["energy()", "stress()", "tangents()", "consistency_test()"], assumptions=["floating point: agreement to 1e-10 relative to the moduli"])

# ------------------------------------------------------------------------------- meshes
G, ME = "lib/mito/geometry/", "lib/mito/mesh/"
add("C14", "A mesh is a multiset of cells, and its boundary is what they do not share",
    "After any history of inserting cells by their nodes, inserting copies and flipped copies, erasing cells, removing duplicates and moving the mesh, it holds exactly the cells inserted and not erased, "
    "each with its nodes in the order in which they were given, and counts them. "
    "A face is on the boundary if and only if the cells of the mesh, added with their orientation, do not cancel on it; the boundary mesh consists of those faces, oriented as the cell sees them, "
    "and the boundary of a boundary is empty. Filters yield exactly the simplices of each order the mesh has, and the nodes of a mesh are those of its cells.",
    ["histories"], "every history of mesh operations over a few nodes, with either orientation registered beforehand or not",
    "the tests build three or four fixed meshes with consistently oriented cells; cells sharing footprints, flipped cells and erasures never meet in them",
    [ME + f for f in ("Mesh.h", "Boundary.h", "Boundary.icc", "Filter.h", "Filter.icc", "utilities.h", "factories.h")] + [G + "GeometricSimplex.h", G + "utilities.h"],
    [("cell insertion and erasure", ME + "Mesh.h"), ("boundary", ME + "Boundary.icc"), ("filters", ME + "Filter.icc")],
    [dict(src="c14_mesh.cc", shards="all", shim=True)],
    {"quick": "all histories of up to 5 operations on meshes of segments (3 nodes, D=1), 4 on segments in the plane, triangles (4 nodes, D=2; 3 nodes in all orders, D=3), 3 on tetrahedra (5 nodes); each with no simplex, the positive or the negative ones registered before",
     "thorough": "one operation deeper"},
    state=[("cells", "the multiset of the cells", ME + "Mesh.h")], observe=["cells()", "nCells()", "boundary(mesh)", "filter<I>(mesh)", "get_nodes(mesh)"])
add("C15", "Refining a mesh subdivides every cell, and nothing else",
    "For every number of refinements, every cell is replaced by 2^N equally large cells per refinement (N the order of the cell), which lie in it, do not overlap, are oriented as it is, and have their corners at the midpoints of its edges. "
    "The refined cells match across every interior face, also between neighbours and in any order of the nodes of the cells, sharing the same nodes there; the boundary of the refined mesh is the refined boundary. The original mesh is left as it was.",
    ["inputs"], "every order of the nodes of one and of two adjacent cells in one to three dimensions, every number of refinements",
    "the tests refine one mesh of each kind and compare the total length, area or volume, which do not reveal mismatched faces or cells assigned twice",
    [ME + "tetra.h", ME + "Mesh.h", G + "CoordinateSystem.h"], [("recursive subdivision", ME + "tetra.h")],
    [dict(src="c15_refine.cc", shards="all", shim=True)],
    {"quick": "one cell in every order of its nodes: segments up to 9 refinements, triangles 5, tetrahedra 3; two adjacent triangles up to 3 (also with one erased), two tetrahedra up to 2",
     "thorough": "12, 6 and 5 refinements; two triangles 5, two tetrahedra 3"}, level="exploration",
    rule="one case per shape, order of the nodes and number of refinements; distinct by these", observe=["tetra(mesh, system, n)", "cells()", "boundary_size(mesh)"],
    assumptions=["coordinates are small integers times powers of two, so that midpoints and the oracle are exact"])

add("C16", "Partitioning a mesh assigns every cell to exactly one part",
    "For every mesh and every number of parts, each cell of the mesh belongs to exactly one of the parts, with its nodes, coordinates and orientation, and the parts have no other cells. "
    "The assignment is the same whenever it is computed for the same mesh, so that processes partitioning it on their own agree, and it leaves the mesh as it was.",
    ["inputs"], "every mesh made of some of the cells of a grid, every number of parts",
    "the tests partition one grid into two parts and compare the number of cells; cells lost, shared or assigned differently from process to process depend on the mesh",
    [ME + "metis/" + f for f in ("Partitioner.h", "Partitioner.icc", "api.h")], [("assignment of cells to parts", ME + "metis/Partitioner.icc")],
    [dict(src="c16_partition.cc", shim=True, libs=["-lmetis"])],
    {"quick": "every non-empty subset of the cells of a chain of 7 segments, a grid of 8 triangles and a complex of 8 tetrahedra, into up to 7 or 8 parts (3 in space), each built in three ways", "thorough": "a chain of 9, a grid of 12"},
    level="exploration", rule="one case per mesh, way of building it and number of parts", observe=["metis::partition(mesh, n, rank)"],
    assumptions=["Metis itself is trusted only to return some assignment of the elements it is given: what is checked is the translation of the mesh to and from it"])
add("C17", "Writing a mesh to a summit file and reading it back gives the same mesh",
    "Every mesh written to a summit file and read back has the same cells in the same order, with the same nodes at the same coordinates (to the 15 digits written) and the same orientation, "
    "and nodes are shared between cells exactly as the mode of writing promises: by identity for continuous, by point for discontinuous reading. Writing what was read reproduces the file, up to white space and the numbering of its points. "
    "Files written by other programs, with any layout of white space and any element label, are read alike; wrong files are refused.",
    ["inputs"], "every small complex, every node order, coordinates of any magnitude",
    "the tests read one file and write one mesh; precision, orientation, sharing of nodes and tolerance to layout are not looked at",
    ["lib/mito/io/summit/" + f for f in ("reader.h", "writer.h", "MeshSummitWriter.h", "summit_cell.h")], [("reader", "lib/mito/io/summit/reader.h"), ("writer", "lib/mito/io/summit/MeshSummitWriter.h")],
    [dict(src="c17_summit.cc", shim=True, shards="all")],
    {"quick": "segments, triangles, tetrahedra in up to three dimensions, every sequence of up to 3 cells on 4 or 5 nodes in two opposite orders, 4 choices from 16 coordinate values of magnitudes 1e-300 to 1e23, with or without element type; 3^5 layouts of foreign files per shape", "thorough": "16 choices of coordinates"},
    level="exploration", rule="one case per shape, node order and choice of coordinates", observe=["summit::reader", "summit::writer", "the file"])
add("C18", "Coordinates of every kind describe the same affine space",
    "For all points and vectors, in cartesian, polar and spherical coordinates alike, adding a vector to a point and subtracting points are inverse to each other and agree with the positions in space, expressed in the orthonormal frame at the first point; "
    "so do distances and midpoints. Transformations between kinds of coordinates preserve positions and return the canonical range. A coordinate system returns the coordinates each point was placed at, after any history, also after conversion. "
    "The component functions extract the components.",
    ["inputs", "histories"], "every pair of points and every vector on a lattice including the origin and the axis, every history of placing points",
    "the tests use one or two generic points; origin, axis, negative and large angles never occur in them",
    [G + f for f in ("algebra_coordinates.h", "cartesian/algebra.h", "polar/algebra.h", "spherical/algebra.h", "cartesian/api.h", "polar/api.h", "spherical/api.h", "coordinate_transformation.h", "CoordinateSystem.h")],
    [("affine algebra", G + "polar/algebra.h"), ("transformations", G + "coordinate_transformation.h"), ("placement of points", G + "CoordinateSystem.h")],
    [dict(src="c18_coordinates.cc", shim=True)],
    {"quick": "all pairs of 5^D cartesian points, of 113 polar, of 274 spherical points, with 125 vectors each; all histories of up to 4 operations on coordinate systems", "thorough": "finer angles, one operation deeper"},
    level="exploration", rule="one case per pair of points, or point and vector; non-trivial when they differ",
    observe=["A + v", "B - A", "distance(A, B)", "transform_coordinates<T>(A)", "coordinates(point)", "midpoint(p, q)"], assumptions=["floating point: agreement to 1e-12"])
add("C19", "A geometric simplex is its nodes in their order, and measures follow from them",
    "For every choice and order of nodes, in every kind of coordinates, a geometric simplex has these nodes in this order, its topological simplex is oriented accordingly, and barycenter, directors and parametrization are those of the nodes. "
    "Nodes are equal only to themselves and bind one vertex to one point. Rebuilding, copying and flipping keep this; flipping the diagonal of two triangles yields the two others of their quadrangle. The point cloud yields its points.",
    ["inputs", "histories"], "every choice and order of the nodes, several placements of them",
    "the tests build simplices in one order each", [G + f for f in ("GeometricSimplex.h", "PointCloud.h", "Point.h", "utilities.h", "factories.h", "ReferenceSimplex.h")],
    [("nodes and orientation", G + "GeometricSimplex.h"), ("diagonal flip", G + "utilities.h"), ("point cloud", G + "PointCloud.h")],
    [dict(src="c19_geometry.cc", shim=True)],
    {"quick": "all orders of the nodes of segments, triangles, tetrahedra from sets of up to 5 nodes in 1..3 dimensions, in cartesian, polar and spherical coordinates, with each orientation registered before or not; every order of two adjacent triangles; a cloud of up to 350 points", "thorough": "tetrahedra from 6 nodes, 1000 points"},
    level="exploration", rule="one case per placement and order of nodes", observe=["nodes()", "simplex()", "barycenter()", "directors()", "parametrization()", "flip_diagonal()"])

# ------------------------------------------------------------------------------- functions
F = "lib/mito/functions/"
add("C20", "Functions compose and differentiate according to the rules of calculus",
    "Every expression built from components, constants, the library functions and functors by sums, differences, products, quotients, compositions, subscripts, transposes, linear combinations, determinants, inverses and dyadic products, "
    "with constants on either side, is well-formed and has the value of the operations applied to the values of its parts. Its partial derivatives, their matrix and its second derivatives are those of that function, wherever it is differentiable. "
    "Functions are values: copies and repeated evaluations agree.",
    ["inputs"], "every operation applied to every form of expression, at every point of a lattice",
    "the tests differentiate some thirty expressions at one point each; the rules are selected by the types of the operands, and a wrong rule for a combination that no test has, or a term that vanishes at the point chosen, goes unnoticed",
    [F + f for f in ("function.h", "algebra.h", "derivation_rules.h", "library_functions.h", "library_derivatives.h", "partial_derivatives.h", "factories.h", "traits.h")],
    [("evaluation", F + "function.h"), ("differentiation", F + "derivation_rules.h")],
    [dict(src="c20_functions.cc", shim=True, opt="-O0", flags=["-DFOCUS=%d" % i], deep=["-DDEEP"], must_compile=w) for i, w in (
        (1, None), (2, "an operation on two functions"), (3, "a summation or linear combination"), (4, "a composition, or its derivative,"),
        (5, "an operation on vector-valued functions"), (6, "a composition with a vector-valued function, or its derivative,"), (7, "an operation on matrix-valued functions"), (8, "an operation on vector-valued functions of a scalar"))],
    {"quick": "22 unary operations in chains of up to two, 4 operations on pairs from 11 forms of expressions, 5 expressions of three parts, 12 outer forms composed with 4 inner ones and composed once more, "
              "6 forms of vector-valued and 3 of matrix-valued functions with constants and each other; in one and two variables, on a 6^D lattice; first derivatives, second for the unary operations",
     "thorough": "all pairs, chains and triples, compositions with all forms, second derivatives, three variables, on a 13^D lattice"}, level="exploration",
    rule="one case per expression; non-trivial if it is differentiable at some point of the lattice", observe=["f(x)", "derivative<I>(f)", "derivative(f)"],
    assumptions=["floating point: agreement to 1e-11 relative to the largest intermediate result; points within 0.05 of a singularity are only evaluated, and overflowing ones left out"])

FI = "lib/mito/fields/"
add("C21", "Fields, forms and metrics obey the calculus of their coordinates",
    "The gradient and divergence of every scalar, vector (of any number of components) and tensor field are those of its partial derivatives, and so are their combinations. "
    "In cartesian, polar and spherical coordinates the basis one-forms are dual to the basis vectors, the metric is the products of the basis vectors, the volume form is the determinant in an orthonormal frame, "
    "and taking the metric equivalent of a form and of a vector are inverse to each other and preserve the pairing. Tensor and wedge products of fields of forms are those of their values at every point.",
    ["inputs"], "every operator on every form of field, at every point of a lattice, with every small vector",
    "the tests check one field per operator at one point; the metric equivalent of a vector field is not tested at all",
    [FI + f for f in ("differential.h", "fields_algebra.h", "forward.h")] + ["lib/mito/geometry/" + f for f in ("metric_space.h", "metric.h", "basis.h", "polar/metric.h", "polar/basis.h", "spherical/metric.h", "spherical/basis.h", "cartesian/metric.h", "cartesian/basis.h")],
    [("differential operators", FI + "differential.h"), ("duality of forms and vectors", "lib/mito/geometry/metric_space.h"), ("products of forms", FI + "fields_algebra.h")],
    [dict(src="c21_fields.cc", shim=True, opt="-O0", flags=["-DFOCUS=%d" % i], deep=["-DDEEP"], must_compile=w) for i, w in (
        (1, None), (2, "an operator on a vector field"), (3, "an operator on a scalar field in space"), (4, "an operator on a tensor field in space"), (5, "the metric space of cartesian coordinates"), (6, "the metric space of polar or spherical coordinates"))],
    {"quick": "10 scalar fields in 1 to 3 dimensions, 5 vector fields of each of 2->2, 2->3, 3->2, 3->3 dimensions, 5 tensor fields, on a 6^D lattice, with up to two operators; forms and metrics at 4, 12, 36 cartesian, 36 polar, 108 spherical points with all vectors over three values",
     "thorough": "more fields, 13^D lattice, finer angles"}, level="exploration",
    rule="one case per operator and field, or point and products of forms; non-trivial if differentiable at some point", observe=["gradient(f)", "divergence(f)", "metric_space<X>::e, dx, g, g_inv, w, metric_equivalent", "wedge(...)", "tensor(...)"],
    assumptions=["floating point: agreement to 1e-11 (1e-9 for triple products)"])

# ------------------------------------------------------------------------------- quadrature, manifolds
Q = "lib/mito/quadrature/"
MA = "lib/mito/manifolds/"
add("C22", "Quadrature is exact to its degree, and volumes are those of the cells",
    "Every quadrature rule has its points in the reference cell and integrates every polynomial up to its degree exactly. For every mesh, in cartesian, polar and spherical coordinates, "
    "the volume of a manifold or submanifold is the sum of those of its current cells, whatever the order of their nodes, and the integral of a field over it is the sum of the integrals over its cells, "
    "evaluated at the quadrature points in space; both are linear, and follow the insertion and erasure of cells.",
    ["inputs", "histories"], "every monomial for every rule, every order of the nodes of the cells, every subset of cells",
    "the tests integrate one field over one mesh per rule, in one node order", [Q + f for f in ("Integrator.h", "QuadratureRule.h", "QuadratureTable.h", "quadrature_tables_segments.icc", "quadrature_tables_triangles.icc", "quadrature_tables_tetrahedra.icc")] + [MA + f for f in ("Manifold.h", "factories.h")],
    [("quadrature rules", Q + "quadrature_tables_triangles.icc"), ("integration", Q + "Integrator.h"), ("volume", MA + "Manifold.h")],
    [dict(src="c22_integrals.cc", shim=True)],
    {"quick": "all rules, all monomials up to their degree; all orders of the nodes of segments, triangles, tetrahedra in 1..3 dimensions, all pairs of cells, all erasures, in three kinds of coordinates", "thorough": "the same, with more placements"},
    level="exploration", rule="one case per rule and monomial, or placement and order of nodes", observe=["quadrature_table", "integrator(manifold).integrate(f)", "volume()"],
    assumptions=["floating point: agreement to 1e-12", "the first node of a cell is away from the origin and the axis, where polar and spherical volume forms are singular"])

# ------------------------------------------------------------------------------- discretization
DI = "lib/mito/discrete/"
FE = "lib/mito/fem/"
add("C23", "Discrete fields map exactly their keys to values",
    "A field over a mesh has one value at each node of its current cells, and nowhere else; one made from a function has its values at the positions of the nodes, in coordinates of every kind; fields over quadrature points have an array per cell, and over points one value per point in use; values begin at zero. "
    "After any history of insertions, writes (also through references and iteration) and moves, reading, iteration and size agree with the last values written, and reading what has no entry is refused and makes none; equal handles denote the same entry, distinct nodes at one place, or a simplex and its flip, different ones.",
    ["histories", "inputs"], "every history of operations on a field of up to three keys; every mesh within small grids, with every erasure of a cell",
    "the tests insert and read one entry", [DI + f for f in ("DiscreteField.h", "factories.h", "DiscretizationNode.h")],
    [("entries", DI + "DiscreteField.h"), ("fields over meshes", DI + "factories.h")],
    [dict(src="c23_discrete.cc", shim=True)],
    {"quick": "all histories of up to 5-6 operations for 7 types of keys and values; all sets of up to 6 segments, 8 triangles, 6 tetrahedra, in 1..3 dimensions, in cartesian, polar and spherical coordinates, less any one of the cells", "thorough": "7-8 operations"},
    observe=["field(key)", "insert", "size()", "begin()/end()", "name()"])
add("C24", "Elements have the shape functions of their degree, and blocks integrate them",
    "On every non-degenerate segment and triangle, linear and quadratic shape functions are the polynomials of their nodes: they are one at their node and zero at the others, add up to one, and have the gradients in space that these have. "
    "The map from the reference element and its jacobian are those of the corners. Mass, stiffness, source and norm blocks are the integrals over the oriented element by the points of their rule, exact whenever the integrand is within its degree. "
    "Weak forms are the sums of the blocks added to them.",
    ["inputs", "histories"], "every element with corners on a lattice, every shape function, block and rule; every sequence of blocks",
    "the tests compute one or two blocks on the unit element each, where many mistakes in jacobians and gradients cancel",
    [FE + f for f in ("Weakform.h", "localize.h", "blocks/MassBlock.h", "blocks/GradGradBlock.h", "blocks/SourceTermBlock.h", "blocks/L2NormBlock.h", "elements/seg1/IsoparametricSegmentP1.h", "elements/seg1/ShapeSegmentP1.h",
                      "elements/tri1/IsoparametricTriangleP1.h", "elements/tri1/ShapeTriangleP1.h", "elements/tri2/IsoparametricTriangleP2.h", "elements/tri2/ShapeTriangleP2.h")],
    [("shape functions", FE + "elements/tri2/ShapeTriangleP2.h"), ("isoparametric map", FE + "elements/tri2/IsoparametricTriangleP2.h"), ("blocks", FE + "blocks/GradGradBlock.h"), ("sums of blocks", FE + "Weakform.h")],
    [dict(src="c24_elements.cc", shim=True, flags=["-DFOCUS=1"]), dict(src="c24_elements.cc", shim=True, flags=["-DFOCUS=2"], must_compile="a quadratic element, or a block on it,")],
    {"quick": "all 56 ordered pairs of 8 positions, all well-shaped ordered triples of a distorted 3x3 grid, small and large ones; 4 blocks with 2 or 4 rules and monomials up to their degree; sequences of up to 4 blocks", "thorough": "4x4 grid, sequences of up to 5 blocks"},
    level="exploration", rule="one case per element", observe=["shape<a>()", "gradient<a>()", "parametrization()", "jacobian()", "compute(element)", "compute_blocks(element)", "localize(f, element)"],
    assumptions=["floating point: agreement to 1e-12 relative to the size of the terms"])
add("C25", "Function spaces share degrees of freedom, and fields on them are continuous",
    "For every mesh and every choice of constrained sides, a function space has one element per cell, one degree of freedom per node (and per edge, for quadratic elements), shared by exactly the elements there; the constrained ones are those on the sides. "
    "Fields have one value, initially zero, per degree of freedom; on each element they are the combination of the shape functions, they are continuous across elements and reproduce polynomials up to the degree of the elements. "
    "L2 and H1 norms are the integrals of the squares of the difference, and of its gradient in space.",
    ["inputs"], "every set of cells of small grids, in any order and numbering of their corners, with every choice of constrained sides",
    "the tests interpolate one linear function on one mesh; constraints, quadratic spaces and norms are not tested at all",
    [FE + f for f in ("FunctionSpace.h", "FemField.h", "norms.h", "localize.h", "utilities.h", "elements/seg1/DiscretizerCG.h", "elements/tri1/DiscretizerCG.h", "elements/tri2/DiscretizerCG.h")] + ["lib/mito/constraints/Dirichlet.h"],
    [("degrees of freedom", FE + "elements/tri2/DiscretizerCG.h"), ("fields", FE + "FemField.h"), ("norms", FE + "norms.h")],
    [dict(src="c25_spaces.cc", shim=True, flags=["-DFOCUS=1"]), dict(src="c25_spaces.cc", shim=True, flags=["-DFOCUS=2"], must_compile="a space of quadratic elements")],
    {"quick": "all sets of 5 segments and of 8 triangles, with the whole boundary constrained; all subsets of the sides for up to 2 triangles (any number of segments); no or one side for up to 6 triangles, for all numberings of the corners of up to 3", "thorough": "all subsets of the sides for 3 triangles, all numberings of up to 4"},
    level="exploration", rule="one case per mesh and choice of constraints", observe=["elements()", "connectivity()", "node_map()", "constrained_nodes()", "fem_field()", "localize()", "compute_l2_norm", "compute_h1_norm"],
    assumptions=["floating point: agreement to 1e-11", "cells are positively oriented where norms are computed, as these take the square root of signed integrals", "constrained sides are sides of cells of the mesh"])

add("C26", "Discrete systems assemble the weak form over unconstrained degrees of freedom",
    "For every mesh, choice of constrained sides and sequence of blocks, a discrete system has exactly one equation per unconstrained degree of freedom; assembling it puts into the linear system, for each pair of these, the sum of the entries of all blocks on the elements that share them, and nothing for constrained ones. "
    "Solving, any number of times, assembles this system once, and reads each value of the solution back to its own degree of freedom; constrained ones stay at zero.",
    ["inputs", "histories"], "every set of cells of small grids with every choice of constrained sides, every set of blocks, each entry of which differs from all others",
    "the tests solve two boundary value problems on one mesh, and look at a norm of the error", [FE + f for f in ("DiscreteSystem.h", "Weakform.h", "FunctionSpace.h", "FemField.h", "factories.h", "utilities.h")] + ["lib/mito/solvers/LinearSolver.h", "lib/mito/constraints/Dirichlet.h"],
    [("assembly", FE + "DiscreteSystem.h"), ("solving", "lib/mito/solvers/LinearSolver.h"), ("constraints", "lib/mito/constraints/Dirichlet.h")],
    [dict(src="c26_systems.cc", shim=True, flags=["-DFOCUS=1"]), dict(src="c26_systems.cc", shim=True, flags=["-DFOCUS=2"], must_compile="a system of quadratic elements")],
    {"quick": "all sets of 5 segments with all subsets of their sides; all sets of 8 triangles, linear and quadratic, with the whole boundary constrained, all subsets of the sides for up to 2, no or one for up to 5, three numberings of the corners; 6 to 32 sets of blocks", "thorough": "all subsets of the sides for 3 triangles, no or one for all"},
    level="exploration", rule="one case per mesh and choice of constraints", observe=["n_equations()", "assemble()", "linear_system()", "read_solution()", "solution()", "linear_solver(system).solve()"],
    assumptions=["the linear system and its solver are stand-ins that record what they are given (C27 is about the real ones)", "constrained sides are sides of cells of the mesh", "floating point: agreement to 1e-10 relative to the entries"])
PS = "lib/mito/matrix_solvers/backend/petsc/"
add("C27", "PETSc linear systems and solvers solve what was put into them",
    "After every history of adding to and inserting into the entries of a matrix and a right-hand side, assembling and solving, in any order that PETSc permits, the solution is that of the system put in by then. "
    "The options given to a solver, however many and however spaced, are those it solves with, and do not affect any other, whatever the names of their systems. "
    "For every mesh and choice of constrained sides, a boundary value problem is solved to the solution of its discrete equations, however often it is solved.",
    ["histories", "inputs"], "every history of operations on systems of two and three equations; every order of the operations on two systems with related names; every set of cells of small grids with choices of constrained sides",
    "the tests fill one matrix once and solve it, and solve boundary value problems on one mesh, with one set of options", [PS + f for f in ("PETScLinearSystem.h", "PETScLinearSystem.cc", "PETScLinearSystem.icc", "PETScKrylovSolver.h", "PETScKrylovSolver.cc", "factories.h")] + ["lib/mito/solvers/LinearSolver.h", FE + "DiscreteSystem.h"],
    [("linear systems", PS + "PETScLinearSystem.cc"), ("options", PS + "PETScKrylovSolver.cc"), ("solving", "lib/mito/solvers/LinearSolver.h")],
    [dict(src="c27_petsc.cc", shim=True, flags=["-DFOCUS=%d" % k], opt="-O1", repo_src=[PS + "PETScKrylovSolver.cc", PS + "PETScLinearSystem.cc"], libs=["-lmpi_cxx", "-lmpi", "-lpetsc_real"]) for k in (1, 2)],
    {"quick": "histories of 3-4 operations for 2 equations, 2 for 3, with 4 sets of options; 6 orders x 5 pairs of names x 2 on two systems; all orders of 5 options, in one or two calls, 4 values, 3 spacings; 4 problems on all sets of up to 5 segments and 3 triangles, linear and quadratic, and on all of them", "thorough": "4-5 and 3-5 operations; all sets of up to 8 (6) triangles"},
    level="exploration", rule="one case per history, order or problem", observe=["add/insert_matrix_value", "add/insert_rhs_value", "assemble()", "set_options", "solve()", "get_solution", "discrete_system(...).solution()"],
    assumptions=["one process: communication between several is not explored", "floating point: agreement to 1e-9", "adding and inserting are separated by assembling, as PETSc requires"])

IO = "lib/mito/io/"
add("C28", "VTK writers hand over exactly the cells, points and fields they were given",
    "For every mesh, cloud of points or function space, in coordinates of every kind, what is written has one point per node (or point), at its place in cartesian coordinates, one cell of the right kind per cell, on its nodes in their order, "
    "and for each field recorded one array by its name with the value at each node attached to its point, as it was when recorded. This goes to the file named, or, by several processes, to one for each and one for all that counts them.",
    ["inputs", "histories"], "every set of cells, in two orders, of small grids with two nodes at one place; every history of recording into two writers, writing, changing the field and the mesh",
    "the tests write files that nobody reads", [IO + "Writer.h"] + [IO + "vtk/" + f for f in ("FieldVTKWriter.h", "GridVTKWriter.h", "MeshVTKWriter.h", "NodeVTKWriter.h", "PointCloudVTKWriter.h", "ParallelGridVTKWriter.h", "vtk_cell.h", "vtk_point.h", "factories.h")],
    [("meshes", IO + "vtk/MeshVTKWriter.h"), ("fields", IO + "vtk/FieldVTKWriter.h"), ("places", IO + "vtk/vtk_point.h")],
    [dict(src="c28_vtk.cc", shim=True, flags=["-DWITH_VTK", "-DWITH_PARALLEL_VTK", "-isystem", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "vtk")])],
    {"quick": "all sets of 4-5 segments, triangles, tetrahedra in 1..3 dimensions, cartesian, polar and spherical; clouds of up to 6 points; function spaces on all sets of 5 cells, linear and quadratic; up to 3 processes; histories of 5 operations", "thorough": "7 cells, histories of 7 operations"},
    observe=["grid_writer(...).write()", "field_writer(...).record(field, name)", "parallel_..._writer"],
    assumptions=["VTK is not installed: its classes are stand-ins that record what they are given (harness/vtk/standin.h), and MPI ranks are set by the harness", "floating point: places agree to 1e-7"])

PY = "extensions/mito/mito.cc"
add("C29", "Python objects compute what the library does, and keep what they need alive",
    "In python, coordinates of two and three dimensions are the numbers they are made of, by index and by iteration, and an index outside raises IndexError; wrong numbers of components, or things that are not numbers, are errors. "
    "A scalar field is its python function, called anew each time, whose exceptions are passed on. For every mesh read from a file the cells can be counted and iterated over, and the integral of every polynomial of degree two is exact. "
    "After every history of binding and forgetting names, whatever can still be named works as if nothing had been forgotten.",
    ["histories", "inputs"], "every history of creating and forgetting coordinate systems, meshes, their cells, manifolds, integrators and fields; every set of cells of a small grid with numberings of their corners; a lattice of coordinates and functions",
    "the tests are five scripts, which keep every name to their end, and integrate one function on one mesh", [PY, "extensions/mito/external.h"],
    [("bindings", PY)],
    [dict(src="c29_python.cc", shim=True, asan=True, shards="all", flags=["-DFOCUS=%d" % k, "-UWITH_MPI", "-UWITH_PETSC", "-UWITH_METIS", "-I/usr/include/python3.12"], libs=["-lpython3.12"]) for k in (1, 2)],
    {"quick": "all histories of up to 7 operations on 7 names, merged states until there are no more; all sets of 8 triangles, all numberings of the corners of up to two; 16 or 64 points, 9 or 27 functions", "thorough": "8 operations; all sets of 12 triangles"},
    observe=["mito.Coordinates2D/3D", "mito.ScalarField2D/3D", "mito.SimplicialMesh2D(...).cells", "mito.GaussIntegrator2Triangle2D(...).integrate"],
    assumptions=["the module runs in an embedded interpreter (CPython 3.12, pybind11 2.11) under the address sanitizer, so that a use after destruction is seen where it happens", "a coordinate system is asked about the points of meshes read into it only", "floating point: agreement to 1e-11"])

# properties that are stated, but not claimed
NOT_APPLICABLE = []

add("C30", "Integrals and fluxes survive refining, partitioning, storing and changing a mesh",
    "After any sequence of refining a mesh, keeping a part of a partition of it, erasing and adding cells, writing it and reading it back, and taking its coordinates to another kind and back, "
    "its volume and the integrals of polynomials over it are those of its cells, those over the parts of a partition add up to those over the mesh and those over the refined mesh equal them; "
    "and the integral of the divergence of a field over it is the flux of the field through its boundary mesh.",
    ["histories", "inputs"], "every mesh made of some of the cells of a grid, every sequence of these operations, every polynomial field up to degree two",
    "the tests verify the divergence theorem on one mesh with hand-made boundaries; what gets lost between two modules depends on the mesh and on what was done to it before",
    [ME + "Boundary.icc", ME + "Mesh.h", ME + "tetra.h", ME + "metis/Partitioner.icc", "lib/mito/io/summit/reader.h", "lib/mito/io/summit/MeshSummitWriter.h", "lib/mito/manifolds/Manifold.h",
     "lib/mito/manifolds/factories.h", "lib/mito/quadrature/Integrator.h", "lib/mito/fields/differential.h", G + "CoordinateSystem.h", G + "coordinate_transformation.h", G + "GeometricSimplex.h"],
    [("boundary of a mesh", ME + "Boundary.icc"), ("integrals over manifolds and submanifolds", "lib/mito/quadrature/Integrator.h"), ("volume forms of submanifolds", "lib/mito/manifolds/factories.h"),
     ("divergence", "lib/mito/fields/differential.h")],
    [dict(src="c30_pipelines.cc", shim=True, shards="all", libs=["-lmetis"])],
    {"quick": "all sequences of up to 5 operations from a mesh of 5 triangles, 3 from each of its subsets, 3 from a mesh of 6 tetrahedra, 2 from each of its subsets; 12 and 18 fields at each step; 3 and 2 operations from meshes around the origin and in three other quadrants and octants", "thorough": "one operation deeper"},
    observe=["integrate(f)", "volume()", "boundary(mesh)", "divergence(f)", "tetra(mesh, system)", "metis::partition(mesh, n, rank)", "summit::reader, summit::writer"],
    assumptions=["the faces of a boundary are oriented as their cells see them: with the right-hand normal pointing outwards in the plane and inwards in space",
                 "coordinates are compared to 12 digits, integrals to 10"])

# how many cells the meshes have that are built besides the enumerated ones, where growth (of segments of storage, of
# buckets, of numbers with more digits) is what can go wrong
MANY = {
    "C14": ("1300 segments, 1152 triangles, 1296 tetrahedra", "5000, 5000, 7986"),
    "C15": ("300 segments, 288 triangles, 384 tetrahedra, refined up to twice (tetrahedra: once)", "refined once more"),
    "C16": ("1100 segments, 1152 triangles, 1296 tetrahedra in up to 64 parts", "3000, 3200, 4374"),
    "C17": ("4500 segments, 1152 triangles, 1296 tetrahedra", "20000, 9800, 10368"),
    "C18": ("systems of 500 to 5000 points", "the same"),
    "C22": ("1700 segments, 1568 triangles, 2058 tetrahedra", "the same"),
    "C23": ("1300 segments, 1152 triangles, 1296 tetrahedra, of which all, every third or every fiftieth are kept", "5000, 5000, 7986"),
    "C25": ("1100 segments, 1152 triangles (512 quadratic ones), their nodes and corners in another order", "3000, 3200, 1800"),
    "C26": ("1200 segments, 2312 triangles (128 quadratic ones), their nodes and corners in another order", "5000, 7200, 200"),
    "C27": ("450 segments, 800 triangles, 200 quadratic ones", "1200, 1152, 338"),
    "C28": ("1100 segments, 1152 triangles, 2058 tetrahedra", "the same"),
}
for _id, (_q, _t) in MANY.items():
    CHECKS[_id]["bounds"]["quick"] += "; besides, " + ("" if _id == "C18" else "block meshes in up to three orders of their cells: ") + _q
    CHECKS[_id]["bounds"]["thorough"] += "; many: " + _t

# the units of length (of entries) besides one: what is small is not nothing
UNITS = {
    "C15": "2^-40 and 2^40", "C18": "1e-9, 1e-4 and 1e7", "C19": "1e-9 and 1e7", "C22": "1e-7, 1e-3 and 1e6", "C24": "from 1e-9 to 1e6", "C25": "1e-3 and 1e-7",
    "C21": "1e-9 and 80 (of radii)", "C28": "2^-40 and 2^40", "C30": "2^-30 and 2^30", "C26": "1e-15 and 1e12 (of entries)", "C27": "2^-60 (2^-30 when solved by LU) and 2^40 (of entries, of the matrix and of the right-hand side)",
}
# checks that repeat some of their meshes in the other quadrants and octants
for _id in ("C24", "C25", "C26", "C28"):
    for _t in ("quick", "thorough"): CHECKS[_id]["bounds"][_t] += "; some of the meshes again in the other quadrants and octants, away from the origin"
for _id, _u in UNITS.items():
    for _t in ("quick", "thorough"): CHECKS[_id]["bounds"][_t] += "; some of the meshes, points or systems again in units of " + _u
