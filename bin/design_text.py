"""The specification and the oracle of every check in words, for DESIGN.md (bin/generate.py)."""
TEXT = {
"C01": "Alphabet: create, copy, move, assign (all pairs of slots, so also to itself and between handles of one resource), reset, destroy, compare, hash. Oracle: a table from slots to resources; after every step the count of each resource, its identity, the (non-)nullness of each slot and the number of destructions are compared. Both the intrusive and the owning handle. Reaches the aliasing that scripted tests do not have.",
"C02": "Alphabet: insert, erase any live (or already erased) element, move the container, iterate in four ways. Oracle: a list of slots with their values and addresses, and a log of constructions and destructions by address (address sanitizer on). Bounds include segments of every small size so that holes straddle the ends of segments.",
"C03": "Alphabet: emplace, copy and drop handles, erase (in use or not), look up by id, iterate, destroy the repository. Oracle: a table of resources with their holders; resources own heap memory and a handle, like simplices.",
"C04": "Alphabet: build from vertices in every order, from boundaries in every order and orientation, flip, copy, drop, erase, over few vertices. Oracle: a table from sets of vertices and orientation to the identity of object and footprint. One history per process, as the topology is a singleton; also begun from used and nearly full registries, so that slots are reused. And crowds (C04–C07): every simplex on many vertices at once, both ways, rebuilt in every order, some erased: keys that are too short collide only there.",
"C05": "The same histories; after every step every live simplex is asked for its vertices, edges, composition, head and tail, boundary and boundary of the boundary, against combinatorics on the order of the vertices.",
"C06": "The same histories; after every step all existence queries over all tuples of vertices, and the numbers of simplices, against a table with counts of what is kept alive by what; queries are repeated to show that they change nothing.",
"C07": "The same histories, with erasures in every order; oracle: reachability in the model (what is held by a handle or is a face of something held). At the end of every history all is erased and nothing may be left.",
"C08": "Every composition over few vertices — tuples of vertices, edges, faces, in every order and orientation, registered in every way — against the definition: the faces of one simplex whose boundaries cancel. Rejection is observed in a child process (asserts end it) and must leave no simplex behind.",
"C09": "Every pair of adjacent triangles in every way of making them, and every sequence of flips of the diagonals of polygons; oracle: directed triangles up to rotation, outline, identity after flipping twice, and the topology after erasing.",
"C10": "Every permutation against every reference order, by the number of inversions (the library sorts by swaps); same_elements against multisets; strings, vectors, arrays; arguments must be unchanged.",
"C11": "Every form and vector over a small integer lattice, in every slot and grouping, against determinants; exact.",
"C12": "Every deformation gradient of a 3^9 lattice and many elastic constants, against Hooke's law in long double; tangents also against differences of the code's own stress; the consistency test against each of 91 materials that are wrong in one component.",
"C13": "As C12, with the energy of the model in long double, its derivatives by fourth-order differences, and all rotations of the cube (and others) on either side.",
"C14": "Alphabet: insert by nodes in every order, insert a copy or the flip of a cell, erase any, remove duplicates, move. Oracle: a multiset of cells with integer boundary chain. After each step cells, counts, boundary mesh (and its boundary), filters, nodes, copies in other meshes.",
"C15": "Every order of the nodes of one and of two adjacent cells, every number of refinements; oracle: exact integer geometry (containment, volumes, no overlap by volume and facets that cancel, midpoints only), and the boundary against the refined boundary.",
"C16": "Every non-empty subset of the cells of three grids, every number of parts, every way of building the mesh (also with histories of erasure); oracle: the multiset of cells. METIS is trusted to return some assignment.",
"C17": "Every sequence of cells, with doubled nodes and with distinct points at one place, all magnitudes of coordinates; written, read in both modes, written again. Oracle: the file text and the sharing pattern of points, vertices and nodes. Foreign files in all layouts.",
"C18": "Every pair of points and every vector of a lattice in three kinds of coordinates, against positions in space and the orthonormal frame; histories of placing points and converting coordinate systems.",
"C19": "Every order of nodes on every set of few nodes, with each orientation registered before or not, in every kind of coordinates; oracle: the nodes, and vector algebra on their positions.",
"C20": "Expressions are enumerated at compile time: operations × forms of operands, chains, compositions; each has a reference made of jets (value, gradient, hessian by forward differentiation, `harness/jets.h`) and is compared on a lattice of points.",
"C21": "Operators × forms of fields against the jets of the components; bases, metrics and volume forms against the derivatives of the position; wedge and tensor products at every point with all small vectors.",
"C22": "Every rule with every monomial up to its degree (exact moments); manifolds of every order of nodes and pair of cells, also after erasure and with cells replaced between queries, in three kinds of coordinates; oracle: determinants in the frame at the first node and Gauss rules in collapsed coordinates of a much higher degree.",
"C23": "Histories of insertion and writing for seven types of keys and values against a table; fields over every set of cells, with shared nodes, nodes of their own, and nodes of their own on shared points, less any erased cell.",
"C24": "Every element on a lattice of corners, against polynomials written independently (`harness/fem.h`); every block with every rule against exact integrals of polynomials up to the degree.",
"C25": "Every set of cells of small grids with every numbering of the corners and choice of constrained sides; oracle: degrees of freedom as corners and edges; continuity on shared sides, reproduction of polynomials, norms against exact integrals.",
"C26": "As C25, with blocks that give every entry of every element a different value, and a recording linear system: the assembled system must be the sum over elements, entry by entry; repeated solving.",
"C27": "Histories of adding, inserting, assembling and solving against dense algebra; all orders of setting options and solving of two systems with related names; all orders, spacings and splittings of a set of options whose effect (a number of steps of Richardson's iteration) is predicted exactly; boundary value problems on every set of cells.",
"C28": "Every set of cells and cloud, in every kind of coordinates, against the nodes; histories of recording into two writers, writing, and changing field and mesh in between; up to three ranks. What is compared is what reaches the (stand-in) VTK classes.",
"C29": "An interpreter is embedded in the harness, which compiles the bindings themselves (`extensions/mito/mito.cc`) and binds and forgets python names in every order; after each step everything that still has a name is used, under the address sanitizer, and integrals are compared with exact ones. Lifetimes across the language border are the part that no test script reaches, as scripts keep their names.",
"C30": "Histories of operations on one mesh that pass it through mesh, geometry, metis, io, manifolds and quadrature; after each step the integrals of all monomials against exact ones over the cells expected, and for each of 12 or 18 fields the integral of the divergence, and the flux through the boundary mesh (each face with its own outward normal), against the exact value. What no single module can be blamed for in its own tests shows here.",
}
