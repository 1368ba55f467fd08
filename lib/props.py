"""The properties, and how each is decided.  gen.py writes properties.jsonl and MANIFEST.json from this file."""
MODULE = {"g_linalg": "h_linalg", "g_rational": "h_rational", "g_matrix": "h_matrix", "g_geometry": "h_geometry",
    "g_modular": "h_modular", "g_partition": "h_partition", "g_graph": "h_graph", "g_place": "h_place", "g_component": "h_component", "g_symm": "h_symm", "g_minimal": "h_minimal",
    "g_lattice": "h_lattice", "g_group": "h_group", "g_finder": "h_finder", "g_operator": "h_operator", "g_line": "h_line", "g_blocks": "h_blocks", "g_table": "h_table", "g_text": "h_text", "g_history": "h_history"}
TRUSTED = [
    "rustc/LLVM front end up to the emitted LLVM IR (opt-level 0, overflow checks on, panic=abort); the executor /verif/engine and Z3",
    "num-bigint, num-integer and num-rational are replaced, in the encoding only, by models with the same API over mathematical integers (model/); sampled paths are re-run against the real crates and must agree",
    "HashMap iteration order is that of a constant hash function",
]
H = lambda name, group, bound, **k: dict(name=name, group=group, bound=bound, **k)
PROPS = {}
def prop(pid, **k):
    k["id"] = pid
    PROPS[pid] = k

prop("C01",
    title="Integer linear algebra is exact and canonical",
    statement="For every integer matrix whose intermediate results fit the integers, the extended gcd, rank, determinant, row reduction, linear solver, null space and inverse are mathematically exact. Row reduction returns the unique Hermite normal form of the row lattice; a system is reported unsolvable only when it has no integer solution, and a null space basis spans every integer solution.",
    quantifier=dict(over=["inputs"], text="all integer matrices (and right-hand sides) within the stated entry bounds, all ranks"),
    why_tests_cant="The unit tests fix about a dozen matrices; normal form and completeness are statements about every matrix, and signs, exact divisibility and rank deficiency interact.",
    mech=[("src/arithmetic/linear_algebra.rs", "gcdx, extend_basis, clear/normalize/reduce column, reduced_basis, solve, null_space, inverse")],
    level="model_checking",
    harnesses=[
        H("harness_gcdx", "g_linalg", "a, b in -40..40 (thorough -150..150)"),
        H("harness_hnf22", "g_linalg", "2x2, entries -7..7 (thorough -12..12)"),
        H("harness_hnf23", "g_linalg", "2x3, entries -2..2 (thorough -3..3)"),
        H("harness_hnf32", "g_linalg", "3x2, entries -2..2 (thorough -3..3)"),
        H("harness_hnf33", "g_linalg", "3x3, entries -1..1"),
        H("harness_hnf_upper", "g_linalg", "3x3 upper triangular, diagonal 1..4, off-diagonal -9..9 (thorough -20..20)"),
        H("harness_det", "g_linalg", "1x1 to 3x3, entries -20..20"),
        H("harness_det4", "g_linalg", "4x4 family with 5 symbolic entries, 6 row orders, entries -2..2 (thorough -3..3)"),
        H("harness_solve22", "g_linalg", "2x2 entries -2..2 (thorough -3..3), right-hand side -6..6"),
        H("harness_solve_complete", "g_linalg", "2x2 entries -2..2 (thorough -3..3), solution -3..3"),
        H("harness_solve_rect", "g_linalg", "1x3, 2x3, 3x2 entries -1..1, solution -2..2"),
        H("harness_null", "g_linalg", "1x3 and 2x2 entries -3..3; 2x3 and 3x2 entries -1..1"),
        H("harness_inv2", "g_linalg", "2x2 entries -5..5"),
        H("harness_inv3", "g_linalg", "3x3 entries -1..1"),
        H("harness_hnf44", "g_linalg", "four 4x4 families, 3 symbolic entries -4..4 and one pivot 1..3"),
        H("harness_solve_over", "g_linalg", "six shapes up to 3x2 with one or two right-hand sides, entries -1..1 or -1..2, mostly inconsistent"),
        H("harness_hnf_large", "g_linalg", "4x4 to 6x6 (thorough 7x7) matrices of known Hermite form, full rank or one or two less, rows combined in many ways, a pivot up to 1009; everything computed from them"),
        H("harness_inv_large", "g_linalg", "4x4 to 6x6 (thorough 7x7) matrices of determinant 1, -1, 2, rows combined in many ways"),
        H("harness_gcdx_large", "g_linalg", "numbers near sixteen values up to 2^31 * 1000003 (both orders, both signs)"),
        H("harness_solve33", "g_linalg", "three 3x3 families, 3 symbolic entries -1..1 (thorough -2..2), solution -3..3"),
    ])

prop("C02",
    title="Rational linear algebra is exact",
    statement="For every rational matrix, reduced_basis returns the unique reduced row echelon form, rank and determinant are exact, inverse returns the two-sided inverse exactly when one exists, null_space returns a basis of the whole kernel, and solve returns a solution exactly when the system is consistent. No input of a valid shape makes them panic, and the floating point forms agree with the exact ones on well-conditioned input.",
    quantifier=dict(over=["inputs"], text="all rational matrices of the stated shapes and entry bounds, every rank"),
    why_tests_cant="A handful of fixed matrices cannot cover pivot orders, rank deficiency and inconsistent right-hand sides, which select different branches.",
    mech=[("src/arithmetic/linear_algebra.rs", "extend_basis and the Scalar impls for BigRational and f64; solve, null_space, inverse, determinant")],
    level="model_checking",
    harnesses=[
        H("harness_rref22", "g_rational", "2x2, numerators -6..6, several denominators"),
        H("harness_rref23", "g_rational", "2x3, entries within the bounds in the harness"),
        H("harness_rref32", "g_rational", "3x2, entries within the bounds in the harness"),
        H("harness_rref33", "g_rational", "3x3, entries within the bounds in the harness"),
        H("harness_qdet", "g_rational", "1x1 to 3x3"),
        H("harness_qdet4", "g_rational", "4x4 family with symbolic entries"),
        H("harness_qsolve22", "g_rational", "2x2 and right-hand side"),
        H("harness_qsolve_rect", "g_rational", "rectangular systems"),
        H("harness_qsolve_over", "g_rational", "seven shapes up to 3x2 with one or two right-hand sides, entries -1..1 or -1..2, mostly inconsistent"),
        H("harness_qsolve33", "g_rational", "3x3 systems"),
        H("harness_qnull", "g_rational", "kernels of 1x3, 2x2, 2x3, 3x2"),
        H("harness_qinv2", "g_rational", "2x2"),
        H("harness_qinv3", "g_rational", "3x3"),
        H("harness_qinv4", "g_rational", "4x4 family"),
        H("harness_qlarge", "g_rational", "4x4 to 6x6 (thorough 7x7) matrices of known reduced form, full rank or one or two less, rows combined with factors of denominators up to 99991; everything computed from them"),
        H("harness_float", "g_rational", "f64 against rational: seven shapes up to 3x3, entries -2..2 (larger shapes: three entries -1..1 among four families), results compared to 10^-9"),
        H("harness_qmodel", "g_rational", "self-check of the exact solver that other checks use as a reference"),
    ])
prop("C03",
    title="Matrix operations follow their algebraic definitions",
    statement="Matrix construction, indexing, transpose, stacking, submatrix and vector access, elementwise arithmetic and products (owned and borrowed forms alike) equal their definitions for every shape and entry, and equality means same shape and same entries. Operands whose shapes do not fit are refused by a panic rather than answered.",
    quantifier=dict(over=["inputs"], text="all integer matrices up to the stated sizes"),
    why_tests_cant="Tests fix shapes and entries; an index slip shows only for particular non-square shapes.",
    mech=[("src/arithmetic/matrices.rs", "Matrix and its operator impls")],
    level="model_checking",
    harnesses=[
        H("harness_mat_elementwise", "g_matrix", "all shapes 1..3 x 1..3"),
        H("harness_mat_product", "g_matrix", "all compatible shapes 1..3"),
        H("harness_mat_shapes", "g_matrix", "all shapes 1..3 x 1..3"),
        H("harness_mat_eq", "g_matrix", "all shape pairs 1..3"),
        H("harness_mat_large", "g_matrix", "matrices of up to 17 rows or 33 columns (not both) with entries within +-10^9, products with up to 19 columns, stacks of up to 4 (6) parts"),
        H("harness_mat_refuse", "g_matrix", "all incompatible shape pairs 1..3"),
    ])
prop("C04",
    title="Affine maps and coordinate changes respect composition and units",
    statement="Vectors and points have the arithmetic of their coordinates; affine maps act on them by definition, compose, and invert exactly when their linear part is invertible; coordinate maps convert points, vectors, scalar products and operators consistently, so applying then converting equals converting then applying, and only symmetric positive definite matrices are accepted as scalar products. Reducing a point or map modulo lattice translations gives the unique representative with coordinates in [0,1), the same for all inputs that differ by lattice translations.",
    quantifier=dict(over=["inputs"], text="all rational maps, points and vectors in dimension 1 to 3 within the stated bounds"),
    why_tests_cant="Tests use a few maps with friendly signs; canonical reduction and conversion orders matter for negative and fractional inputs.",
    mech=[("src/arithmetic/geometry.rs", "Point, Vector, AffineMap, CoordinateMap, ScalarProduct, mod_z")],
    level="model_checking",
    harnesses=[
        H("harness_affine", "g_geometry", "dimension 1..3, linear entries -9..9, coordinates with denominators 2, 3, 4, 6"),
        H("harness_affine_inverse", "g_geometry", "dimension 1..3, families with 2-3 symbolic linear entries"),
        H("harness_is_identity", "g_geometry", "dimension 1..3"),
        H("harness_coordmap", "g_geometry", "dimension 1..3, basis families"),
        H("harness_to_basis", "g_geometry", "dimension 1..3, basis families"),
        H("harness_scalar_product", "g_geometry", "dimension 1..3"),
        H("harness_scalar_product_refuse", "g_geometry", "dimension 1..3, non-symmetric Gram matrices"),
        H("harness_scalar_product_refuse3", "g_geometry", "1x1 and symmetric 3x3 Gram matrices, five symbolic entries -2..2 (thorough -3..3)"),
        H("harness_vectors", "g_geometry", "all forms of all operations on vectors and points of dimension 1..3 (thorough 4), coordinates within +-10^12 (i64) or sixths of them (rational), five scalars"),
        H("harness_vectors_refuse", "g_geometry", "fourteen operations on operands of dimension 1..3 each"),
        H("harness_mod_z", "g_geometry", "dimension 1..3, coordinates -9/2..9/2 with denominators 2, 3, moved by up to 2 from 0, 1001 or -1000000007"),
    ])

prop("C05",
    title="Modular arithmetic and the p-adic solver are exact",
    statement="Inverses modulo m are found exactly when they exist and are reduced; row echelon form and matrix inverse modulo a prime are exact for every sign of input; integer and modular products are right. The p-adic solver returns the exact rational solution of every regular integer system and refuses singular ones.",
    quantifier=dict(over=["inputs"], text="all moduli, matrices and systems within the stated bounds, including negative and unreduced entries"),
    why_tests_cant="Rank defects modulo p, negative multiples of p and the number of lifting steps depend on the concrete numbers; the few tested systems miss them.",
    mech=[("src/arithmetic/modular_solver.rs", "modular_inverse, modular_row_echelon_form, modular_matrix_inverse, solve, rational_reconstruction")],
    level="model_checking",
    assumptions=["number_of_p_adic_steps computes with floating point logarithms, which are executed concretely on each path"],
    harnesses=[
        H("harness_modinv", "g_modular", "m in 2..16 (thorough 2..40), a in 0..40 (thorough 0..120)"),
        H("harness_modinv_large", "g_modular", "modulus 9999991, a in three families of 40"),
        H("harness_modrref22", "g_modular", "2x2, p in {2,3,5,7}, all residues, entries also negative and up to 3p"),
        H("harness_modrref23", "g_modular", "2x3, p in {2,3,5} (thorough also 7)"),
        H("harness_modrref32", "g_modular", "3x2, p in {2,3,5} (thorough also 7)"),
        H("harness_modrref33", "g_modular", "3x3, p in {2,3}"),
        H("harness_modmatinv", "g_modular", "1x1, 2x2 with p up to 7, 3x3 with p = 2 (thorough 2, 3)"),
        H("harness_modmatinv_large", "g_modular", "p = 9999991; 1x1 entries -40..40, 2x2 entries -2..2 (thorough -3..3)"),
        H("harness_modproducts", "g_modular", "shapes up to 2x3 times 3x2, one symbolic row and column"),
        H("harness_padic1", "g_modular", "1x1 systems, coefficients up to 60000 (thorough 200000)"),
        H("harness_padic2", "g_modular", "2x2 systems, coefficients -2..2 times 1, 1000 or 40000"),
        H("harness_padic3", "g_modular", "3x3 weighted Laplacians, weights up to 4 (thorough 6)"),
        H("harness_padic_limits", "g_modular", "1x1 systems within 2 (thorough 5) of nine sizes between 1950 and 31622762000 at which the number of p-adic digits needed changes"),
        H("harness_padic_large", "g_modular", "systems of 4 to 6 (thorough 8) equations of four families: near Hadamard, Vandermonde, wheel Laplacians, permuted triangular, weights up to 100000, each disturbed by two small parameters"),
    ])
prop("C06",
    title="Partition is the equivalence closure of the united pairs",
    statement="After any history of unite and find calls, two elements have the same representative exactly if a chain of united pairs connects them, the representative is in the class and represents itself, and queries never change classes. classes() groups the given elements by class, keeping their order.",
    quantifier=dict(over=["inputs","histories"], text="all histories of the stated lengths, over all patterns of equal and distinct elements"),
    why_tests_cant="Rank and path compression make the result depend on the whole history of calls; tests use two or three fixed ones.",
    mech=[("src/partitions.rs", "Partition::find, unite, classes")],
    level="model_checking",
    harnesses=[
        H("harness_part_unions", "g_partition", "up to 4 unions over 5 (thorough 6) elements"),
        H("harness_part_classes", "g_partition", "2 unions over 4 elements, queries of up to 4 (thorough 5) elements with repetitions"),
        H("harness_part_deep", "g_partition", "7 unions of equal ranks over 8 elements in all directions, with a find in between"),
        H("harness_part_history", "g_partition", "histories of 4 (thorough 5) calls of unite and find over 4 elements"),
        H("harness_part_forest", "g_partition", "5 (thorough 6) unions of different classes in every order, up to 8 elements"),
        H("harness_part_large", "g_partition", "9, 17, 35 and 67 (thorough 131) elements united in five patterns and three orders, any one pair left out"),
        H("harness_part_any", "g_partition", "4 (thorough 5) unions of arbitrary integers"),
    ])
prop("C07",
    title="Periodic graphs are independent of how their edges are given",
    statement="Label vectors form an ordered group; an edge and its reverse have one canonical form. A graph has exactly the given edges once each, whatever their order, direction or repetition, and its vertices, incidences and directed edges list every edge at both its ends.",
    quantifier=dict(over=["inputs"], text="all edge lists of the stated sizes with arbitrary shifts"),
    why_tests_cant="Coincidences such as an edge given twice in opposite directions, or loops with negative shifts, are rare in hand-written graphs.",
    mech=[("src/pgraphs.rs", "LabelVector impls, Edge::neg/canonical, Graph::new, vertices, incidences, directed_edges")],
    level="model_checking",
    harnesses=[
        H("harness_label2", "g_graph", "components -10^9..10^9"),
        H("harness_label3", "g_graph", "components -10^9..10^9"),
        H("harness_label_order", "g_graph", "components -10^9..10^9"),
        H("harness_edge", "g_graph", "end points 0..10^6, components -10^6..10^6"),
        H("harness_graph_build2", "g_graph", "up to 3 edges on up to 3 vertices, shifts +-10^5"),
        H("harness_graph_build3", "g_graph", "up to 2 (thorough 3) edges in 3D, shifts +-10^5"),
        H("harness_graph_build4", "g_graph", "5 (thorough 6) parallel edges, shifts +-10^6"),
        H("harness_graph_order", "g_graph", "3 edges, permuted and reversed"),
        H("harness_graph_large", "g_graph", "5 to 33 vertices in four families, three kinds of labels, 2D and 3D, edges repeated and reversed, one vertex anywhere within +-1000"),
    ])
prop("C08",
    title="Barycentric placement puts every vertex at its neighbours' centre",
    statement="For every connected periodic graph, the first vertex is placed at the origin and every vertex at the exact centre of gravity of its neighbours, counting multiple edges. Edge vectors lead from the position of the head to that of the shifted tail, and a reversed edge has the opposite vector.",
    quantifier=dict(over=["inputs"], text="all connected graphs of the stated sizes with arbitrary shifts"),
    why_tests_cant="The placement solves a linear system whose coefficients depend on every edge; tests check a few small symmetric nets.",
    mech=[("src/pgraphs.rs", "barycentric_placement, position, edge_vector"), ("src/arithmetic/modular_solver.rs", "solve")],
    level="model_checking",
    assumptions=["harness_placement2, 3 and 4 replace modular_solver::solve by an exact solver in the encoding (C05 decides the real one); harness_placement_padic does not"],
    harnesses=[
        H("harness_placement2", "g_place", "2 or 3 vertices, spanning tree and 2 edges, 2D, shifts +-10^6", alias="modular_solver5solve$=place_solve"),
        H("harness_placement3", "g_place", "2 (thorough up to 3) vertices, spanning tree and 2 edges, 3D, shifts +-10^6", alias="modular_solver5solve$=place_solve"),
        H("harness_placement4", "g_place", "4 vertices, 5 edges, 2D, shifts +-10^6", alias="modular_solver5solve$=place_solve"),
        H("harness_placement_padic", "g_place", "2 or 3 vertices, 2 further edges with shifts +-1 (thorough +-3), real solver"),
        H("harness_placement_lifted", "g_place", "5 to 12 (thorough 16) vertices in four families, three kinds of labels, 2D and 3D, one vertex anywhere within +-10^6", alias="modular_solver5solve$=place_solve"),
        H("harness_placement_large", "g_place", "the same graphs as they are, real solver"),
    ])
prop("C09",
    title="Stability and collision predicates are exact",
    statement="A connected graph is reported stable exactly if no two vertices share a position modulo translations, locally stable exactly if no two edges at a vertex have the same vector, and with a second-order collision exactly if two vertices agree in position and in all neighbour positions. Looking up an edge by its vector finds it exactly if that vector is unique at the vertex.",
    quantifier=dict(over=["inputs"], text="all connected graphs of the stated sizes and shifts"),
    why_tests_cant="Collisions need exact coincidences of rational positions; tests use a few graphs built for them.",
    mech=[("src/pgraphs.rs", "is_stable, is_locally_stable, has_second_order_collisions, edge_by_unique_delta, position_normalized")],
    level="model_checking",
    assumptions=["modular_solver::solve is replaced by an exact solver in the encoding (C05 and C08 decide the real one)"],
    harnesses=[
        H("harness_stable", "g_place", "2 or 3 vertices, 2D, shifts +-2 (thorough +-4)", alias="modular_solver5solve$=place_solve"),
        H("harness_stable3", "g_place", "2 vertices, 3D, shifts +-2", alias="modular_solver5solve$=place_solve"),
        H("harness_locally_stable", "g_place", "2 or 3 vertices, shifts +-10^6", alias="modular_solver5solve$=place_solve"),
        H("harness_second_order", "g_place", "4 vertices, two of them between the same neighbours, shifts +-1 (thorough +-2)", alias="modular_solver5solve$=place_solve"),
        H("harness_stable_large", "g_place", "5 to 9 (thorough 12) vertices in four families, three kinds of labels, 2D and 3D, one vertex anywhere within +-1000; all three predicates", alias="modular_solver5solve$=place_solve"),
    ])
prop("C10",
    title="Coordination sequences count the vertices at each distance",
    statement="The k-th number of a vertex's coordination sequence is the number of vertices of the infinite periodic graph at distance exactly k from it. Relabelling or reversing edges does not change it.",
    quantifier=dict(over=["inputs"], text="all graphs of the stated sizes and shifts, up to the stated distance"),
    why_tests_cant="The iterator keeps only two shells; whether that suffices shows only on graphs with loops, parallel edges and odd cycles, which tests barely cover.",
    mech=[("src/pgraphs.rs", "CoordinationSequence")],
    level="model_checking",
    harnesses=[
        H("harness_coordination2", "g_graph", "up to 3 edges on 2 vertices, 2D, shifts +-1, distance 3 (thorough 4)"),
        H("harness_coordination3", "g_graph", "3D graphs, shifts +-1, distance as in the harness"),
        H("harness_coordination_sym", "g_graph", "one free edge with arbitrary shift, first shells"),
        H("harness_coordination_large", "g_graph", "5 to 9 (thorough 12) vertices in four families, distance 4; nine well-known nets, distance 7 (10) in the plane and 4 (5) in space", args=["--max-steps", "400000000"]),
    ])
prop("C11",
    title="Component measures and shift normalisation are exact",
    statement="For each component the number of vertices, the rank of its translation lattice and the number of its translates are exact, and a graph is connected exactly if one component with one translate contains everything. Shift normalisation yields an isomorphic graph that differs only by the choice of vertex representatives, with a spanning forest of zero shifts.",
    quantifier=dict(over=["inputs"], text="all graphs of the stated sizes and shifts, connected or not"),
    why_tests_cant="The index of the cycle lattice depends on exact integer arithmetic over all cycles; tests use a few graphs with index 1 or 2.",
    mech=[("src/pgraphs.rs", "graph_component_measures, is_connected, shift_normalized, traverse_with_shift_adjustments"), ("src/arithmetic/linear_algebra.rs", "extend_basis")],
    level="model_checking",
    harnesses=[
        H("harness_measures2", "g_component", "up to 3 edges on up to 3 vertices, 2D, shifts +-2 or +-3"),
        H("harness_measures_loops2", "g_component", "one vertex, 3 loops, shifts +-3 (thorough +-4)"),
        H("harness_measures3", "g_component", "two vertices, 4 edges, 3D, five shifts +-2 (thorough +-3)"),
        H("harness_normalized2", "g_component", "up to 3 edges on 2 vertices, shifts +-10^6"),
        H("harness_normalized_order", "g_component", "4 edges on a path of 3 vertices labelled in every order, shifts +-10^6"),
        H("harness_normalized3", "g_component", "3 edges on 3 vertices, shifts +-10^6"),
        H("harness_normalized4", "g_component", "4 edges on 4 vertices, several components, shifts +-10^6"),
        H("harness_measures_large", "g_component", "5 to 9 (thorough 12) vertices in four families, 2D and 3D, one edge left out, a coordinate doubled"),
        H("harness_normalized_large", "g_component", "the same graphs, one vertex anywhere within +-1000"),
    ])

SOLVE = "modular_solver5solve$=place_solve"
prop("C12",
    title="Reported symmetries are exactly the automorphism group",
    statement="For every connected, locally stable periodic graph, symmetries() lists every automorphism exactly once: each maps vertices and edges consistently with an integral linear part of determinant +1 or -1, and none is missing. Vertex and edge orbits are the classes under this group; graphs that are not locally stable are refused.",
    quantifier=dict(over=["inputs"], text="all graphs in the stated families, with shifts symbolic within the stated bounds"),
    why_tests_cant="Tests count the symmetries of six highly symmetric nets in orthonormal settings; a wrong or missing symmetry shows on low-symmetry, sheared or colliding graphs.",
    mech=[("src/symmetries.rs", "symmetries, automorphism, characteristic_edge_lists, multiplicative_group"), ("src/pgraphs.rs", "Automorphism, vertex_orbits, edge_orbits")],
    hook="Automorphism::verif_parts (cfg rust_systre_verif) gives read access to vertex map, edge map and transform",
    level="model_checking",
    assumptions=["the harness_sym_any_* harnesses replace modular_solver::solve by an exact solver in the encoding (C05 and C08 decide the real one)", "oracle: an independent search over all images of independent edges, run symbolically on the same path"],
    harnesses=[
        H("harness_sym_loops2", "g_symm", "one vertex, 2 loops with shifts +-3 (thorough +-5) or 3 loops with +-1 (+-2)"),
        H("harness_sym_parallel2", "g_symm", "3 bonds with shifts +-3 (+-4) or 4 bonds with +-1 (+-2)"),
        H("harness_sym_mixed2", "g_symm", "2 vertices, bond, loops and a further edge, shifts +-1"),
        H("harness_sym_three2", "g_symm", "3 vertices, 4 (thorough 5) edges, shifts +-1"),
        H("harness_sym_ladder2", "g_symm", "2 or 3 layers colliding in position, shifts +-1"),
        H("harness_sym_loops3", "g_symm", "one vertex, 3 or 4 loops in 3D, triangular settings with off-diagonal +-1"),
        H("harness_sym_bonds3", "g_symm", "diamond in triangular settings, with and without a further edge, shifts +-1"),
        H("harness_sym_chains3", "g_symm", "srs and ths in triangular settings (symmetries from edge chains)"),
        H("harness_sym_refuse", "g_symm", "three families that are not locally stable"),
        H("harness_sym_any_loops2", "g_symm", "square net with one symbolic loop +-1000, or two +-2 (+-3)", alias=SOLVE),
        H("harness_sym_any_bonds2", "g_symm", "hcb with a symbolic bond, +-4 (+-6)", alias=SOLVE),
        H("harness_sym_any_mixed2", "g_symm", "five 2-vertex families with a symbolic edge, +-7 (+-12)", alias=SOLVE),
        H("harness_sym_any_three2", "g_symm", "four 3-vertex families with a symbolic edge, +-3 (+-6)", alias=SOLVE),
        H("harness_sym_any_loops3", "g_symm", "pcu with a symbolic loop, +-2 (+-3)", alias=SOLVE),
        H("harness_sym_large", "g_symm", "5 to 9 vertices (3D: up to 7; thorough 12) in four families, three kinds of labels, in 2D one vertex anywhere within +-1000", alias=SOLVE, args=["--max-steps", "1000000000"]),
        H("harness_sym_decorated", "g_symm", "fes and cab (6 vertices, 48 symmetries), axes swapped, labels permuted", args=["--max-steps", "400000000"]),
    ])
prop("C13",
    title="Results do not depend on the setting in which a net is given",
    statement="Changing the lattice basis by any integral matrix of determinant +1 or -1, the vertex representatives, the vertex labels or the edge directions changes neither connectedness, stability, minimality, the number of symmetries, the orbit sizes nor the coordination sequences of a net.",
    quantifier=dict(over=["inputs"], text="all settings of the listed nets within the stated bounds"),
    why_tests_cant="Every test net is given in one convenient setting, where matrices happen to be symmetric or orthogonal and mix-ups of rows and columns cancel.",
    mech=[("src/symmetries.rs", "symmetries"), ("src/pgraphs.rs", "Graph methods")],
    level="model_checking",
    assumptions=["modular_solver::solve is replaced by an exact solver in the encoding where the harness says so in DESIGN.md"],
    harnesses=[
        H("harness_setting_plane", "g_symm", "5 plane nets; shears up to +-2 (thorough +-4) in both directions, axes swapped"),
        H("harness_setting_vertices", "g_symm", "5 plane nets; shears +-1, vertex offsets +-1000, all rotations and the reversal of labels", alias=SOLVE),
        H("harness_setting_space", "g_symm", "pcu, dia, srs, ths; three shears +-1, axes swapped"),
        H("harness_setting_space_vertices", "g_symm", "dia, srs, ths; vertex offsets +-1000, labels permuted", alias=SOLVE),
        H("harness_setting_large", "g_symm", "fes (shears +-1) and cab, axes swapped, labels permuted", args=["--max-steps", "400000000"]),
    ])
prop("C14",
    title="Minimal images remove exactly the redundant translations",
    statement="For stable graphs, translational orbits are the classes of vertices under all translations, is_minimal holds exactly if there is none beyond the lattice, and minimal_image returns nothing then and otherwise the same net over its full translation lattice. A locally stable graph is a ladder exactly if a symmetry without linear part keeps positions, all of which ladder_symmetries lists; translations never merge the layers of a ladder.",
    quantifier=dict(over=["inputs"], text="all supercells of the listed nets up to the stated index and settings, and the stated graph families"),
    why_tests_cant="Tests use three supercells with axis-parallel sublattices; general sublattices, settings and vertex offsets need matrix conventions the tests do not exercise.",
    mech=[("src/symmetries.rs", "minimal_image, is_minimal, translational_orbits, is_ladder, ladder_symmetries, extended_translation_basis"), ("src/spacegroups/lattices.rs", "rational_lattice_basis")],
    level="model_checking",
    harnesses=[
        H("harness_min_cells2", "g_minimal", "5 plane nets, every sublattice of index 2..6 (thorough 2..9)"),
        H("harness_min_cells_setting2", "g_minimal", "3 plane nets, sublattices of index 2, 3, sheared by +-1, labels permuted"),
        H("harness_min_cells_shifted2", "g_minimal", "3 plane nets, sublattices of index 2, 3, vertex offsets +-1 (+-2)", alias=SOLVE),
        H("harness_min_cells3", "g_minimal", "pcu, dia, srs, ths; every sublattice of index 2..4 (2..6)"),
        H("harness_min_defect2", "g_minimal", "supercells up to index 4 with one or two edges added"),
        H("harness_min_any2", "g_minimal", "four families with a symbolic edge, +-10 (+-20)", alias=SOLVE),
        H("harness_min_large", "g_minimal", "5 to 9 (thorough 12) vertices in four families, some of them supercells, one vertex anywhere within +-1000", alias=SOLVE),
        H("harness_min_ladder2", "g_minimal", "2 or 3 layers, shifts +-4 (+-8)", alias=SOLVE),
        H("harness_min_ladder_cells2", "g_minimal", "two-layer ladders over sublattices of index 2, labels permuted"),
        H("harness_min_ladder_three", "g_minimal", "one three-layer ladder over a sublattice of index 2 (known finding)"),
    ])
prop("C15",
    title="Lattice reduction returns shortest bases and exact Dirichlet domains",
    statement="For every scalar product and basis of a two or three dimensional lattice, the Dirichlet vectors are one shortest vector for each nonzero class modulo twice the lattice; the reduced basis spans the same lattice, is sorted by length, has successively shortest vectors and is obtuse to the first; in dimension one both are the given vector. The shift computed for a point takes it into the Dirichlet domain by a lattice vector, so that no lattice translate is closer to the origin.",
    quantifier=dict(over=["inputs"], text="all three dimensional lattices given by integral Selling parameters up to 1000, in the stated bases; plane lattices and points as stated"),
    why_tests_cant="Whether a reduction stops at a shortest basis depends on the order of the reduction steps and on ties, which differ from lattice to lattice; the tests use a few bases.",
    mech=[("src/spacegroups/lattices.rs", "reduced_lattice_basis, dirichlet_vectors, lagrange_reduced, selling_reduced, shift_for_dirichlet_domain")],
    level="model_checking",
    assumptions=["oracle: comparison with all combinations of the result with coefficients -2..2, which contain a shortest vector of every class if the result is a reduced basis", "bases whose vectors are dependent are outside the property (division by zero)"],
    harnesses=[
        H("harness_dirichlet3", "g_lattice", "all Selling parameters 0..1000, bases sheared three times by -1..1 (thorough -2..2), tolerance 0 or 10^-7"),
        H("harness_reduced3_any", "g_lattice", "all Selling parameters 0..2 (thorough 0..3, basis vectors in any order), one basis vector reversed or not"),
        H("harness_reduced3", "g_lattice", "six lattices with one or two of the Selling parameters free in 0..1000 (thorough also a skewed basis)"),
        H("harness_reduced3_setting", "g_lattice", "six lattices, bases sheared three times by -2..2 (thorough -3..3)"),
        H("harness_reduced2", "g_lattice", "Selling parameters 0..4 (thorough 0..7), bases sheared twice by -2..2 (thorough -3..3)"),
        H("harness_reduced_skew2", "g_lattice", "four lattices, one parameter 0..3 (thorough 0..9); bases sheared 4 to 10 (14) times in turn by 1 or 2 and -2..2"),
        H("harness_reduced_skew3", "g_lattice", "four lattices, bases sheared 6 to 12 (18) times in turn by 1 or 2 and -2..2"),
        H("harness_reduced_line", "g_lattice", "rank one"),
        H("harness_dirichlet_shift2", "g_lattice", "three lattices, points with denominators 1, 2, 3, 4, 6 and numerators -9..9 (thorough -20..20)"),
        H("harness_dirichlet_shift3", "g_lattice", "four lattices, points with denominators up to 6, numerators -3..3 (thorough -4..4)"),
    ])
prop("C16",
    title="Rational vectors generate exactly the lattice they should",
    statement="rational_lattice_basis returns, for every list of rational vectors, a right-handed triangular basis of the lattice spanned by them together with the unit vectors: it has full rank, contains all of them, and contains nothing else.",
    quantifier=dict(over=["inputs"], text="one to four (thorough six) vectors in one to four dimensions with the stated denominators, with any integer parts"),
    why_tests_cant="Tests use one centering; different denominators, dependent vectors and negative entries go through other steps.",
    mech=[("src/spacegroups/lattices.rs", "rational_lattice_basis")],
    level="model_checking",
    harnesses=[
        H("harness_lattice2", "g_lattice", "one or two vectors, denominators 1, 2, 3, 4, 6 (thorough 5, 8)"),
        H("harness_lattice3", "g_lattice", "one (thorough two) vectors, denominators 2, 3, 4, 6"),
        H("harness_lattice3_two", "g_lattice", "two vectors with different denominators"),
        H("harness_lattice_large", "g_lattice", "one to four (thorough six) vectors of dimension 1 to 4, denominators from four sets (2 to 12), some dependent, integer parts within +-3 * 10^12"),
    ])
prop("C17",
    title="Space groups are generated and analysed completely",
    statement="generate returns every product of the generators modulo lattice translations exactly once. PrimitiveSetting takes such a group to the lattice of all its translations, with one operation for each linear part. gram_matrix_configuration_space and shift_space return bases of all symmetric matrices that every operation preserves and of all vectors that every operation fixes, and nothing if there are none.",
    quantifier=dict(over=["inputs"], text="all groups generated by one or two (thorough three) of the listed operations with the stated shifts, in the stated bases; all integer 2x2 matrices within the bound"),
    why_tests_cant="Tests use orthogonal axes, where rows and columns of an operation can be confused without effect, and a single centering.",
    mech=[("src/spacegroups/basics.rs", "generate, PrimitiveSetting::new, gram_matrix_configuration_space, shift_space")],
    level="model_checking",
    hook="PrimitiveSetting::verif_new",
    assumptions=["oracle: closure over plain integers modulo 12; dimensions of the invariant spaces from the characters of the point group"],
    harnesses=[
        H("harness_group1", "g_group", "dimension 1 to 3, up to two generators +-1 with shift k/12"),
        H("harness_generate2", "g_group", "one or two of ten plane operations with shifts 0, 1/4, 1/3, 1/2, sheared twice by -1..1 (thorough -2..2)"),
        H("harness_primitive2", "g_group", "the same with one of six centerings, three (thorough all) bases, groups up to order 24 (thorough 48)"),
        H("harness_generate3", "g_group", "one or two of twelve space operations, three (thorough five) shifts, four bases"),
        H("harness_primitive3", "g_group", "the same with five centerings, two (four) bases, groups up to order 24 (48)"),
        H("harness_spaces3", "g_group", "up to two (three) of twelve point operations, sheared three times by -1..1 (-2..2)"),
        H("harness_spaces_any", "g_group", "all 2x2 integer matrices with entries -2..2 (thorough -3..3), singular ones included"),
        H("harness_group_large", "g_group", "the cubic and hexagonal groups with two to four generators, three shifts, two bases, primitive or centered (up to 192 operations); groups of signed permutations in four dimensions"),
        H("harness_generate_far", "g_group", "generators of the plane and of space as above, with integer parts up to +-2 * 10^12 added to the shifts"),
    ])
prop("C18",
    title="Operations and plane groups are classified correctly",
    statement="For every integral operation in one to three dimensions, order, orientation, axis (the fixed or reversed direction, in positive sense) and sense of rotation are right. For every point group of the plane in any basis, the crystal system is right and the basis vectors are right-handed and lie along mirrors or are related by the rotation; the normalized basis of an oblique, rectangular or square lattice is a conventional cell with the right centering.",
    quantifier=dict(over=["inputs"], text="all matrices, point groups and lattices within the stated bounds"),
    why_tests_cant="Tests list some operations in the standard setting; axes, senses of rotation and centerings change with the basis.",
    mech=[("src/spacegroups/finder.rs", "OperatorDetails, crystal_system_and_basis_2d, normalized_basis_2d")],
    level="model_checking",
    hook="finder::verif",
    assumptions=["not covered: identitify_spacegroup_2d, which ends in todo!(), primitive_cell, which only it calls, and the conventional basis of hexagonal lattices"],
    harnesses=[
        H("harness_details1", "g_finder", "1x1, -3..3"),
        H("harness_details2", "g_finder", "all 2x2 integer matrices with entries -2..2 (thorough -3..3)"),
        H("harness_details3", "g_finder", "nine crystallographic operations, their powers and negatives, in bases sheared three times by -1..1 (thorough -2..2)"),
        H("harness_details3_any", "g_finder", "3x3 matrices with entries -1..1, two of them zero"),
        H("harness_system2", "g_finder", "the thirteen settings of plane point groups, operations in any cyclic order, sheared twice by -2..2 (thorough -4..4)"),
        H("harness_normalized_basis2", "g_finder", "oblique, rectangular, rhombic and square lattices with parameters 1..6 (thorough 1..9), whole or divided by 24, any basis sheared by -1..1 (-2..2)"),
    ])
prop("C19",
    title="Symmetry operations are read exactly from their text form",
    statement="Reading an operation such as '1/2-x, y+z' gives the coefficients and constants that the text denotes, for every notation of terms, spaces and signs. Any other text, including trailing text, too many coordinates, axes beyond the dimension, zero denominators and numbers too large, is refused without a panic; a coordinate change is accepted exactly if it is invertible.",
    quantifier=dict(over=["inputs"], text="all ASCII texts up to the stated length, and all texts of the stated forms with arbitrary digits"),
    why_tests_cant="Tests list about twenty texts; the grammar has alternatives whose order and look-ahead matter for combinations they do not contain.",
    mech=[("src/spacegroups/parse_operator.rs", "parse_operator"), ("src/spacegroups/parse_table.rs", "AffineMap::from_string, CoordinateMap::from_string")],
    level="model_checking",
    assumptions=["oracle: an independent recursive descent reader, run symbolically on the same text"],
    harnesses=[
        H("harness_op_any", "g_operator", "every ASCII text of up to 4 (thorough 5) characters"),
        H("harness_op_chars", "g_operator", "every text of 6 (thorough 7) of the characters y 1 - / , and space"),
        H("harness_op_terms", "g_operator", "one coordinate with any notation of one term, digits arbitrary"),
        H("harness_op_sums", "g_operator", "a fixed and an arbitrary second term with and without spaces, two and three coordinates"),
        H("harness_op_long", "g_operator", "sums of 3 to 5 (thorough 7) terms on arbitrary axes, and of up to 12 in which two axes alternate with one exception"),
        H("harness_op_large", "g_operator", "numbers of 8 to 10 digits, sums out of range"),
        H("harness_op_change", "g_operator", "1x1, 2x2 and triangular 3x3 operations with entries 0, 1, -2 and arbitrary one-digit constants"),
    ])
prop("C20",
    title="CGD lines are split into exactly the fields they contain",
    statement="parse_cgd_line reads every line into its fields: a leading keyword, fractions, numbers (integers if they are integral and in range), names and quoted strings, with their exact values, up to a comment. Text from the first malformed field on is returned as rest, nothing is skipped or merged silently, and no line causes a panic.",
    quantifier=dict(over=["inputs"], text="all ASCII texts up to the stated length, and all sequences of the stated tokens"),
    why_tests_cant="Tests list five lines; which alternative reads a field depends on its first few characters and on what follows it.",
    mech=[("src/io/parse_cgd_line.rs", "parse_cgd_line")],
    level="model_checking",
    assumptions=["oracle: an independent left to right reader, run symbolically on the same text", "digits of decimal numbers range over two or three values; powers beyond 10^15 are compared to relative precision 10^-12", "a line with an exponent without digits must be reported in some way"],
    harnesses=[
        H("harness_line_any", "g_line", "every ASCII text of up to 5 (thorough 6) characters; digits 0, 1, 7 (0, 1 beyond three characters)"),
        H("harness_line_tokens", "g_line", "two of 24 tokens with all separators, leading blanks and line endings"),
        H("harness_line_many", "g_line", "three (thorough four) of eight tokens with all separators"),
        H("harness_line_fraction", "g_line", "fractions of one (two) and one or two arbitrary digits"),
        H("harness_line_number", "g_line", "decimal numbers in every notation with up to two digits per part"),
        H("harness_line_names", "g_line", "names of 6 (8) and quoted strings of 4 (6) arbitrary printable characters other than digits"),
        H("harness_line_limits", "g_line", "14 numbers at the limits of the integers"),
        H("harness_line_long", "g_line", "6, 13 or 34 fields of 13 kinds (some of 80 and more characters), one of them missing, malformed or a comment"),
    ])
prop("C21",
    title="CGD files are divided into blocks without losing or merging anything",
    statement="parse_blocks keeps every line with content exactly once and in order, in the block between the previous and its own end statement, with its number and text; block types, keys, inherited keys, errors and warnings are as the file says. Data never get a key from another block. Unreadable bytes affect only their own line; after a reading error the complete lines before it are kept, the error is reported, and reading ends. How the reader splits the input makes no difference.",
    quantifier=dict(over=["inputs", "fault schedules"], text="all files of the listed lines and all texts up to the stated length; all positions of short reads, interruptions and a failure in the listed files"),
    why_tests_cant="Tests read one file in one piece without failures; what is lost or merged depends on the order of lines and on where a read ends.",
    mech=[("src/io/parse_cgd_blocks.rs", "parse_blocks, parse_lines"), ("src/io/parse_cgd_line.rs", "parse_cgd_line")],
    level="model_checking",
    hook="Entry::verif_parts, Block::verif_parts",
    assumptions=["oracle: the file as a sequence of segments ending at end statements; the fields of a single line are those of parse_cgd_line (C20)", "keys are ASCII"],
    harnesses=[
        H("harness_blocks_lines", "g_blocks", "up to three (thorough four) of 16 kinds of lines, with LF or CRLF, with or without a final line end"),
        H("harness_blocks_many", "g_blocks", "six (seven) of six kinds of lines"),
        H("harness_blocks_any", "g_blocks", "every ASCII text of up to 4 (5) characters after each of five beginnings"),
        H("harness_blocks_reads", "g_blocks", "four files, any two cuts and one interruption"),
        H("harness_blocks_fails", "g_blocks", "four files, a failure after any number of bytes, one cut and one interruption"),
        H("harness_blocks_large", "g_blocks", "2 or 12 blocks of 4 or 40 lines, one without type, end, with a line of 9000 characters or an invalid byte"),
    ])
prop("C22",
    title="The space group table is read, looked up and printed faithfully",
    statement="parse_space_group_table returns exactly the settings with their operators in order, the group each belongs to, the aliases and the lookup entries of a text, and nothing if a line is malformed; it never panics. lookup_settings returns exactly the entries with the given system and centering, and every printed operator, system and centering is read back as the same.",
    quantifier=dict(over=["inputs"], text="all tables of the listed lines, all lines up to the stated length, all operators with the listed coefficients"),
    why_tests_cant="There is no test of the table reader beyond single operators; malformed lines and the order of lines are not sampled at all.",
    mech=[("src/spacegroups/parse_table.rs", "parse_space_group_table, Tables::lookup_settings, Display"), ("src/spacegroups/types.rs", "Display")],
    level="model_checking",
    hook="TableEntry::verif_parts, Lookup::verif_parts",
    assumptions=["single operators are read by AffineMap::from_string and CoordinateMap::from_string (C19)", "operators of more than three dimensions are outside the property: they cannot be read"],
    harnesses=[
        H("harness_table_lines", "g_table", "up to three of 22 kinds of lines, with LF and a final line end or CRLF without"),
        H("harness_table_many", "g_table", "four (thorough five) of seven kinds of well-formed lines"),
        H("harness_table_any", "g_table", "a line of up to 3 (4) arbitrary ASCII characters, or one after longer beginnings, between two settings"),
        H("harness_table_unreadable", "g_table", "an invalid byte at any position"),
        H("harness_table_large", "g_table", "3 or 10 settings with 2 or 17 lines each, names used again, aliases and lookup entries, a malformed line or a comment of 9000 characters"),
        H("harness_table_show", "g_table", "dimension 1 to 3, one arbitrary row with seven coefficients (quick: four for x and y in 3D)"),
        H("harness_table_show_lookup", "g_table", "all systems and centerings, one row with two (on the diagonal of the table seven) coefficients"),
        H("harness_table_lookup", "g_table", "all systems and centerings, three entries"),
        H("harness_table_names", "g_table", "every text of up to two characters; names of systems with one arbitrary character"),
    ])
prop("C23",
    title="Printed forms of matrices, maps and graphs list exactly their entries",
    statement="The text of a matrix, vector, point, affine map, coordinate map or scalar product shows every entry exactly, one row per line and in order, the shift of a map after its row. The text of an edge shows head, shift and tail, and the text of a graph shows each of its edges once, one per line. No such value makes printing panic.",
    quantifier=dict(over=["inputs"], text="all values of the stated shapes, with one arbitrary entry or one arbitrary edge"),
    why_tests_cant="No test compares these texts with the values; a wrong index, sign or denominator shows only for particular shapes and entries.",
    mech=[("src/arithmetic/matrices.rs", "Display of Matrix"), ("src/arithmetic/geometry.rs", "Display of Vector, Point, ScalarProduct, AffineMap, CoordinateMap"), ("src/pgraphs.rs", "Display of LabelVector2d, LabelVector3d, VectorLabelledEdge, Graph")],
    level="model_checking",
    assumptions=["only the numbers and the line structure are compared: brackets and blanks are free", "maps and coordinate maps of up to three dimensions"],
    harnesses=[
        H("harness_text_matrix", "g_text", "up to 3x3 (thorough 5x5), one arbitrary entry -12..12 (-101..101) over 1, 2, 3 or 7, the others all different; rationals, machine and large integers"),
        H("harness_text_vectors", "g_text", "1 to 4 (6) coordinates, one arbitrary"),
        H("harness_text_maps", "g_text", "1 to 3 dimensions, one arbitrary coefficient; Gram matrices with an arbitrary entry"),
        H("harness_text_graph", "g_text", "2D and 3D, one or two edges, one with arbitrary shift, or a larger graph"),
    ])
prop("C24",
    title="A graph answers the same whatever it was asked before",
    statement="Vertices, incidences, positions, edge vectors, edges found by their vectors, stability, coordination sequences, symmetries, orbits, normalized shifts and minimal images of a graph do not depend on which questions were asked before, in which order, or how often. Remembered results never change an answer.",
    quantifier=dict(over=["histories"], text="all sequences of questions of the stated length to the listed graphs"),
    why_tests_cant="Tests ask each graph one or two questions; results are remembered in five places inside the graph, and a wrong one shows only after a particular earlier question.",
    mech=[("src/pgraphs.rs", "Graph: vertices, incidences, positions, edge_lookup and symmetries are filled on first use"), ("src/symmetries.rs", "symmetries, translational_orbits, minimal_image")],
    level="model_checking",
    hook="Automorphism::verif_parts",
    assumptions=["oracle: the same question put to a new graph; that single answers are right is C07 to C14", "the graphs are given, the questions are arbitrary"],
    harnesses=[
        H("harness_history2", "g_history", "five plane graphs (a ladder and a doubled cell among them), two arbitrary ones of 20 questions, then both again (thorough: three arbitrary, the second again; a vertex moved by -2..2 cells)"),
        H("harness_history3", "g_history", "one (two) space nets, in the same way", args=["--max-steps", "400000000"]),
    ])
# planted changes that were missed at first, and what was added
MISSED = {
    "b04-overdetermined": "systems with more independent rows than unknowns",
    "b08-indefinite": "3x3 matrices with one bad minor",
    "b10-unite-member": "forests of unions of non-representatives",
    "b14-shift-narrow": "shifts up to 10^6 instead of 100",
    "b24-lagrange-cap": "strongly sheared bases of up to 10 (14) steps",
    "b32-repeated-axis": "sums of up to 12 terms",
    "b42-tile": "matrices of up to 17 rows or 33 columns",
    "b23-normalize-sign": "paths labelled in every order",
}
HOOKS = {"guard": "cfg rust_systre_verif", "enable": "RUSTFLAGS='--cfg rust_systre_verif' (lib/pipeline.py sets it)", "source_commits": ['8e43e4b Expose the parts of an automorphism under cfg(rust_systre_verif)', '557b5f7 Expose space group and CGD internals under cfg(rust_systre_verif)']}
