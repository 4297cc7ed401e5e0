#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
S = "lie_nn/_src/"
I = S + "irreps/"
IRR = [I + f for f in ("su2.py", "su2_real.py", "so3_real.py", "o3_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")]

p("C01", "Every tabulated irrep represents its Lie algebra, at every label",
  "For every irrep of every provided family (SU2, SU2Real, SO3, O3, SL2C, SO13, the SU(N) family, Z2) and every valid label, the continuous generators X satisfy [X_i, X_j] = sum_k A_ijk X_k with the one structure-constant tensor A returned by algebra() for that group, whatever the label. The generator arrays have shapes (lie_dim, dim, dim) and (n_discrete, dim, dim) with dim the dimension announced by the label; discrete generators commute with the continuous ones and are parity involutions of the announced sign. Generators are anti-Hermitian for the compact groups (SU2, SU2Real, SO3, O3, SU(N)), real for SO3, O3, SU2Real and SO13(l,l), and the irreps of different labels of one family are irreducible and pairwise inequivalent (half-integer SU2Real excepted: they are real forms of dimension 2(2j+1)).",
  ["inputs"], "every family and every valid label (unbounded integers / Young rows)",
  "The label space is infinite; the suite samples the first 4-7 labels of each family and never checks reality, anti-Hermiticity, irreducibility or the discrete generators.",
  IRR, [("ladder-operator matrices", I + "su2.py:SU2.continuous_generators"), ("Gelfand-Tsetlin ladder coefficients", I + "sun.py:compute_coeff_lower/upper"), ("kron_add of two SU2", I + "sl2c.py:SL2C.continuous_generators"), ("real change of basis", I + "so3_real.py:change_basis_real_to_complex")],
  ["rep.X, rep.H, rep.A, rep.dim"])
p("C02", "The selection rule lists exactly the irreps of the tensor product",
  "For irreps a, b of one family, a * b lists every irreducible constituent of the tensor product exactly once and nothing else, and a.clebsch_gordan(a, b, c) has at least one path exactly when c is in a * b. The number of paths n_c is the multiplicity of c, so sum over c in a * b of n_c * dim(c) = dim(a) * dim(b). (Half-integer SU2Real, which are not irreducible over C, excepted for the counting.)",
  ["inputs"], "all pairs/triples of labels of every family",
  "Tests only check the membership/paths equivalence on the first four labels; dimension counting, duplicates and higher multiplicities are never checked.",
  IRR + [S + "group_product.py"], [("triangle rule", I + "su2.py:SU2.__mul__"), ("Littlewood-Richardson via GT patterns", I + "sun.py:mul_rep"), ("product of selection rules", S + "group_product.py:TabulatedIrrepProduct.__mul__")],
  ["a * b", "clebsch_gordan(a, b, c).shape"])
p("C03", "Clebsch-Gordan coefficients intertwine and are orthonormal",
  "For all irreps a, b, c of one family, the array C = clebsch_gordan(a, b, c) has shape (paths, dim a, dim b, dim c) and satisfies sum_k C_zijk X^c_lk = sum_m (X^a_mi C_zmjl + X^b_mj C_ziml) for every continuous generator and the product version sum_k C_zijk H^c_lk = sum_mn H^a_mi H^b_nj C_zmnl for every discrete one, i.e. y_k = sum_ij C_zijk x_i x_j transforms as c. Different paths and components are orthonormal: sum_ij conj(C_zijk) C_wijl = delta_zw delta_kl, so that all c in a * b together form a unitary change of basis (half-integer SU2Real excepted for orthonormality). SO3, O3, SU2, SU2Real and SU(N) coefficients are real.",
  ["inputs"], "all triples of labels of every family",
  "Intertwining is only sampled on the first four labels per family, without SU(N) output irreps with degenerate weights or multiplicities; orthonormality is commented out in the library's checker and never tested.",
  IRR + [S + "clebsch_gordan.py"], [("Racah formula", I + "su2.py:clebsch_gordanSU2coeffs"), ("real basis change", I + "so3_real.py:SO3.clebsch_gordan"), ("two-SU2 recoupling", I + "sl2c.py:clebsch_gordansl2mat"), ("eldest state and lowering", I + "sun.py:clebsch_gordan_matrix"), ("generic solver", S + "clebsch_gordan.py:clebsch_gordan")],
  ["clebsch_gordan(a, b, c)"])
p("C04", "Irreps are enumerated completely, in strictly increasing order, trivial first",
  "For every family, the iterator yields each valid irrep exactly once, in strictly increasing order of <, starting with the trivial representation, so every valid label is reached after finitely many steps. The relation < is a strict total order on the labels of a family, consistent with equality and hashing. create_trivial() is that first element, from the class and from any instance, and is_scalar()/is_trivial() hold exactly for scalars/for the trivial representation.",
  ["inputs"], "all labels (and pairs/triples of labels) of every family",
  "The orders are on infinite label sets; the test compares only neighbours among the first ten labels and never checks exhaustiveness, totality or hashing.",
  IRR + [S + "irrep.py", S + "rep.py", S + "group_product.py"], [("iterators", "iterator() of each family"), ("order keys", "__lt__ of each family")],
  ["IR.iterator()", "a < b", "a == b", "create_trivial()"])
p("C05", "Generic constructions yield representations with the documented generators",
  "For any representations of one group, direct_sum has block-diagonal generators, tensor_product has X1 (x) 1 + 1 (x) X2 and H1 (x) H2 in row-major Kronecker order, conjugate has the complex conjugate generators, change_basis(rep, Q) has Q X Q^-1 and Q H Q^-1, change_algebra(rep, Q) has X'_i = Q_ia X_a with A'_ijk = Q_ia Q_jb A_abc Q^-1_ck, and group_product acts on the Kronecker product with the generators (and structure constants) of the two factors side by side. If the inputs satisfy [X_i, X_j] = A_ijk X_k, so do all the outputs with the A they carry, and discrete relations (H^n = 1, commutation with X) are kept. Dimensions add (direct sum) or multiply (products), and no option of real/complex dtype, discrete-generator count, dimension or argument class changes these formulas.",
  ["inputs"], "all representations (any size, any algebra, real or complex, with or without discrete generators)",
  "The statements are for arbitrary matrices; the suite has one example of change_algebra and of group_product with continuous generators, and none of conjugate, discrete generators or complex inputs.",
  [S + f for f in ("direct_sum.py", "tensor_product.py", "conjugate.py", "change_basis.py", "change_algebra.py", "group_product.py", "rep.py")],
  [("einsum formulas", S + "tensor_product.py"), ("block assignment", S + "group_product.py"), ("pinv", S + "change_basis.py, change_algebra.py")],
  ["A, X, H, dim, lie_dim of the result"])
p("C06", "MulIrrep and ReducedRep mean Q (m_1 rho_1 + ... + m_n rho_n) Q^-1",
  "The generators of MulIrrep(m, rho) are m diagonal copies of those of rho (dimension m*dim rho, also for m = 0), and the generators of a ReducedRep are Q D Q^-1 with D block diagonal in the order of its irreps (Q absent meaning the identity), for both continuous and discrete generators; dim, lie_dim and algebra agree with them. from_irreps accepts irreps, (mul, irrep) pairs and MulIrreps, keeps their order and multiplicities, and rejects summands with different algebras, negative multiplicities or a Q of the wrong shape. change_basis of a (Mul/tabulated/)ReducedRep composes the changes of basis, so it agrees with change_basis of the same representation taken generically.",
  ["inputs"], "all lists of irreps and multiplicities, all invertible Q (real or complex), all groups including finite ones",
  "ReducedRep is used in one test with Q=None; multiplicity 0, complex Q, composition of changes of basis and discrete generators are untested.",
  [S + "reduced_rep.py", S + "change_basis.py", S + "util.py"], [("direct_sum of copies", S + "reduced_rep.py:MulIrrep.continuous_generators"), ("Q conjugation", S + "reduced_rep.py:ReducedRep.continuous_generators"), ("Q composition", S + "change_basis.py")],
  ["X, H, A, dim of MulIrrep / ReducedRep"])
p("C07", "Reduced tensor products and powers equal the generic tensor product",
  "tensor_product of any combination of tabulated irreps, MulIrreps, ReducedReps (with or without Q) and generic representations of one group is a representation whose generators equal those of the generic Kronecker construction on the same operands in the same order. tensor_power(rep, n) equals the n-fold tensor product (the trivial representation for n = 0, rep for n = 1) for every n >= 0.",
  ["inputs"], "all operand classes on either side, all multiplicities, all Q, all n >= 0",
  "Tests compare a few SO3/SU2 products; the twelve dispatch combinations, complex Q, multiplicities and powers beyond 3 are not covered.",
  [S + "tensor_product.py", S + "reduced_rep.py"], [("CG stacking and inverse", S + "tensor_product.py (TabulatedIrrep, TabulatedIrrep)"), ("multiplicity reshuffle", S + "tensor_product.py (MulIrrep, MulIrrep)"), ("block placement", S + "tensor_product.py (ReducedRep, ReducedRep)"), ("binary powering", S + "tensor_product.py:tensor_power")],
  ["X, H, A, dim of tensor_product / tensor_power"])
p("C08", "exp_map gives the group element h_1^n_1 ... h_k^n_k exp(sum_a t_a X_a)",
  "For every representation, rep.exp_map(t, n) is the matrix product H_1^{n_1} H_2^{n_2} ... H_k^{n_k} expm(sum_a t_a X_a), discrete generators in index order on the left, for all real t and all integers n (negative ones meaning inverses). Hence exp_map(0, 0) is the identity, t -> exp_map(s t, 0) is a one-parameter group, exp_map commutes with direct sums, tensor products and changes of basis, and is unitary for unitary representations.",
  ["inputs"], "all representations, all parameter vectors, all integer exponents",
  "exp_map is not tested at all.",
  [S + "rep.py"], [("expm then discrete powers", S + "rep.py:Rep.exp_map")], ["rep.exp_map(t, n)"])
p("C09", "infer_change_of_basis returns a complete orthogonal basis of intertwiners",
  "infer_change_of_basis(rep1, rep2) returns an array (m, dim2, dim1) of matrices S with S rho1 = rho2 S for all continuous and discrete generators, m being the dimension of the whole space of such intertwiners, and the matrices being mutually orthogonal with squared Frobenius norm dim2. util.infer_change_of_basis(X1, X2) likewise returns an orthonormal basis of all solutions of X1 S = S X2. The generic clebsch_gordan(rep1, rep2, rep3) is a complete orthogonal basis of the equivariant maps rep1 (x) rep2 -> rep3, with axes (path, rep1, rep2, rep3).",
  ["inputs"], "all pairs/triples of representations (equivalent, inequivalent, with multiplicities, complex, with discrete generators)",
  "The single test covers two equivalent SU2 representations; completeness, multiplicities, empty answers, complex data and discrete generators are not covered.",
  [S + "infer_change_of_basis.py", S + "clebsch_gordan.py", S + "util.py"], [("Kronecker linear system + nullspace", S + "util.py:infer_change_of_basis"), ("stacking of X and H", S + "infer_change_of_basis.py"), ("axis order", S + "clebsch_gordan.py")],
  ["infer_change_of_basis", "util.infer_change_of_basis", "clebsch_gordan"])
p("C10", "Matrix assembly utilities compute what their documentation says",
  "util.direct_sum of any number of (batched, possibly rectangular, possibly empty) matrices is their block-diagonal assembly in order, broadcasting the batch dimensions; block_diagonal does the same for equally batched stacks; kron is the row-major Kronecker product of all its arguments; commutator(A, B) = AB - BA. vmap(f, in_axes, out_axes) equals stacking f over slices for all axis choices (None meaning not mapped) including tuple outputs and zero-length maps with out_shape, and regular_representation(table) gives the matrices D(g)|h> = |gh>.",
  ["inputs"], "all shapes, numbers of arguments, axes and group tables",
  "Only one call of vmap is tested (plus internal use); the functions quantify over all shapes and argument counts.",
  [S + "util.py"], [("direct_sum, block_diagonal, kron, vmap, commutator, regular_representation", S + "util.py")], ["return values"])
p("C11", "Rational rounding is exact: nearest fraction within the denominator bound",
  "as_approx_integer_ratio(x) returns normalised integer pairs (d > 0, gcd 1) within relative 2^-50 of x (exactly 0/1 for 0), and limit_denominator(n, d, m) returns for every normalised pair, elementwise, the closest fraction with denominator at most m, exactly as fractions.Fraction.limit_denominator does, for |n|, d up to 2^52 and m up to 2^24. round_to_sqrt_rational(x) (and its sympy version) returns sign * sqrt(p/q), separately on real and imaginary part, with p/q the closest fraction to x^2 with denominator bounded by max_denominator^2 + 1, so it is idempotent, odd, preserves shape, and leaves values sqrt(p/q) with q <= max_denominator^2 unchanged up to float rounding.",
  ["inputs"], "all float64 values / all integer pairs in range, all arrays",
  "Tests compare about a thousand random values; the loop is vectorised with early-stopping lanes, so correctness must hold for every mix of lanes and every continued-fraction length.",
  [S + "util.py"], [("continued fraction with lanes", S + "util.py:limit_denominator"), ("mantissa scaling", S + "util.py:as_approx_integer_ratio")], ["return values"])
p("C12", "Permutations: composition, inverse, sign, numbering and closure are lawful",
  "For all permutations p, q of n points: compose(p, q)(i) = p(q(i)), inverse is the two-sided inverse, sign is the parity (a homomorphism, equal to the determinant of the permutation matrix), also for util.permutation_sign, and to_cycles lists exactly the nontrivial cycles. from_int/to_int are mutually inverse bijections between {0..n!-1} and the permutations of n points, group(n) is the full symmetric group, rand(n) returns one of its elements, germinate(S) is the smallest group containing S, and is_perm/is_group accept exactly permutations/groups.",
  ["inputs"], "all n, all permutations, all sets of permutations",
  "No test exercises the permutation module directly.",
  [S + "discrete_groups/perm.py", S + "util.py"], [("factorial number system", S + "discrete_groups/perm.py:from_int/to_int"), ("closure loop", S + "discrete_groups/perm.py:germinate")], ["return values"])
p("C13", "Reduced tensor product bases: equivariant, symmetric, orthonormal, complete",
  "For every list of representations, or index formula such as ijk=-jik, the returned array of shape (d1, ..., dn, d_out) is a basis (orthonormal in its last axis if the changes of basis of the factors are unitary) of exactly the space of tensors with the permutation (anti)symmetries generated by the formula, and contracting it with inputs transforming as the factors gives an output transforming as the returned representation, whose irreps are sorted and grouped. Formulas generate the whole signed permutation group, indices related by the formula share their representation, reduced_symmetric_tensor_product_basis(rep, n) is the fully symmetric case, and ill-formed formulas (not permutations, missing, superfluous or conflicting indices) raise. (Domain: a non-zero result, irreps of the tabulated families, and changes of basis whose entries are square roots of rationals, as the coefficients are rounded to those.)",
  ["inputs", "programs"], "all formulas, all orders n, all representations",
  "The two tests check output irreps of two formulas; equivariance, symmetry, completeness and orthonormality of the array are never checked.",
  [S + "reduced_tensor_product.py", S + "util.py", S + "discrete_groups/perm.py"], [("group closure of the formula", S + "reduced_tensor_product.py:germinate_perm_repr"), ("orbit basis", S + "reduced_tensor_product.py:reduce_permutation_base/matrix"), ("CG contraction", S + "reduced_tensor_product.py:reduce_basis_product"), ("intersection", S + "util.py:basis_intersection")],
  ["reduced_tensor_product_basis(...).rep / .array / .list", "reduced_symmetric_tensor_product_basis"])
p("C14", "Gelfand-Tsetlin patterns: bijective indexing, dimension formula, ladder algebra",
  "For every weakly decreasing integer row S, dim(S) (Weyl's formula) equals the number of Gelfand-Tsetlin patterns with top row S, S_to_Ms enumerates each of them exactly once, S_to_Ss enumerates exactly the rows interlacing S, and index_to_M and M_to_index are mutually inverse and agree with that enumeration. The ladder-operator matrices are transposes of each other with [J+_l, J-_l] = 2 Jz_l, [Jz_l, J+-_l] = +-J+-_l, non-adjacent ladders commute, and the Serre relations hold, for every S.",
  ["inputs"], "all N and all rows S",
  "Nine particular rows are tested for the index maps and three commutators; the claims are for all rows and all N.",
  [I + "sun.py"], [("interlacing recursion", I + "sun.py:S_to_Ss/S_to_Ms"), ("index recursion", I + "sun.py:index_to_M/M_to_index"), ("ladder coefficients", I + "sun.py:compute_coeff_upper/lower"), ("Weyl product", I + "sun.py:dim")], ["return values of the pattern functions", "ladder matrices"])
p("C15", "The S_n representations satisfy the defining relations of the symmetric group",
  "For every n, the trivial, natural and standard representations of S_n have the discrete generators of the transposition (0 1) and, for n >= 3, the n-cycle (0 1 ... n-1), with no continuous ones, and these matrices satisfy the Coxeter-type relations t^2 = 1, c^n = 1, (tc)^(n-1) = 1 and the commutation of distant conjugates of t, in dimensions 1, n, n-1. The natural representation acts by permutation matrices e_i -> e_p(i) and is equivalent to trivial + standard; create_trivial gives the trivial representation of the same group.",
  ["inputs"], "all n >= 1 (n >= 2 for the standard representation)",
  "No test touches the finite groups.",
  [S + "finite.py"], [("generator matrices", S + "finite.py:Sn_natural/Sn_standard.discrete_generators")], ["H, X, A, dim"])
p("C16", "Checkers and inference accept exactly what is correct",
  "check_algebra_vs_generators (function and method) succeeds exactly when [X_i, X_j] = A_ijk X_k holds for all i, j within tolerance, and raises/returns False otherwise; infer_algebra_from_generators (and GenericRep.from_generators) returns a tensor A for which this holds whenever the generators are linearly independent and close with real structure constants, and None when they do not close. check_representation_triplet raises AssertionError whenever the algebras differ, one of the three is not a representation, or the coefficients do not intertwine, and is silent otherwise. is_unitary, is_irreducible and is_trivial are true exactly for representations that are unitary, have only scalar self-intertwiners, or are the trivial representation, taking continuous and discrete generators into account.",
  ["inputs"], "all arrays A, X, H, including ones wrong in a single component",
  "Tests only run the checkers on correct inputs; that a wrong input is rejected is never tested.",
  [S + "util.py", S + "rep.py", S + "properties.py", S + "is_irreducible.py"], [("all-pairs commutator comparison", S + "util.py:check_algebra_vs_generators"), ("pinv projection then verification", S + "util.py:infer_algebra_from_generators"), ("intertwining comparison", S + "rep.py:check_representation_triplet")], ["return values / exceptions"])
p("C17", "No call modifies its inputs, and results do not depend on earlier calls",
  "No public function or property of the library modifies an array, list or representation passed to it, or an array previously returned by it. Calling anything a second time with equal arguments, or after any sequence of other calls (including ones that fail), gives an equal result (up to rounding noise; reduce and rand, which draw random numbers, up to their specification).",
  ["inputs", "histories"], "all call sequences of the public API",
  "Each test performs one call on fresh inputs; aliasing, in-place updates and the lru_caches of the permutation reduction are invisible to them.",
  [S + f for f in ("util.py", "rep.py", "reduced_rep.py", "tensor_product.py", "reduced_tensor_product.py", "irreps/so13.py", "change_basis.py")],
  [("fresh arrays before in-place updates", S + "util.py:gram_schmidt, extend_basis, unique_with_tol"), ("copy before scaling", I + "so13.py:SO13.continuous_generators"), ("immutable cache keys", S + "reduced_tensor_product.py (lru_cache)")], ["arguments after the call", "results of repeated calls"])
p("C18", "Textual descriptions of irreps and representations parse to what they say",
  "from_string of each family returns the irrep its notation denotes for every label: the integer for SU2/SO3, degree with e/o parity for O3 (e even +1, o odd -1), e/o for Z2, (l,k) for SL2C/SO13, the comma-separated row for SU(N). MulIrrep.from_string reads an optional multiplicity before x, ReducedRep.from_string a +-separated list, keeping order and multiplicities. Formatting a valid label and parsing it back is the identity, and surrounding blanks are ignored where the family strips them.",
  ["inputs"], "all labels, multiplicities and list lengths",
  "Parsing is exercised on a couple of fixed strings at most.",
  [I + "su2.py", I + "so3_real.py", I + "o3_real.py", I + "z2.py", I + "sl2c.py", I + "so13.py", I + "sun.py", S + "reduced_rep.py"], [("parsers", "from_string of each class")], ["IR.from_string", "MulIrrep.from_string", "ReducedRep.from_string"])
p("C19", "reduce decomposes any unitarisable representation into irreducibles",
  "For every completely reducible representation, reduce(rep) is a ReducedRep whose summands are irreducible and pairwise inequivalent (multiplicities collected), and whose generators Q D Q^-1 equal those of rep up to numerical precision; already reduced representations are returned unchanged in meaning. util.decompose_rep_into_irreps returns irreducible blocks whose dimensions add up to that of the input and whose characters add up to its character.",
  ["inputs"], "all completely reducible representations, in any real or complex basis, with multiplicities",
  "One multiplicity-free SU2 example in a real basis is tested.",
  [S + "reduce.py", S + "util.py"], [("eigenspaces of a random commutant element", S + "util.py:decompose_rep_into_irreps"), ("intertwiners as Q", S + "reduce.py")], ["reduce(rep).X/.H/.irreps", "decompose_rep_into_irreps"])
p("C20", "Root systems A, B, C, D: roots, weights, Cartan matrices and Weyl dimensions",
  "For every type A, B, C, D and rank, the simple roots, positive roots, fundamental weights, highest root, Weyl vector, Cartan matrix and Coxeter number returned are those of that root system: fundamental weights are dual to the simple coroots, the Weyl vector is half the sum of the positive roots and the sum of the fundamental weights, every positive root is a non-negative integer combination of simple roots, and the highest root dominates. weyl_dim then gives the dimension of the irreducible representation, and SPN irreps report exactly that integer as dim (below 2^48; it is computed in double precision).",
  ["inputs"], "all ranks (A >= 1, others >= 2) and all dominant weights",
  "No test covers the root-system utilities.",
  [S + "lie_algebra_utils.py", I + "spn.py", I + "son.py"], [("explicit root and weight lists", S + "lie_algebra_utils.py:RootsWeightsA..D"), ("Weyl product", S + "lie_algebra_utils.py:weyl_dim")], ["structure_algebra", "weyl_dim", "SPN.dim"])
p("C21", "The JAX helpers agree with the NumPy semantics",
  "jax_utils.matrix_power(F, n) equals the n-th matrix power for every n >= 0 (identity for 0), and jax_utils.exp_map(rep, t, n) equals rep.exp_map(t, n) for all parameters with n >= 0, to single precision, also under jit. static_jax_pytree makes an irrep class a leafless static pytree: flattening gives no leaves and unflattening gives back an equal object.",
  ["inputs"], "all square matrices, all exponents 0 <= n < 2^31, all irreps and parameters",
  "The JAX helpers are not tested.",
  [S + "jax_utils.py"], [("binary powering scan", S + "jax_utils.py:matrix_power"), ("ordered product", S + "jax_utils.py:exp_map")], ["return values"])
p("C22", "Null spaces, orthonormal bases and basis intersections are exact subspaces",
  "For matrices whose nonzero singular values are well above the tolerance: gram_schmidt(A) is an orthonormal basis (rows) of the row space of A; extend_basis completes it to an orthonormal basis of the whole space (Q), E being the added rows; nullspace(A) is an orthonormal basis of all x with A x^T = 0; sequential_nullspace does the same for all its matrices jointly, stopping only once the announced dimension is reached and raising ValueError if it never is. basis_intersection(B1, B2) of independent families returns coefficient matrices with orthonormal rows such that P1 B1 and P2 B2 both span exactly the intersection, real or complex; unique_with_tol clusters stably and returns cluster means and the index map, and raises ValueError if a new cluster would overlap an earlier one.",
  ["inputs"], "all real and complex matrices with a spectral gap around the tolerance",
  "Tests cover a few real examples; rank-deficient, complex, empty and multi-step inputs are not covered.",
  [S + "util.py"], [("Gram-Schmidt loop", S + "util.py:gram_schmidt/extend_basis"), ("eigh of A^H A", S + "util.py:nullspace"), ("restriction to the previous null space", S + "util.py:sequential_nullspace"), ("null vectors of the joint Gram matrix", S + "util.py:basis_intersection")], ["return values"])
p("C23", "Irreps of a direct product of groups behave as products throughout",
  "group_product of tabulated irreps is a tabulated irrep of the product group: its generators act on the Kronecker product, first group's generators first; its selection rule is the Cartesian product of the two rules, its Clebsch-Gordan coefficients are the product coefficients with all path pairs, and its order is lexicographic. It agrees with group_product of the same representations taken generically, associates for three factors, and combines with MulIrrep, ReducedRep and tensor_product like any other irrep.",
  ["inputs"], "all pairs/triples of families and labels, including groups with discrete generators and finite groups",
  "One SU2 x SU2-type example is tested; discrete generators, path products and ordering are not.",
  [S + "group_product.py"], [("TabulatedIrrepProduct", S + "group_product.py")], ["group_product(...).X/.H/.A", "*", "clebsch_gordan", "<"])
p("C24", "is_real and make_explicitly_real recognise and realise real representations",
  "is_real(rep) is true exactly when rep is equivalent to its complex conjugate. When make_explicitly_real(rep) returns, the result is a representation equivalent to rep (same algebra, same characters) whose continuous generators have no imaginary part, and it raises ValueError when rep is not equivalent to its conjugate; for unitary irreps of real type (integer-spin SU2) it succeeds.",
  ["inputs"], "all irreducible representations",
  "These functions are not tested.",
  [S + "real.py", S + "infer_change_of_basis.py", S + "conjugate.py"], [("square root of the conjugation intertwiner", S + "real.py:make_explicitly_real")], ["is_real", "make_explicitly_real"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
