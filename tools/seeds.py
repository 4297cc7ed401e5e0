SEEDS = []
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("c01-so3-phase", "C01", [("_src/irreps/su2.py", "np.diag(1j * m),  # z (usually)", "np.diag(1j * np.clip(m, -12, 12)),  # z (usually)")],
     "an SU2 irrep with j > 24", "the z generator of SU2 is wrong for large spins",
     "import lie_nn as lie\nr = lie.irreps.SU2(j=26)\nr.check_algebra_vs_generators()\n")

seed("c02-su2-large", "C02", [("_src/irreps/sl2c.py", "            for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):", "            for k in range(abs(rep1.k - rep2.k), min(rep1.k + rep2.k, 8) + 1, 2):")],
     "SL2C irreps with k1 + k2 > 8", "the selection rule of SL2C misses constituents",
     "import lie_nn as lie\na = lie.irreps.SL2C(l=0, k=4); b = lie.irreps.SL2C(l=1, k=6)\nassert sum(c.dim for c in a * b) == a.dim * b.dim\n")

seed("c03-su2-float", "C03", [("_src/irreps/su2.py", "        S += (-1) ** (v + j2 + m2) * Fraction(\n            f(j2 + j3 + m1 - v) * f(j1 - m1 + v),\n            f(v) * f(j3 - j1 + j2 - v) * f(j3 + m3 - v) * f(v + j1 - j2 - m3),\n        )",
      "        S += (-1) ** (v + j2 + m2) * (\n            f(j2 + j3 + m1 - v)\n            * f(j1 - m1 + v)\n            / (f(v) * f(j3 - j1 + j2 - v) * f(j3 + m3 - v) * f(v + j1 - j2 - m3))\n        )"),
      ("_src/irreps/su2.py", "        return (C * S**2) ** 0.5\n    else:\n        return -((C * S**2) ** 0.5)", "        return float(C) ** 0.5 * S\n    else:\n        return -(float(C) ** 0.5 * -S)")],
     "large spins (the alternating sum cancels in floating point)", "SU2 Clebsch-Gordan coefficients are inaccurate / not orthonormal for large spins",
     "import numpy as np, lie_nn as lie\nS = lie.irreps.SU2\nC = S.clebsch_gordan(S(j=120), S(j=120), S(j=120))\nassert np.allclose(np.einsum('zijk,wijl->zkwl', C, C).reshape(121, 121), np.eye(121), atol=1e-8)\n")

seed("c04-o3-order", "C04", [("_src/irreps/o3_real.py", "        return (rep1.l, -((-1) ** rep1.l) * rep1.p) < (rep2.l, -((-1) ** rep2.l) * rep2.p)", "        return 8 * rep1.l - (-1) ** rep1.l * rep1.p < 8 * rep2.l - (-1) ** min(rep2.l, 6) * rep2.p")],
     "O3 irreps of odd degree 7 or more", "< is not the order of the iterator",
     "import itertools, lie_nn as lie\nx = list(itertools.islice(lie.irreps.O3.iterator(), 30))\nassert all(a < b for a, b in zip(x, x[1:]))\n")

seed("c05-conj-H", "C05", [("_src/conjugate.py", "        H=np.conjugate(rep.H),", "        H=rep.H,")],
     "a representation with complex discrete generators", "conjugate does not conjugate the discrete generators",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep(np.zeros((0,0,0)), np.zeros((0,1,1)), np.array([[[1j]]]))\nassert np.allclose(lie.conjugate(r).H, -1j)\n")

seed("c05-cb-H", "C05", [("_src/change_basis.py", "        H=Q @ rep.discrete_generators() @ iQ,", "        H=Q @ rep.discrete_generators() @ np.conj(np.transpose(Q)),")],
     "a change of basis that is not unitary, on a generic representation with discrete generators", "discrete generators get Q H Q^dagger instead of Q H Q^-1",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep(np.zeros((0,0,0)), np.zeros((0,2,2)), np.array([[[1., 0.],[0., -1.]]]))\nQ = np.array([[1., 2.],[0., 1.]])\nH = lie.change_basis(r, Q).H[0]\nassert np.allclose(H @ H, np.eye(2))\n")

seed("c06-red-H", "C06", [("_src/reduced_rep.py", "            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.linalg.inv(self.Q)", "            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.conj(self.Q.T)")],
     "a ReducedRep with discrete generators and a non-unitary Q", "discrete generators of ReducedRep are not Q D Q^-1",
     "import numpy as np, lie_nn as lie\nO = lie.irreps.O3\nQ = np.eye(4); Q[0, 1] = 2.0\nr = lie.ReducedRep.from_irreps([O(l=0, p=1), O(l=1, p=-1)], Q)\nH = r.H[0]\nassert np.allclose(H @ H, np.eye(4))\n")

seed("c07-Q-side", "C07", [("_src/tensor_product.py", "    Q = Q_tp @ Q\n", "    Q = Q_tp @ Q if rep2.Q is not None or rep1.Q is None else Q @ Q_tp\n")],
     "tensor_product of a ReducedRep with Q and one without", "the change of basis is composed on the wrong side",
     "import numpy as np, lie_nn as lie\nS = lie.irreps.SO3\nrng = np.random.default_rng(0)\nQ = np.linalg.qr(rng.normal(size=(4, 4)))[0]\na = lie.ReducedRep.from_irreps([S(l=0), S(l=1)], Q)\nb = lie.ReducedRep.from_irreps([S(l=1)])\nt = lie.tensor_product(a, b)\ng = lie.tensor_product(lie.GenericRep.from_rep(a), lie.GenericRep.from_rep(b))\nassert np.allclose(t.X, g.X)\n")

seed("c08-H-order", "C08", [("_src/rep.py", "        for k, h in reversed(list(zip(discrete_params, self.discrete_generators()))):\n            output = np.linalg.matrix_power(h, k) @ output", "        for k, h in zip(discrete_params, self.discrete_generators()):\n            output = np.linalg.matrix_power(h, k) @ output")],
     "several discrete generators that do not commute", "discrete generators are multiplied in reverse order",
     "import numpy as np, lie_nn as lie\nr = lie.finite.Sn_natural(4)\nH = r.H\nassert np.allclose(r.exp_map(np.zeros(0), np.array([1, 1])), H[0] @ H[1])\n")

seed("c09-nullspace-conj", "C09", [("_src/util.py", "        As.append(np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T))", "        As.append(np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T if len(As) < 6 else -x2))")],
     "more than six generators, non skew-symmetric ones after the sixth", "the intertwiner equation of some generators is wrong",
     "import numpy as np, lie_nn as lie\nr = lie.irreps.SU3(S=(1, 0, 0)); rng = np.random.default_rng(0)\nQ = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))\nq = lie.change_basis(lie.GenericRep.from_rep(r), Q)\nS = lie.util.infer_change_of_basis(q.X, r.X.astype(complex))\nassert S.shape[0] == 1\nassert np.allclose(q.X @ S[0], S[0] @ r.X)\n")

seed("c10-blockdiag", "C10", [("_src/util.py", "        shape_y += As[i].shape[2]", "        shape_y += As[i].shape[1]")],
     "rectangular blocks", "block_diagonal misplaces rectangular blocks",
     "import numpy as np\nfrom lie_nn.util import block_diagonal\nA = np.ones((1, 1, 3)); B = np.ones((1, 2, 1))\nR = block_diagonal([A, B])\nassert R[0, 0, :3].all() and R[0, 1:, 3].all() and R.sum() == 5\n")

seed("c11-float-compare", "C11", [("_src/util.py", "        mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))", "        x0 = n0 / d0\n        mask = np.abs(n2 / d2 - x0) <= np.abs(n1 / np.where(d1 == 0, 1, d1) - x0)")],
     "large denominators, candidates closer than float resolution of the difference", "limit_denominator returns the worse of the two candidates",
     """import numpy as np
from fractions import Fraction
from lie_nn.util import limit_denominator
rng = np.random.default_rng(0)
bad = 0
for _ in range(4000):
    d = int(rng.integers(1 << 48, 1 << 50)); n = int(rng.integers(1, d)); f = Fraction(n, d)
    m = int(rng.integers(1 << 20, 1 << 24))
    a, b = limit_denominator(np.array(f.numerator), np.array(f.denominator), m)
    bad += abs(Fraction(int(a), int(b)) - f) > abs(f.limit_denominator(m) - f)
assert bad == 0, bad
""")

seed("c12-germinate", "C12", [("_src/discrete_groups/perm.py", "        subset = subset.union([compose(p1, p2) for p1 in subset for p2 in subset])\n        if len(subset) == n:\n            return subset", "        subset = subset.union([compose(p1, p2) for p1 in subset for p2 in subset])\n        if len(subset) == n or len(subset) > 60:\n            return subset")],
     "generators of a group of more than 60 elements", "germinate stops before the closure",
     "import lie_nn._src.discrete_groups.perm as perm\ng = perm.germinate({(1, 0, 2, 3, 4, 5), (1, 2, 3, 4, 5, 0)})\nassert len(g) == 720\n")

seed("c13-subrepr", "C13", [("_src/reduced_tensor_product.py", "            if all(i in sub_f0 or i == j for j, i in enumerate(p))", "            if all((i in sub_f0) == (j in sub_f0) for j, i in enumerate(p))")],
     "a formula of four indices where a permutation preserves a pair but moves the others too", "intermediate bases are over-constrained, the result is not complete",
     "import lie_nn as lie\nS = lie.irreps.SO3(l=1)\nr = lie.reduced_tensor_product_basis('ijkl=jilk', i=S, k=S)\nassert r.array.shape[-1] == (81 + 9) // 2, r.array.shape\n")

seed("c14-dim", "C14", [("_src/irreps/sun.py", "            d *= 1 + Fraction(S[i] - S[j], j - i)\n    assert d.denominator == 1\n    return int(d)", "            d *= 1 + (S[i] - S[j]) / (j - i)\n    return int(d + 1e-3)")],
     "a weight whose dimension exceeds the float mantissa", "dim is computed in floating point",
     "from fractions import Fraction\nfrom lie_nn._src.irreps.sun import dim\nS = (900, 850, 700, 400, 300, 150, 0)\nd = Fraction(1)\nfor i in range(7):\n    for j in range(i + 1, 7):\n        d *= 1 + Fraction(S[i] - S[j], j - i)\nassert dim(S) == d\n")

seed("c15-std-cycle", "C15", [("_src/finite.py", "            H_cy[0, self.n - 2] = -1\n", "            H_cy[0, min(self.n - 2, 3)] = -1\n")],
     "S_n with n >= 6", "the cycle of the standard representation is wrong",
     "import numpy as np, lie_nn as lie\nfor n in range(3, 9):\n    c = lie.finite.Sn_standard(n).H[1]\n    assert np.allclose(np.linalg.matrix_power(c, n), np.eye(n - 1)), n\n")

seed("c16-unitary", "C16", [("_src/properties.py", "    H_unit = np.allclose(H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), atol=1e-13)", "    H_unit = np.allclose(H @ np.transpose(H, (0, 2, 1)), np.eye(rep.dim), atol=1e-13)")],
     "complex discrete generators", "is_unitary tests H H^T instead of H H^dagger",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep(np.zeros((0,0,0)), np.zeros((0,1,1)), np.array([[[1j]]]))\nassert lie.is_unitary(r)\n")

seed("c17-gs-inplace", "C17", [("_src/util.py", "        v = np.copy(A[i])\n        for w in Q:", "        v = A[i]\n        for w in Q:")],
     "looking at the input after the call", "gram_schmidt writes into its argument",
     "import numpy as np\nfrom lie_nn.util import gram_schmidt\nA = np.array([[1., 1., 0.], [1., 0., 0.]]); B = A.copy()\ngram_schmidt(A)\nassert (A == B).all()\n")

seed("c17-unitary-inplace", "C17", [("_src/properties.py", "    X_unit = np.allclose(X + np.conj(np.transpose(X, (0, 2, 1))), 0, atol=1e-13)", "    X += np.conj(np.transpose(X, (0, 2, 1)))\n    X_unit = np.allclose(X, 0, atol=1e-13)")],
     "is_unitary on a GenericRep (which returns its own array), then using it again", "is_unitary overwrites the generators of the representation it inspects",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep.from_rep(lie.irreps.SO3(l=1)); X = r.X.copy()\nlie.is_unitary(r)\nassert np.allclose(r.X, X)\n")

seed("c18-sun-digits", "C18", [("_src/irreps/sun.py", '        m = re.match(r"\\((\\d+(?:,\\d+)*)\\)", s)', '        m = re.match(r"\\((\\d(?:,\\d)*)\\)", s)')],
     "SU(N) weights of two digits", "from_string rejects rows with entries above 9",
     "from lie_nn.irreps import SU3\nassert SU3.from_string('(12,3,0)').S == (12, 3, 0)\n")

seed("c20-cartan", "C20", [("_src/lie_algebra_utils.py", "                C[i, j] = 2 * root_i.dot(root_j) / root_i.dot(root_i)", "                C[i, j] = 2 * root_i.dot(root_j) / root_j.dot(root_j)")],
     "roots of different lengths (B, C)", "the Cartan matrix is transposed",
     "from lie_nn._src.lie_algebra_utils import structure_algebra\nC = structure_algebra('B', 3)['CartanMatrix']\nassert C[1, 2] == -1 and C[2, 1] == -2, C\n")

seed("c21-upper", "C21", [("_src/jax_utils.py", "    upper_limit = 32\n", "    upper_limit = 8\n")],
     "powers n >= 256", "jax matrix_power drops the high bits of n",
     "import numpy as np, jax.numpy as jnp\nfrom lie_nn._src.jax_utils import matrix_power\nF = np.array([[np.cos(1), -np.sin(1)], [np.sin(1), np.cos(1)]])\nassert np.allclose(matrix_power(jnp.array(F), 300), np.linalg.matrix_power(F, 300), atol=1e-2)\n")

seed("c22-extend-conj", "C22", [("_src/util.py", "    for v in np.eye(A.shape[1], dtype=A.dtype):\n        for w in Q:\n            v -= np.dot(np.conj(w), v) * w", "    for v in np.eye(A.shape[1], dtype=A.dtype):\n        for w in Q:\n            v -= np.dot(w, v) * w")],
     "complex matrices", "extend_basis projects without conjugation",
     "import numpy as np\nfrom lie_nn.util import extend_basis\nA = np.array([[1, 1j, 0]])\nQ = extend_basis(A)\nassert np.allclose(Q @ Q.conj().T, np.eye(3))\n")

seed("c22-seqnull", "C22", [("_src/util.py", "                nullspace(A @ S.T, epsilon=epsilon, round_fn=round_fn) @ S", "                nullspace(A @ S.conj().T, epsilon=epsilon, round_fn=round_fn) @ S")],
     "complex constraint matrices", "sequential_nullspace restricts to the wrong subspace",
     "import numpy as np\nfrom lie_nn.util import sequential_nullspace\nA = np.array([[1, 1j, 0, 0]]); B = np.array([[0, 1j, 1, 2j]])\nS = sequential_nullspace([A, B], 2)\nassert np.allclose(np.concatenate([A, B]) @ S.T, 0)\n")

seed("c23-dtype", "C23", [("_src/group_product.py", "        X = np.zeros((rep.lie_dim, rep.dim, rep.dim), dtype=_get_dtype(X1, X2))", "        X = np.zeros((rep.lie_dim, rep.dim, rep.dim), dtype=X1.dtype)")],
     "a product of a real irrep with a complex one", "imaginary parts of the second factor's generators are dropped",
     "import numpy as np, lie_nn as lie\nr = lie.group_product(lie.irreps.SO3(l=1), lie.irreps.SU2(j=1))\nr.check_algebra_vs_generators()\n")


seed("c08-negative", "C08", [("_src/rep.py", "            output = np.linalg.matrix_power(h, k) @ output", "            output = np.linalg.matrix_power(h, abs(k)) @ output")],
     "a negative exponent of a discrete generator that is not an involution", "negative powers are taken as positive ones",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural\nr = Sn_natural(4)\nassert np.allclose(r.exp_map(np.zeros(0), np.array([0, -1])) @ r.H[1], np.eye(4))\n")

seed("c19-complex-eigs", "C19", [("_src/util.py", "    stable_spaces = eigenspaces(val, vec, epsilon=epsilon)", "    stable_spaces = eigenspaces(np.abs(val), vec, epsilon=epsilon)")],
     "a representation whose commutant has conjugate pairs of eigenvalues (real representations of complex type)", "inequivalent complex conjugate constituents are not separated",
     "import numpy as np\nfrom lie_nn.util import decompose_rep_into_irreps\nR = np.array([[0., -1., 0], [0., 0., -1.], [1., 0., 0.]])\nR = np.array([[-0.5, -np.sqrt(3) / 2], [np.sqrt(3) / 2, -0.5]])\nassert sorted(y.shape[1] for y in decompose_rep_into_irreps(R[None])) == [1, 1]\n")

seed("c24-imag-sum", "C24", [("_src/real.py", "    if np.linalg.norm(rep.X.imag) > 1e-10:", "    if np.linalg.norm(rep.X[0].imag) > 1e-10:")],
     "a representation of quaternionic type whose first generator happens to become real", "make_explicitly_real returns a representation that is not real instead of raising",
     "import numpy as np, lie_nn as lie\ntry:\n    r = lie.make_explicitly_real(lie.irreps.SU2(j=1))\nexcept ValueError:\n    pass\nelse:\n    assert np.allclose(r.X.imag, 0)\n")

seed("c12-isgroup", "C12", [("_src/discrete_groups/perm.py", "    for p1 in g:\n        for p2 in g:\n            if not compose(p1, p2) in g:\n                return False\n", "    for p1 in g:\n        if not compose(p1, p1) in g:\n            return False\n")],
     "a set closed under squares and inverses that is not closed under products", "is_group only checks squares",
     "from lie_nn._src.discrete_groups import perm\nassert not perm.is_group({(0, 1, 2), (1, 0, 2), (0, 2, 1)})\n")

seed("c12-cycles", "C12", [("_src/discrete_groups/perm.py", "            i = c.index(min(c))\n            c = c[i:] + c[:i]\n            cycles.add(tuple(c))", "            if c[0] < c[-1]:\n                cycles.add(tuple(c))")],
     "cycles of length 3 or more with several starting points below their predecessor", "to_cycles lists some cycles several times, so sign is wrong",
     "from lie_nn._src.discrete_groups import perm\nassert perm.sign((2, 3, 1, 0)) == -1 and len(perm.to_cycles((2, 3, 1, 0))) == 1\n")

seed("c16-real-part", "C16", [("_src/util.py", "    return np.allclose(left_side, right_side, rtol=rtol, atol=atol)\n\n\ndef infer_algebra", "    return np.allclose(np.real(left_side), np.real(right_side), rtol=rtol, atol=atol)\n\n\ndef infer_algebra")],
     "complex generators whose commutators differ only in the imaginary part", "check_algebra_vs_generators accepts a wrong algebra",
     "import numpy as np, lie_nn as lie\nX = lie.irreps.SU2(j=1).X\nA = np.array(lie.irreps.SU2(j=1).A); A[0, 2, 1] = 5; A[2, 0, 1] = -5\nassert not lie.util.check_algebra_vs_generators(A, X)\n")

seed("c18-o3-digit", "C18", [("_src/irreps/o3_real.py", "        l = int(s[:-1])\n", "        l = int(s[0])\n")],
     "O3 degrees of 10 or more", "from_string keeps only the first digit",
     "from lie_nn.irreps import O3\nassert O3.from_string('12e') == O3(l=12, p=1)\n")

seed("c18-mul-x", "C18", [("_src/reduced_rep.py", '            mul, rep = string.split("x")\n', '            mul, rep = string[0], string[2:]\n')],
     "multiplicities of two digits", "MulIrrep.from_string reads one digit only",
     "import lie_nn as lie\nr = lie.MulIrrep.from_string('16x1e', lie.irreps.O3)\nassert r.mul == 16 and r.rep.l == 1\n")

seed("c23-lt", "C23", [("_src/group_product.py", "        return (rep1.rep1, rep1.rep2) < (rep2.rep1, rep2.rep2)", "        return rep1.rep1 < rep2.rep1 or rep1.rep2 < rep2.rep2")],
     "pairs of product irreps ordered oppositely by the two factors", "the order of product irreps is not a strict order",
     "import lie_nn as lie\nS = lie.irreps.SO3\na, b = lie.group_product(S(l=0), S(l=1)), lie.group_product(S(l=1), S(l=0))\nassert a < b and not b < a\n")

seed("c10-regular", "C10", [("_src/util.py", "    reg_rep[g, gh, h] = 1\n", "    reg_rep[g, h, gh] = 1\n")],
     "a non-abelian multiplication table", "regular_representation returns the transposed matrices",
     "import numpy as np\nfrom lie_nn._src.discrete_groups import perm\nfrom lie_nn.util import regular_representation\nG = sorted(perm.group(3)); t = np.array([[G.index(perm.compose(a, b)) for b in G] for a in G])\nD = regular_representation(t)\nassert all((D[i] @ D[j] == D[t[i, j]]).all() for i in range(6) for j in range(6))\n")

seed("c10-vmap-tuple", "C10", [("_src/util.py", "            return tuple(np.stack(list, axis=out_axes) for list in zip(*output))", "            return tuple(np.stack(list) for list in zip(*output))")],
     "a function returning a tuple, mapped with out_axes other than 0", "out_axes is ignored for tuple outputs",
     "import numpy as np\nfrom lie_nn.util import vmap\na, b = vmap(lambda x: (x, 2 * x), 0, 1)(np.ones((4, 3)))\nassert a.shape == (3, 4)\n")

seed("c05-rcond", "C05", [("_src/change_algebra.py", "    iQ = np.linalg.pinv(Q)\n", "    iQ = np.linalg.pinv(Q, rcond=1e-3)\n")],
     "a change of basis of the algebra with very different scales", "small singular values of Q are dropped, the algebra returned does not fit the generators",
     "import numpy as np, lie_nn as lie\nr = lie.change_algebra(lie.irreps.SO3(l=1), np.diag([1., 1., 1e4]))\nassert np.allclose(r.A, np.einsum('ia,jb,abc,ck->ijk', np.diag([1, 1, 1e4]), np.diag([1, 1, 1e4]), lie.irreps.SO3(l=1).A, np.diag([1, 1, 1e-4])))\n")

seed("c07-near-identity", "C07", [("_src/tensor_product.py", "    if np.allclose(Q, np.eye(Q.shape[0])):\n", "    if np.allclose(Q, np.eye(Q.shape[0]), atol=1e-3):\n")],
     "a change of basis close to the identity", "a small rotation is dropped from the tensor product",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import Z2\ne = 5e-4\nQ = np.array([[np.cos(e), -np.sin(e)], [np.sin(e), np.cos(e)]])\na = lie.ReducedRep.from_irreps([Z2(p=1), Z2(p=-1)], Q)\nb = lie.ReducedRep.from_irreps([Z2(p=1)])\nassert np.allclose(lie.tensor_product(a, b).H, a.H, atol=1e-8)\n")

seed("c07-real", "C07", [("_src/tensor_product.py", "    if np.allclose(Q.imag, 0):\n", "    if np.allclose(Q.imag, 0, atol=1e-2):\n")],
     "a change of basis with small imaginary parts", "small imaginary parts of the change of basis are dropped",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import Z2\ne = 5e-3\nQ = np.array([[np.cos(e), 1j * np.sin(e)], [1j * np.sin(e), np.cos(e)]])\na = lie.ReducedRep.from_irreps([Z2(p=1), Z2(p=-1)], Q)\nb = lie.ReducedRep.from_irreps([Z2(p=1)])\nassert np.allclose(lie.tensor_product(a, b).H, a.H, atol=1e-8)\n")

seed("c13-germinate", "C13", [("_src/reduced_tensor_product.py", "    while True:\n        n = len(perm_repr)\n        perm_repr = perm_repr.union([(s, perm.inverse(p)) for s, p in perm_repr])", "    for _ in range(3):\n        n = len(perm_repr)\n        perm_repr = perm_repr.union([(s, perm.inverse(p)) for s, p in perm_repr])")],
     "a formula whose group needs more than three rounds of products (5 indices)", "the group generated by the formula is incomplete",
     "from lie_nn._src.reduced_tensor_product import germinate_perm_repr\nassert len(germinate_perm_repr('ijklm=jiklm=jklmi')[1]) == 120\n")

seed("c13-simplify", "C13", [("_src/reduced_tensor_product.py", "            if i == 0 or irrep != irreps[-1]:\n", "            if i == 0 or irrep.dim != irreps[-1].dim:\n")],
     "inequivalent irreps of the same dimension next to each other in the sorted list", "irreps of opposite parity are merged",
     "import lie_nn as lie\nfrom lie_nn.irreps import O3\na = lie.ReducedRep.from_irreps([O3(l=1, p=1), O3(l=1, p=-1)])\nb = lie.reduced_tensor_product_basis([a])\nassert sorted(m.rep.p for m in b.rep.irreps for _ in range(m.mul)) == [-1, 1]\n")

seed("c20-trunc", "C20", [("_src/lie_algebra_utils.py", "            (weight + weylvector).dot(positiveroot) / weylvector.dot(positiveroot)\n", "            1 + weight.dot(positiveroot) // weylvector.dot(positiveroot)\n")],
     "weights whose products with some root are not a multiple of the height", "weyl_dim divides with truncation",
     "from lie_nn._src.irreps.spn import SPN\nassert SPN(S=(0, 1)).dim == 5 and SPN(S=(2, 3)).dim == 154, SPN(S=(2,3)).dim\n")

seed("c20-short", "C20", [("_src/lie_algebra_utils.py", "        ([sum(epsilon[j] for j in range(i)) for i in range(1, rank)], [0.5 * sum(epsilon)])\n", "        ([sum(epsilon[j] for j in range(i)) for i in range(1, rank)], [sum(epsilon)])\n")],
     "type B", "the spinor weight of B_n is doubled",
     "import numpy as np\nfrom lie_nn._src.lie_algebra_utils import structure_algebra\ns = structure_algebra('B', 3)\nassert np.allclose(sum(s['FundamentalWeights']), s['WeylVector'])\n")

seed("c11-tie", "C11", [("_src/util.py", "        mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))", "        mask = np.abs(d1 * (n2 * d0 - n0 * d2)) < np.abs(d2 * (n1 * d0 - n0 * d1))")],
     "a ratio exactly between two fractions", "ties go to the other fraction than with fractions.Fraction",
     "import numpy as np\nfrom fractions import Fraction\nfrom lie_nn.util import limit_denominator\nfor n, d in [(1, 2), (3, 2), (1, 4), (5, 12), (7, 24)]:\n    for m in range(1, d):\n        a, b = limit_denominator(np.array(n), np.array(d), m)\n        assert Fraction(int(a), int(b)) == Fraction(n, d).limit_denominator(m), (n, d, m, a, b)\n")

seed("c04-sun-iter", "C04", [("_src/irreps/sun.py", "                for j3 in range(j2 + 1):\n                    yield", "                for j3 in range(min(j2, 4) + 1):\n                    yield")],
     "SU4 rows with third entry above 4", "the SU4 iterator skips irreps",
     "import itertools\nfrom lie_nn.irreps import SU4\nfrom math import comb\nassert any(r.S == (5, 5, 5, 0) for r in itertools.islice(SU4.iterator(), comb(8, 3) + 2))\n")

seed("c03-so3-real", "C03", [("_src/irreps/so3_real.py", "        q[l + m, l + abs(m)] = (-1) ** m / np.sqrt(2)\n        q[l + m, l - abs(m)] = 1j * (-1) ** m / np.sqrt(2)", "        q[l + m, l + abs(m)] = (-1) ** min(m, 12) / np.sqrt(2)\n        q[l + m, l - abs(m)] = 1j * (-1) ** min(m, 12) / np.sqrt(2)")],
     "SO3 degrees above 12", "the real change of basis has a wrong sign for m > 12",
     "import numpy as np, lie_nn as lie\nS = lie.irreps.SO3\na = S(l=13); X = a.X\na.check_algebra_vs_generators()\n")


seed("c17-conjugate", "C17", [("_src/conjugate.py", "        X=np.conjugate(rep.X),\n", "        X=np.conjugate(rep.X, out=rep.X),\n")],
     "a complex GenericRep, which hands out its own array", "conjugate (and is_real) conjugate the representation passed to them",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep.from_rep(lie.irreps.SU2(j=1)); X = r.X.copy()\nlie.is_real(r)\nassert np.allclose(r.X, X)\n")

seed("c13-constrain", "C13", [("_src/reduced_tensor_product.py", "        perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]", "        perm_opt = perm[~np.all(perm[:, R[0] != 0] == 0, axis=1)]")],
     "an irrep that occurs several times, its first copy not touching all the components", "parts of the permutation basis are ignored",
     "import lie_nn as lie\nfrom lie_nn.irreps import Z2\nr = lie.ReducedRep.from_irreps([(3, Z2(p=1)), (1, Z2(p=-1))])\nb = lie.reduced_symmetric_tensor_product_basis(r, 2)\nassert b.rep.dim == 10, b.rep.dim\n")

seed("c13-setwise", "C13", [("_src/reduced_tensor_product.py", "            if all(i in sub_f0 or i == j for j, i in enumerate(p))\n", "            if all((i in sub_f0) == (j in sub_f0) for j, i in enumerate(p))\n")],
     "a symmetry which moves two groups of indices at the same time, with a sign", "the subgroup of a set of indices contains permutations which also move the others",
     "from lie_nn._src.reduced_tensor_product import germinate_perm_repr, subrepr_permutation\n_, g = germinate_perm_repr('ijkl=-jilk')\nassert subrepr_permutation(frozenset({0, 1}), g) == frozenset({(1, (0, 1))})\n")

seed("c09-scale", "C09", [("_src/infer_change_of_basis.py", "A * np.sqrt(rep2.dim)", "A * np.sqrt(rep1.dim)")],
     "representations of different dimensions", "the normalisation of the changes of basis uses the wrong dimension",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import SO3\na = lie.GenericRep.from_rep(SO3(l=1))\nb = lie.direct_sum(a, lie.GenericRep.from_rep(SO3(l=2)))\nQ = lie.infer_change_of_basis(b, a)\nassert np.allclose(np.einsum('aij,akj->ik', Q, Q.conj()), np.eye(3)), Q\n")

seed("c23-iter", "C23", [("_src/group_product.py", "        for rep3 in rep1.rep1 * rep2.rep1:\n            for rep4 in rep1.rep2 * rep2.rep2:\n", "        seconds = rep1.rep2 * rep2.rep2\n        for rep3 in rep1.rep1 * rep2.rep1:\n            for rep4 in seconds:\n")],
     "a second factor whose selection rule is an iterator and a first factor with several terms", "only the first irrep of the first factor is combined with the second",
     "import lie_nn as lie\nfrom lie_nn.irreps import O3, SO3, SL2C, SO13\na = lie.group_product(SO3(l=1), SO13(l=1, k=1))\nassert sum(r.dim for r in a * a) == a.dim ** 2\n")

seed("c16-gens", "C16", [("_src/rep.py", "        for i in range(X1.shape[0]):\n            if not np.allclose(\n", "        for i in range(cg.ndim - 1):\n            if not np.allclose(\n")],
     "an algebra with more than three generators", "only the first three generators are checked",
     "import numpy as np, lie_nn as lie\nA = np.zeros((4, 4, 4))\nZ = np.zeros((0, 1, 1))\ndef f(X):\n    return lie.GenericRep(A, np.array(X, float).reshape(4, 1, 1), Z)\nimport lie_nn._src.clebsch_gordan as m\nimport sys\nm = sys.modules['lie_nn._src.clebsch_gordan']\nm.clebsch_gordan = lambda *a: np.ones((1, 1, 1, 1))\nfrom lie_nn._src.rep import check_representation_triplet as c\nc(f([1, 0, 0, 1]), f([0, 1, 0, 1]), f([1, 1, 0, 2]))\ntry:\n    c(f([1, 0, 0, 1]), f([0, 1, 0, 1]), f([1, 1, 0, 3]))\nexcept AssertionError:\n    pass\nelse:\n    raise AssertionError('accepted')\n")

seed("c16-rep2", "C16", [("_src/rep.py", "    rep2.check_algebra_vs_generators(rtol=rtol, atol=atol)\n    rep3.", "    rep2.check_algebra_vs_generators(rtol=rtol)\n    rep3.")],
     "a tolerance below the default one", "the requested absolute tolerance is not used for the second representation",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import SO3\nfrom lie_nn._src.rep import check_representation_triplet as c\na = lie.GenericRep.from_rep(SO3(l=0)); b = lie.GenericRep.from_rep(SO3(l=1))\nX = b.X.copy(); X[0] *= 1 + 1e-4\nb2 = lie.GenericRep(b.A, X, b.H)\nimport sys\nm = sys.modules['lie_nn._src.clebsch_gordan']\nm.clebsch_gordan = lambda *x: np.zeros((0, 1, 3, 3))\nc(a, b2, b2, atol=1e-2)\n")

seed("c17-schoice", "C17", [("_src/reduced_tensor_product.py", "    )  # (free, dim)\n", "    )  # (free, dim)\n    perm *= np.sign(perm.sum(axis=1, keepdims=True) - 0.5)\n")],
     "the same antisymmetric formula used twice: the rows come from a cached array", "the cached permutation basis is modified in place",
     "import numpy as np\nfrom lie_nn._src import reduced_tensor_product as r\n_, g = r.germinate_perm_repr('ij=-ji')\nb = r.reduce_permutation_base(g, (3, 3))\nbefore = r.reduce_permutation_matrix(b, (3, 3)).copy()\nimport lie_nn as lie\nlie.reduced_tensor_product_basis('ij=-ji', i=lie.irreps.SO3(l=1))\nassert np.array_equal(before, r.reduce_permutation_matrix(b, (3, 3)))\n")

seed("c20-Dfirst", "C20", [("_src/lie_algebra_utils.py", "    weight_sum = [sum(epsilon[j] for j in range(i)) for i in range(1, rank - 1)]\n", "    weight_sum = [sum(epsilon[j] for j in range(min(i, 3))) for i in range(1, rank - 1)]\n")],
     "type D of rank at least 6", "the fourth and further fundamental weights of D_n are wrong",
     "import numpy as np\nfrom lie_nn._src.lie_algebra_utils import structure_algebra\nfor n in range(3, 8):\n    s = structure_algebra('D', n)\n    assert np.allclose(sum(s['FundamentalWeights']), s['WeylVector']), n\n")

seed("c15-trivial", "C15", [("_src/finite.py", "            return np.ones((1, 1, 1))\n        if self.n >= 3:\n            return np.ones((2, 1, 1))", "            return np.ones((1, 1, 1))\n        if self.n >= 3:\n            return np.ones((2 if self.n < 8 else self.n - 1, 1, 1))")],
     "S_n with n >= 8", "the trivial representation has more generators than the other ones",
     "from lie_nn.finite import Sn_trivial, Sn_natural\nfor n in range(1, 11):\n    assert Sn_trivial(n).H.shape[0] == Sn_natural(n).H.shape[0]\n")

seed("c21-limit", "C21", [("_src/jax_utils.py", "    upper_limit = 32\n", "    upper_limit = 20\n")],
     "exponents of 2^20 and more", "large powers are truncated",
     "import numpy as np\nfrom lie_nn._src.jax_utils import matrix_power\na = np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]])\nn = 2 ** 20 + 3\nassert np.allclose(matrix_power(a, n), np.linalg.matrix_power(a, n))\n")

seed("c08-order", "C08", [("_src/rep.py", "np.linalg.matrix_power(h, k) @ output", "np.linalg.matrix_power(h, k % 12) @ output")],
     "a discrete generator whose order does not divide 12", "powers are reduced modulo 12",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural\nr = Sn_natural(5)\nassert np.allclose(r.exp_map(np.zeros(0), np.array([0, 13])), np.linalg.matrix_power(r.H[1], 13))\n")

seed("c06-Qinv", "C06", [("_src/reduced_rep.py", "            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.linalg.inv(self.Q)", "            X = direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.conj(self.Q.T) / abs(np.linalg.det(self.Q)) ** (2 / len(X))")],
     "a change of basis which is not a multiple of a unitary matrix", "the inverse is replaced by a scaled adjoint",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import Z2\nr = lie.ReducedRep.from_irreps([Z2(p=1), Z2(p=-1)], np.array([[1., 1], [0, 1]]))\nassert np.allclose(r.H[0] @ r.H[0], np.eye(2))\n")

seed("c05-tp-parity", "C05", [("_src/direct_sum.py", "    assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension\n", "    assert rep1.H.shape[0] == rep2.H.shape[0] or rep1.lie_dim > 0  # same discrete dimension\n")],
     "two representations with different numbers of discrete generators", "the missing check lets the sum of incompatible representations through",
     "import numpy as np, lie_nn as lie\nA = np.zeros((1, 1, 1))\na = lie.GenericRep(A, np.zeros((1, 1, 1)), np.ones((1, 1, 1)))\nb = lie.GenericRep(A, np.zeros((1, 1, 1)), np.ones((0, 1, 1)))\ntry:\n    r = lie.direct_sum(a, b)\nexcept (AssertionError, ValueError):\n    pass\nelse:\n    raise AssertionError(r.H)\n")

seed("c18-sep", "C18", [("_src/irreps/so13.py", "        m = re.match(r\"\\((\\d+),(\\d+)\\)\", s.strip())\n", "        m = re.match(r\"\\((\\d),(\\d+)\\)\", s.strip())\n")],
     "first labels with several digits", "valid descriptions are rejected",
     "from lie_nn.irreps import SO13\nassert SO13.from_string('(10,2)') == SO13(l=10, k=2)\n")

seed("c22-extend-dtype", "C22", [("_src/util.py", "    for v in np.eye(A.shape[1], dtype=A.dtype):\n        for w in Q:\n            v -= np.dot(np.conj(w), v) * w\n", "    for v in np.eye(A.shape[1]):\n        for w in Q:\n            v = v - np.dot(np.conj(w), v).real * w\n")],
     "a complex matrix", "the completion of a complex basis is not orthogonal",
     "import numpy as np\nfrom lie_nn.util import extend_basis\nA = np.array([[1, 1j, 0.5]]) / 1.5\nQ = extend_basis(A)\nassert np.allclose(Q @ Q.conj().T, np.eye(3))\n")

seed("c11-sign", "C11", [("_src/util.py", "    g = np.where(d < 0, -g, g)\n", "    g = np.where((d < 0) & (n > 0), -g, g)\n")],
     "a ratio of two negative integers", "the denominator stays negative",
     "import numpy as np\nfrom lie_nn._src.util import normalize_integer_ratio\nn, d = normalize_integer_ratio(np.array(-6), np.array(-4))\nassert (n, d) == (3, 2), (n, d)\n")

seed("c12-isperm", "C12", [("_src/discrete_groups/perm.py", "    return sorted(set(p)) == list(range(len(p)))\n", "    return len(set(p)) == len(p) and max(p, default=-1) == len(p) - 1\n")],
     "a tuple with a negative entry", "tuples with negative entries are accepted",
     "from lie_nn._src.discrete_groups import perm\nassert not perm.is_perm((-1, 1)) and perm.is_perm(()) and perm.is_perm((1, 0))\n")

seed("c05-adjoint", "C05", [("_src/change_basis.py", "        H=Q @ rep.discrete_generators() @ iQ,\n", "        H=Q @ rep.discrete_generators() @ (iQ if rep.lie_dim else np.conj(Q.T)),\n")],
     "a finite group and a change of basis which is not unitary", "the adjoint replaces the inverse",
     "import numpy as np, lie_nn as lie\nr = lie.change_basis(lie.GenericRep.from_rep(lie.irreps.Z2(p=-1)), np.array([[2.]]))\nassert np.allclose(r.H, -1)\n")

seed("c16-xunit-real", "C16", [("_src/properties.py", "    X_unit = np.allclose(X + np.conj(np.transpose(X, (0, 2, 1))), 0, atol=1e-13)\n", "    X_unit = np.allclose((X + np.conj(np.transpose(X, (0, 2, 1)))).real, 0, atol=1e-13)\n")],
     "generators whose hermitian part is purely imaginary", "non-unitary representations are declared unitary",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep(np.zeros((1, 1, 1)), np.array([[[0, 1j], [-1j, 0]]]), np.zeros((0, 2, 2)))\nfrom lie_nn._src.properties import is_unitary\nassert not is_unitary(r)\n")

seed("c15-perm-T", "C15", [("_src/finite.py", "    m[p, range(n)] = 1\n", "    m[range(n), p] = 1\n")],
     "the cycle in the natural representation, n >= 3", "the natural representation uses the inverse of the cycle of the standard one",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural, Sn_standard\na, b = Sn_natural(4), Sn_standard(4)\nB = np.array([[-1., 1, 0, 0], [-1, 0, 1, 0], [-1, 0, 0, 1]]).T\nassert np.allclose(a.H[1] @ B, B @ b.H[1])\n")

seed("c13-sym4", "C13", [("_src/reduced_tensor_product.py", "        (1, p) for p in itertools.permutations(range(order))\n", "        (1, p) for p in itertools.permutations(range(order)) if order < 4 or perm.sign(p) == 1\n")],
     "four or more factors of dimension at least 4", "the antisymmetric tensors are in the symmetric product",
     "import lie_nn as lie\nfrom lie_nn.irreps import Z2\nr = lie.ReducedRep.from_irreps([(4, Z2(p=1))])\nassert lie.reduced_symmetric_tensor_product_basis(r, 4).rep.dim == 35\n")

seed("c13-Q", "C13", [("_src/reduced_tensor_product.py", "np.linalg.inv(reduced_rep.Q).T", "np.conj(reduced_rep.Q)")],
     "a change of basis which is not unitary", "the initial basis is not equivariant",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import Z2\nr = lie.ReducedRep.from_irreps([Z2(p=1), Z2(p=-1)], np.array([[1., 1], [0, 1]]))\nb = lie.reduced_tensor_product_basis([r])\nassert np.allclose(np.einsum('ji,jk->ik', r.H[0], b.array), np.einsum('ij,kj->ik', b.array, b.rep.H[0].T)), b.array\n")

seed("c09-H1", "C09", [("_src/infer_change_of_basis.py", "    Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])\n    Y2 = np.concatenate([rep2.continuous_generators(), rep2.discrete_generators()])\n", "    Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()[:1]])\n    Y2 = np.concatenate([rep2.continuous_generators(), rep2.discrete_generators()[:1]])\n")],
     "a group with two discrete generators", "only the first discrete generator is intertwined",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural\nr = Sn_natural(4)\nassert len(lie.infer_change_of_basis(r, r)) == 2\n")

seed("c19-H1", "C19", [("_src/reduce.py", "np.concatenate([rep.X, rep.H])", "np.concatenate([rep.X, rep.H[:1]])")],
     "a group with two discrete generators", "the second discrete generator is ignored by the decomposition",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural\nr = lie.reduce(Sn_natural(4))\nassert r.H.shape == (2, 4, 4) and np.allclose(r.H, Sn_natural(4).H)\n")

seed("c22-unique", "C22", [("_src/util.py", "        if np.any(inverses[distances[i] < tol] != -1):\n", "        if np.all(inverses[distances[i] < tol] != -1):\n")],
     "a chain of elements, each close to the next one", "clusters which are not clearly distinct are not reported",
     "import numpy as np\nfrom lie_nn._src.util import unique_with_tol\ntry:\n    unique_with_tol(np.array([0., 0.9, 1.8]), tol=1.0)\nexcept ValueError:\n    pass\nelse:\n    raise SystemExit(1)\n")

seed("c14-lower5", "C14", [("_src/irreps/sun.py", "    for k_p in range(n - k - 1):\n        num *= M[k + 1][k_p] - M[k][l] + l - k_p\n", "    for k_p in range(min(n - k - 1, 2)):\n        num *= M[k + 1][k_p] - M[k][l] + l - k_p\n")],
     "SU(5) or larger", "the lowering operators are wrong",
     "import numpy as np\nfrom lie_nn._src.irreps.sun import lower_ladder_matrices as L, upper_ladder_matrices as U\nS = (1, 1, 0, 0, 0)\nassert np.allclose(L(S), np.swapaxes(U(S), 1, 2))\n")

seed("c21-zero", "C21", [("_src/jax_utils.py", "        n == 1,\n        lambda _: F,\n", "        n <= 1,\n        lambda _: F,\n")],
     "the exponent zero", "the power zero is the matrix itself",
     "import jax.numpy as jnp, numpy as np\nfrom lie_nn._src.jax_utils import matrix_power\nassert np.allclose(matrix_power(2.0 * jnp.eye(2), 0), np.eye(2))\n")

seed("c22-inter-conj", "C22", [("_src/util.py", "    v = np.conj(v[:, w < epsilon])\n", "    v = v[:, w < epsilon]\n")],
     "complex bases", "the projections do not project in the intersection",
     "import numpy as np\nfrom lie_nn._src.util import basis_intersection\nA = np.array([[1, 1j, 0], [0, 1, 1j]]) \nB = np.array([[1, 1j, 0], [1, 0, 0]]) + np.array([[0, 1, 1j]]) * np.array([[1j], [0]])\nx, y = basis_intersection(A, B)\nu, v = x @ A, y @ B\nassert len(u) == 1 and np.linalg.matrix_rank(np.concatenate([u, v]), tol=1e-6) == 1\n")

seed("c19-ones", "C19", [("_src/util.py", "    w = np.random.rand(len(Q))\n", "    w = np.ones(len(Q))\n")],
     "a representation whose sum of intertwiners has a repeated eigenvalue", "the representation is not decomposed",
     "import numpy as np, lie_nn as lie\nfrom lie_nn._src.util import decompose_rep_into_irreps\nfor n in (2, 3):\n    assert len(decompose_rep_into_irreps(np.stack([np.diag(np.arange(n) * 1j)]))) == n\n")

seed("c16-upper", "C16", [("_src/util.py", "    right_side = np.einsum(\"ijk,kab->ijab\", A, X)\n", "    right_side = np.einsum(\"ijk,kab->ijab\", A, X)\n    i, j = np.triu_indices(len(X))  # [X_i, X_j] = -[X_j, X_i]\n    left_side, right_side = left_side[i, j], right_side[i, j]\n")],
     "structure constants which are not antisymmetric", "wrong structure constants are accepted",
     "import numpy as np, lie_nn as lie\nfrom lie_nn._src.util import check_algebra_vs_generators as f\nr = lie.irreps.SU2(j=1)\nA = r.A.copy()\nassert f(A, r.X)\nA[1, 0] = 0\nassert not f(A, r.X)\n")

seed("c05-ca-QT", "C05", [("_src/change_algebra.py", "    iQ = np.linalg.pinv(Q)\n", "    iQ = np.linalg.pinv(Q) if Q.dtype == np.float64 else np.conj(Q.T)\n")],
     "a complex change of basis of the algebra which is not unitary", "the structure constants are wrong",
     "import numpy as np, lie_nn as lie\nfrom lie_nn._src.util import check_algebra_vs_generators as f\nr = lie.change_algebra(lie.irreps.SU2(j=1), np.diag([2j, 1, 1]))\nassert f(r.A, r.X)\n")

seed("c18-Q", "C18", [("_src/reduced_rep.py", "            [MulIrrep.from_string(term, cls_irrep) for term in string.split(\"+\")], Q\n", "            [MulIrrep.from_string(term, cls_irrep) for term in sorted(string.split(\"+\"))], Q\n")],
     "terms which are not in the lexicographic order", "the terms are reordered",
     "import lie_nn as lie\nr = lie.ReducedRep.from_string('2x1o+0e', lie.irreps.O3)\nassert [m.mul for m in r.irreps] == [2, 1], r\n")

seed("c16-triplet", "C16", [("_src/rep.py", "        for i in range(X1.shape[0]):\n            if not np.allclose(\n", "        for i in range(min(X1.shape[0], solution + 3)):\n            if not np.allclose(\n")],
     "an algebra of dimension at least 4, coefficients which fail for its last generators only", "coefficients which are not equivariant are accepted",
     "import numpy as np, lie_nn as lie\nfrom lie_nn._src.rep import check_representation_triplet as f\nr = lie.GenericRep(np.zeros((4, 4, 4)), np.zeros((4, 1, 1)), np.zeros((0, 1, 1)))\nimport lie_nn._src.clebsch_gordan as m\ns = lie.GenericRep(r.A, np.array([0, 0, 0, 1j]).reshape(4, 1, 1), r.H)\nimport sys\nsys.modules['lie_nn._src.clebsch_gordan'].clebsch_gordan = lambda *a: np.ones((1, 1, 1, 1))\nf(r, r, r)\ntry:\n    f(r, r, s)\nexcept AssertionError:\n    pass\nelse:\n    raise SystemExit(1)\n")

seed("c16-is-trivial", "C16", [("_src/rep.py", "            and np.all(self.discrete_generators() == 1.0)\n", "            and np.all(np.abs(self.discrete_generators()) == 1.0)\n")],
     "a one-dimensional representation with a discrete generator -1", "the sign representation is declared trivial",
     "import lie_nn as lie\nassert lie.irreps.Z2(p=1).is_trivial() and not lie.irreps.Z2(p=-1).is_trivial()\n")

seed("c24-shortcut", "C24", [("_src/real.py", "    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))\n", "    if np.isrealobj(rep.X):\n        return True\n    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))\n")],
     "real continuous generators and complex discrete ones", "a complex representation of a finite group is declared real",
     "import numpy as np, lie_nn as lie\nw = np.exp(2j * np.pi / 3)\nr = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[w]]]))\nassert not lie.is_real(r)\n")

seed("c17-memo", "C17", [("_src/irreps/sun.py", "def generators(S: WEIGHT):\n", "@functools.lru_cache(maxsize=None)\ndef generators(S: WEIGHT):\n"), ("_src/irreps/sun.py", "import itertools\nimport re\n", "import functools\nimport itertools\nimport re\n")],
     "the array of generators is modified by the user between two calls", "the generators returned later are the modified ones",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import SU3\nX = SU3((1, 0, 0)).X\nX0 = X.copy()\nX *= 2\nassert np.allclose(SU3((1, 0, 0)).X, X0)\n")

seed("c06-mixA", "C06", [("_src/reduced_rep.py", "                assert np.allclose(A, mul_ir.algebra())\n", "                assert A.shape == mul_ir.algebra().shape\n")],
     "irreps of two groups whose algebras have the same dimension", "terms of different groups are accepted",
     "import lie_nn as lie\nfrom lie_nn.irreps import SL2C, SO13\ntry:\n    lie.ReducedRep.from_irreps([SL2C(l=1, k=1), SO13(l=1, k=1)])\nexcept AssertionError:\n    pass\nelse:\n    raise SystemExit(1)\n")

seed("c11-sympy", "C11", [("_src/util.py", "    n, d = limit_denominator(n, d, max_denominator**2 + 1)\n    n, d = n.item(), d.item()\n", "    n, d = limit_denominator(n, d, max_denominator)\n    n, d = n.item(), d.item()\n")],
     "a number whose square needs a denominator above the bound", "the sympy rounding is not the nearest fraction",
     "import numpy as np, sympy as sp\nfrom lie_nn._src.util import round_to_sqrt_rational_sympy as f\nassert abs(complex(f(np.array(2 / 7), 10)) - 2 / 7) < 1e-12, f(np.array(2 / 7), 10)\n")

seed("c16-round-after", "C16", [("_src/util.py", "    algebra = round_fn(algebra)\n\n    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):\n        return algebra\n", "    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):\n        return round_fn(algebra)\n")],
     "a rounding function that changes the structure constants", "structure constants which do not hold are returned",
     "import numpy as np, lie_nn as lie\nfrom lie_nn._src.util import infer_algebra_from_generators as f\nX = lie.irreps.SU2(j=1).X * 0.4\nassert f(X) is not None and f(X, round_fn=np.round) is None\n")

seed("c15-std3", "C15", [("_src/finite.py", "        if self.n == 2:\n            return -np.ones((1, 1, 1))\n", "        if self.n == 2:\n            return np.ones((1, 1, 1))\n")],
     "n = 2", "the standard representation of S_2 is trivial",
     "import numpy as np\nfrom lie_nn.finite import Sn_standard\nassert np.allclose(Sn_standard(2).H, -1)\n")

seed("c23-product-dim", "C23", [("_src/group_product.py", "    H[H1.shape[0] :] = np.einsum(\"ij,akl->aikjl\", I1, H2).reshape(H2.shape[0], dim, dim)\n", "    H[H1.shape[0] :] = np.einsum(\"akl,ij->akilj\", H2, I1).reshape(H2.shape[0], dim, dim)\n")],
     "two generic representations of dimension at least 2, the second with discrete generators", "the discrete generators of the second factor act on the wrong index",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural\nr = lie.group_product(lie.GenericRep.from_rep(lie.irreps.SU2(j=1)), lie.GenericRep.from_rep(Sn_natural(3)))\nfor h in r.H:\n    for x in r.X:\n        assert np.allclose(h @ x, x @ h)\n")

seed("c08-generic-neg", "C08", [("_src/rep.py", "            output = np.linalg.matrix_power(h, k) @ output\n", "            output = np.linalg.matrix_power(h, abs(k)) @ output\n")],
     "a negative power of a discrete generator which is not an involution", "the inverse is not taken",
     "import numpy as np\nfrom lie_nn.finite import Sn_natural\nr = Sn_natural(3)\nassert np.allclose(r.exp_map(np.zeros(0), np.array([0, -1])), r.H[1].T)\n")

seed("c05-dsum-A", "C05", [("_src/direct_sum.py", "    assert np.allclose(rep1.A, rep2.A)  # same lie algebra\n", "    assert rep1.lie_dim == rep2.lie_dim  # same lie algebra\n")],
     "two representations whose algebras differ but have the same dimension", "the direct sum does not represent its algebra",
     "import lie_nn as lie\nfrom lie_nn.irreps import SL2C, SO13\ntry:\n    r = lie.direct_sum(SL2C(l=1, k=1), SO13(l=1, k=1))\nexcept AssertionError:\n    pass\nelse:\n    r.check_algebra_vs_generators()\n")

seed("c05-tp-A", "C05", [("_src/tensor_product.py", "    assert np.allclose(rep1.A, rep2.A)  # same lie algebra\n    X1, H1", "    assert rep1.lie_dim == rep2.lie_dim  # same lie algebra\n    X1, H1")],
     "two representations whose algebras differ but have the same dimension", "the tensor product does not represent its algebra",
     "import lie_nn as lie\nfrom lie_nn.irreps import SL2C, SO13\ntry:\n    r = lie.tensor_product(lie.GenericRep.from_rep(SL2C(l=1, k=1)), SO13(l=1, k=1))\nexcept AssertionError:\n    pass\nelse:\n    r.check_algebra_vs_generators()\n")

seed("c19-small", "C19", [("_src/util.py", "    return [(val, vec[:, i == j]) for j, val in enumerate(unique_val)]\n", "    return [(val, vec[:, i == j]) for j, val in enumerate(unique_val) if abs(val) > epsilon / 10]\n")],
     "an eigenvalue close to zero", "an eigenspace is lost",
     "import numpy as np\nfrom lie_nn._src.util import eigenspaces\nassert len(eigenspaces(np.array([0., 1, 0]), np.eye(3))) == 2\n")

seed("c14-index-neg", "C14", [("_src/irreps/sun.py", "    for x in itertools.product(*[reversed(range(s + 1)) for s in diff]):\n", "    for x in itertools.product(*[reversed(range(min(s, 6) + 1)) for s in diff]):\n")],
     "a weight with a gap larger than 6", "patterns are missing",
     "from lie_nn._src.irreps import sun\nfor S in [(2, 1, 0), (7, 0), (8, 1, 0)]:\n    assert len(list(sun.S_to_Ms(S))) == sun.dim(S)\n")

seed("c07-order", "C07", [("_src/tensor_product.py", "    return tensor_product(MulIrrep(mul=1, rep=irrep1), rep2)\n", "    return tensor_product(rep2, MulIrrep(mul=1, rep=irrep1))\n")],
     "an irrep times a reduced representation", "the factors are exchanged",
     "import numpy as np, lie_nn as lie\nfrom lie_nn.irreps import SO3\na = SO3(l=1)\nb = lie.ReducedRep.from_irreps([SO3(l=0), SO3(l=1)])\nt = lie.tensor_product(a, b)\ng = lie.tensor_product(lie.GenericRep.from_rep(a), lie.GenericRep.from_rep(b))\nassert np.allclose(t.X, g.X, atol=1e-6)\n")

seed("c07-power0", "C07", [("_src/tensor_product.py", "    result = rep.create_trivial()\n\n    while True:\n        if n & 1:\n            result = tensor_product(rep, result)\n", "    result = rep.create_trivial()\n\n    while True:\n        if n & 1:\n            result = tensor_product(rep, result) if n > 1 or result.dim > 1 else rep\n")],
     "powers of a one-dimensional representation", "powers of a non trivial one-dimensional representation are wrong",
     "import numpy as np, lie_nn as lie\nr = lie.GenericRep(np.zeros((1, 1, 1)), np.array([[[1j]]]), np.zeros((0, 1, 1)))\nfor n in range(1, 8):\n    assert np.allclose(lie.tensor_power(r, n).X, n * r.X), n\n")

seed("c04-sl2c", "C04", [("_src/irreps/sl2c.py", "            for l in range(0, sum + 1):\n", "            for l in range(sum % 2, sum + 1) if sum > 10 else range(0, sum + 1):\n")],
     "labels l + k = 11, 13, ...", "irreps are missing",
     "import itertools\nfrom lie_nn.irreps import SL2C\na = list(itertools.islice(SL2C.iterator(), 200))\nassert SL2C(l=0, k=11) in a and SL2C(l=0, k=12) in a\n")

seed("c12-tocycles", "C12", [("_src/discrete_groups/perm.py", "        if len(c) >= 2:\n            i = c.index(min(c))\n            c = c[i:] + c[:i]\n", "        if len(c) >= 2:\n            k = c.index(min(c))\n            c = c[k:] + (c[:k] if k < 5 else c[:k][::-1])\n")],
     "cycles of length at least 7", "cycles of wrong order are added, the sign is wrong",
     "from lie_nn._src.discrete_groups import perm\np = tuple((i + 1) % 8 for i in range(8))\nassert len(perm.to_cycles(p)) == 1 and perm.sign(p) == -1\n")

seed("c02-sun5", "C02", [("_src/irreps/sun.py", "            if n - k - 1 >= 1 and t_weight[n - k - 1] > t_weight[n - k - 2]:\n", "            if 1 <= n - k - 1 < 4 and t_weight[n - k - 1] > t_weight[n - k - 2]:\n")],
     "SU(5) or larger", "tuples which are not weights are listed",
     "from lie_nn._src.irreps.sun import SUN\nF = [SUN((1,) * i + (0,) * (5 - i)) for i in range(1, 5)]\nfor a in F:\n    for b in F:\n        assert sum(x.dim for x in a * b) == a.dim * b.dim, (a, b)\n")

seed("c02-sl2c-large", "C02", [("_src/irreps/sl2c.py", "            for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):\n", "            for k in range(abs(rep1.k - rep2.k), min(rep1.k + rep2.k, 2 * rep1.k + rep2.l + 8) + 1, 2):\n")],
     "the label k of the second factor is large", "irreps are missing",
     "from lie_nn.irreps import SL2C\nfor a, b in [((0, 3), (0, 40)), ((2, 1), (0, 20))]:\n    x, y = SL2C(*a), SL2C(*b)\n    assert sum(z.dim for z in x * y) == x.dim * y.dim\n")

seed("c20-Dspin", "C20", [("_src/lie_algebra_utils.py", "            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])\n", "            (weight_sum, [0.5 * sum(epsilon)], [0.5 * sum(epsilon) - epsilon[rank - 1]])\n")],
     "D_n with n >= 3", "the last two fundamental weights are exchanged",
     "import numpy as np\nfrom lie_nn._src.lie_algebra_utils import RootsWeightsD\nfor n in (2, 3, 4):\n    r, _, w, _, _ = RootsWeightsD(n)\n    assert np.allclose(np.array(w) @ np.array(r).T, np.eye(n)), n\n")

seed("c10-vmap-empty", "C10", [("_src/util.py", "        out_shape.insert(out_axes if out_axes >= 0 else len(out_shape) + 1 + out_axes, 0)\n", "        out_shape.insert(out_axes, 0)\n")],
     "no slices, a negative output axis", "the shape of the empty result is wrong",
     "import numpy as np\nfrom lie_nn._src.util import vmap\nf = vmap(lambda x: x, in_axes=0, out_axes=-1, out_shape=(2, 3))\nassert f(np.zeros((0, 2, 3))).shape == (2, 3, 0)\n")

seed("c21-order", "C21", [("_src/jax_utils.py", "    for x in reversed(discrete):\n        output = x @ output\n", "    for x in discrete:\n        output = x @ output\n")],
     "two discrete generators which do not commute", "the discrete elements are multiplied in the wrong order",
     "import jax.numpy as jnp, numpy as np, lie_nn as lie\nfrom lie_nn.finite import Sn_natural\nfrom lie_nn._src.jax_utils import exp_map\nr = Sn_natural(3)\nassert np.allclose(exp_map(r, jnp.zeros(0), jnp.array([1, 1])), r.exp_map(np.zeros(0), np.array([1, 1])))\n")
