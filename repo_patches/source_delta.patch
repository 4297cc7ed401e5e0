From ad84c5ffd98be01d444dbe6251b16fa31e74bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 01/17] fix: tensor_product(ReducedRep, MulIrrep) swapped its
 two factors

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From b2d9d3c58f3b0ccd2f9de4736334c8ae8891eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 02/17] fix: MulIrrep with mul=0 has generators of shape (n, 0,
 0) instead of raising TypeError

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..10c3a30 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From 131d9e0590d23a749eac97d40fd6b3b35425c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 03/17] fix: ReducedRep of a finite group (lie_dim=0) raised
 ValueError in continuous_generators

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 10c3a30..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From 0e06830277ef8a7fad83c9d1ba6bc4d4dcde4735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 04/17] fix: check_algebra_vs_generators raised TypeError when
 there are no generators (finite groups)

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..1d59d77 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -442,7 +442,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
-- 
2.43.0


From 249b2a4291ddf4c7c86a4ba06877b5e664e1eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 05/17] fix: SU(N) Clebsch-Gordan coefficients were wrong when
 the output irrep has degenerate weights or appears several times

The lowering of a state gives a combination of all the states of the target weight; each weight
space is now solved for at once, and for every copy of the output irrep.
---
 lie_nn/_src/irreps/sun.py | 93 +++++++++++----------------------------
 1 file changed, 26 insertions(+), 67 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..2342bca 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,77 +304,36 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
-
-
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
-
-
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
+    n = len(S3)
     dimS1 = dim(S1)
     dimS2 = dim(S2)
-    dimS3 = dim(S3)
-    M_eldest = tuple(S_to_Ms(S3))[-1]
+    Ms = list(S_to_Ms(S3))
+    M_eldest = Ms[-1]
     C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
-    C = np.concatenate(
-        (
-            np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3 - 1)),
-            (C_eldest.reshape(C_eldest.shape[0], dimS1, dimS2, 1)),
-        ),
-        axis=-1,
-    )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
+    C = np.zeros((C_eldest.shape[0], dimS1, dimS2, len(Ms)))
+    C[..., -1] = C_eldest
+
+    L1 = lower_ladder_matrices(S1)
+    L2 = lower_ladder_matrices(S2)
+    L3 = lower_ladder_matrices(S3)
+
+    # All the states of a same weight are obtained together from the (already known) states that
+    # the ladder operators lower into that weight:
+    #     sum_N <N| J(l)- |M> C_N = (J(l)- x 1 + 1 x J(l)-) C_M
+    weights = [M_to_p_weight(M) for M in Ms]
+    for w in sorted(set(weights), key=lambda w: w[::-1], reverse=True)[1:]:
+        mps = [i for i, x in enumerate(weights) if x == w]
+        A, B = [], []
+        for l in range(n - 1):
+            for mc in range(len(Ms)):
+                if np.any(L3[l, mps, mc] != 0):
+                    A.append(L3[l, mps, mc])
+                    B.append(
+                        np.einsum("xi,aij->axj", L1[l], C[..., mc])
+                        + np.einsum("yj,aij->aiy", L2[l], C[..., mc])
+                    )
+        C[..., mps] = np.einsum("pe,eaij->aijp", np.linalg.pinv(np.stack(A)), np.stack(B))
     return C
 
 
-- 
2.43.0


From 497ed3536c4be1953c9787893e6e9f74659df598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 06/17] fix: basis_intersection on complex bases and empty
 permutation bases

The Gram matrix missed complex conjugates, and reshape(-1) fails on an empty basis (e.g. ij=-ji
restricted to an index of dimension 1).
---
 lie_nn/_src/reduced_tensor_product.py |  7 +++++--
 lie_nn/_src/util.py                   | 14 +++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..608efa0 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -343,7 +343,9 @@ def constrain_rotation_basis_by_permutation_basis(
     """
     assert all(x.shape[:-2] == permutation_basis.shape[1:] for x in rotation_basis.list)
 
-    perm = np.reshape(permutation_basis, (permutation_basis.shape[0], -1))  # (free, dim)
+    perm = np.reshape(
+        permutation_basis, (permutation_basis.shape[0], prod(permutation_basis.shape[1:]))
+    )  # (free, dim)
 
     new_irreps: List[Tuple[int, TabulatedIrrep]] = []
     new_list: List[np.ndarray] = []
@@ -393,7 +395,8 @@ def reduce_subgroup_permutation(
         return len(base)
     permutation_basis = reduce_permutation_matrix(base, sub_dims)
     return np.reshape(
-        permutation_basis, (-1,) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims)))
+        permutation_basis,
+        (len(base),) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims))),
     )
 
 
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1d59d77..925ab1a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -416,26 +416,26 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    basis1 = np.reshape(basis1, (basis1.shape[0], prod(basis1.shape[1:])))
+    basis2 = np.reshape(basis2, (basis2.shape[0], prod(basis2.shape[1:])))
 
     p = np.concatenate(
         [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
+            np.concatenate([basis1 @ basis1.T.conj(), -basis1 @ basis2.T.conj()], axis=1),
+            np.concatenate([-basis2 @ basis1.T.conj(), basis2 @ basis2.T.conj()], axis=1),
         ],
         axis=0,
     )
     p = round_fn(p)
 
     w, v = np.linalg.eigh(p)
-    v = v[:, w < epsilon]
+    v = np.conj(v[:, w < epsilon])
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(x1.conj() @ x1.T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(x2.conj() @ x2.T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From 2bd96f11d0d885bc30a1b2a95b519af70f6a37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 07/17] fix: reduce failed on representations with
 multiplicities or complex invariant subspaces

---
 lie_nn/_src/reduce.py | 10 ++++++----
 lie_nn/_src/util.py   |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..b818fb6 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -34,11 +34,13 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     irs = []
     for Y in Ys:
         ir = GenericRep(rep.A, Y[:d], Y[d:])
+        if any(len(infer_change_of_basis(ir, mul_ir.rep)) > 0 for mul_ir in irs):
+            continue  # all the copies have been obtained with the first one
         Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
+        mul = len(Q)
+        Q = np.einsum("mij->imj", Q).reshape((rep.dim, mul * ir.dim))
         Qs.append(Q)
-        irs.append(ir)
+        irs.append(MulIrrep(mul, ir))
 
     Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
-    return rep
+    return ReducedRep(rep.A, tuple(irs), Q)
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 925ab1a..175a2e8 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -580,7 +580,7 @@ def decompose_rep_into_irreps(
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
 
-        Ys += [B @ X @ B.T.conj()]
+        Ys += [B.conj() @ X @ B.T]
     return Ys
 
 
-- 
2.43.0


From 5a46fec13798d627e621dcd03408c20d5cc949af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 08/17] fix: RootsWeightsD listed the vector-like fundamental
 weights twice

---
 lie_nn/_src/lie_algebra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index ace02ad..06e52ba 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -78,7 +78,7 @@ def RootsWeightsD(rank):
         weights_2 = np.concatenate(([0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)]))
     else:
         weights_2 = np.concatenate(
-            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], weight_sum, [0.5 * sum(epsilon)])
+            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
     dynkin = " " * 4 * (rank - 2) + "0\n"
-- 
2.43.0


From 73f2adfa8ffe97f3dc93afd05c7372d1981ba184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 09/17] fix: dimension of SPN and SON irreps truncated by int()
 (e.g. 13 instead of 14)

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..59eda7a 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -50,7 +50,7 @@ class SON(TabulatedIrrep):
     @property
     def dim(rep: "SON") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return int(round(weyl_dim(weights(rep), positiveroots, weylvector)))
 
     def is_scalar(rep: "SON") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..2e7544e 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -46,7 +46,7 @@ class SPN(TabulatedIrrep):
     @property
     def dim(rep: "SPN") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return int(round(weyl_dim(weights(rep), positiveroots, weylvector)))
 
     def is_scalar(rep: "SPN") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From 9c6bf164156fb22a8d2902f5c89af902e6159a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 10/17] fix: limit_denominator returned 0/1 for fractions whose
 denominator is exactly the bound

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 175a2e8..b037d19 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From c687c3966cea7b5a98f1f87946312570b2a51bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 11/17] fix: make_explicitly_real refused real irreps (e.g.
 spin 3), square root taken on its branch cut

---
 lie_nn/_src/real.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..d278fbe 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -14,7 +14,9 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
+    # The factor 1j keeps the eigenvalues (1 and -1 when S is real) away from the branch cut of the
+    # square root, where the result would not be a function of S
+    rep = lie.change_basis(rep, la.sqrtm(1j * S[0]))
     if np.linalg.norm(rep.X.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From 29ff1af2a173f00a939acbb7c27e58d81b31feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 12/17] fix: infer_change_of_basis with rounding failed on
 irreps with small coefficients (e.g. SO13(2,2) x SO13(2,2))

---
 lie_nn/_src/infer_change_of_basis.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lie_nn/_src/infer_change_of_basis.py b/lie_nn/_src/infer_change_of_basis.py
index 21aecab..7a31ac9 100644
--- a/lie_nn/_src/infer_change_of_basis.py
+++ b/lie_nn/_src/infer_change_of_basis.py
@@ -31,16 +31,15 @@ def infer_change_of_basis(rep1: Rep, rep2: Rep, round_fn=lambda x: x) -> np.ndar
     Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])
     Y2 = np.concatenate([rep2.continuous_generators(), rep2.discrete_generators()])
 
-    A = _infer_change_of_basis(Y2, Y1, round_fn=round_fn)
-    np.testing.assert_allclose(
-        np.einsum("aij,bjk->abik", Y2, A),
-        np.einsum("bij,ajk->abik", A, Y1),
-        rtol=1e-8,
-        atol=1e-8,
-    )
+    # Small coefficients do not always survive the rounding, it is used only if the result is valid
+    for fn in (round_fn, lambda x: x):
+        A = _infer_change_of_basis(Y2, Y1, round_fn=fn)
+        A = fn(A * np.sqrt(rep2.dim))
+        left = np.einsum("aij,bjk->abik", Y2, A)
+        right = np.einsum("bij,ajk->abik", A, Y1)
+        if np.allclose(left, right, rtol=1e-8, atol=1e-8):
+            break
+    np.testing.assert_allclose(left, right, rtol=1e-8, atol=1e-8)
 
     assert A.dtype in [np.float64, np.complex128]
-
-    A = A * np.sqrt(rep2.dim)
-    A = round_fn(A)
     return A
-- 
2.43.0


From 0ba1f57d1eaf14b2013ed827ffdc4c943a9c48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 13/17] fix: jax_utils.matrix_power raised TypeError on integer
 and complex matrices

---
 lie_nn/_src/jax_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..e914082 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,7 +13,7 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
-    init_carry = n, F, jnp.eye(F.shape[0])
+    init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
     def body(carry, _):
         # One step of the iteration
@@ -24,7 +24,7 @@ def matrix_power(F, n):
 
         # No more computation necessary if n = 0
         # Is there a better way to early break rather than just returning something empty?
-        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape), z)
+        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape, z.dtype), z)
 
         return (new_n, new_z, new_result), None
 
-- 
2.43.0


From b5c02474310564eef4783ef6522ef176253ac2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 14/17] fix: extend_basis(A, returns="E") raised ValueError on
 a matrix of full rank

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index b037d19..4d3560a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -258,7 +258,7 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
     if returns == "Q":
         return np.stack(Q)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]))
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
-- 
2.43.0


From 2be7be563fc62ff5251d8624a6b2a90f3af9857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 15/17] fix: is_real was True for reducible representations
 with a single self-conjugate part

---
 lie_nn/_src/real.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index d278fbe..f71a041 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -4,14 +4,24 @@ import scipy.linalg as la
 import lie_nn as lie
 
 
+def _contains_invertible(S: np.ndarray) -> bool:
+    """Returns True if there is an invertible matrix in the span of the matrices S."""
+    if S.shape[0] == 0:
+        return False
+    # If there is one, almost all the linear combinations are invertible
+    w = np.random.default_rng(0).normal(size=S.shape[0])
+    M = np.einsum("n,nij->ij", w, S)
+    return bool(np.linalg.matrix_rank(M, tol=1e-6) == M.shape[0])
+
+
 def is_real(rep: lie.Rep) -> bool:
     S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
-    return S.shape[0] > 0
+    return _contains_invertible(S)
 
 
 def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     S = lie.infer_change_of_basis(rep, lie.conjugate(rep), round_fn=round_fn)
-    if S.shape[0] == 0:
+    if not _contains_invertible(S):
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
     # The factor 1j keeps the eigenvalues (1 and -1 when S is real) away from the branch cut of the
-- 
2.43.0


From 986b1863a6c98acbc7d254481fe7168ef80be346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 16/17] fix: ladder operators of Gelfand-Tsetlin patterns with
 negative entries were zero

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 2342bca..20be787 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -113,7 +113,7 @@ def triangular_triplet(M: GT_PATTERN) -> Iterator[Tuple[int, int, int]]:
 
 
 def is_valid_M(M: GT_PATTERN):
-    return all(m1 >= m3 >= m2 >= 0 for m1, m2, m3 in triangular_triplet(M))
+    return all(m1 >= m3 >= m2 for m1, m2, m3 in triangular_triplet(M))
 
 
 def unique_pairs(n: int, start: int = 0) -> Iterator[Tuple[int, int]]:
-- 
2.43.0


From 0deafbca813aa4ffe1fb199d17dd4fd47bc05145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:08 +0000
Subject: [PATCH 17/17] fix: vmap of a zero-length input with a negative
 out_axes

list.insert counts a negative position before the insertion, so the empty
result had the mapped axis one place too early (out_axes=-1, out_shape=(2, 3)
gave (2, 0, 3) instead of (2, 3, 0)).
---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 4d3560a..259c424 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -124,7 +124,7 @@ def vmap(
 ):
     if out_shape is not None:
         out_shape = list(out_shape)
-        out_shape.insert(out_axes, 0)
+        out_shape.insert(out_axes if out_axes >= 0 else len(out_shape) + 1 + out_axes, 0)
 
     def f(*args):
         in_axes_ = in_axes
-- 
2.43.0

