From af01d9d0d63aa01468f5d988592d1f6213180860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 01/49] fix: SU(N) Clebsch-Gordan coefficients for degenerate
 weight spaces and outer multiplicities

The lower states were built one by one as if a lowering operator mapped a state to a
single state, and the paths after the first one only had their eldest state.
---
 lie_nn/_src/irreps/sun.py | 83 +++++++++++----------------------------
 1 file changed, 23 insertions(+), 60 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..cccb53f 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,63 +304,12 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
-
-
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
-
-
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
     dimS1 = dim(S1)
     dimS2 = dim(S2)
     dimS3 = dim(S3)
-    M_eldest = tuple(S_to_Ms(S3))[-1]
-    C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
+    Ms = list(S_to_Ms(S3))
+    C_eldest = clebsch_gordan_eldest(S1, S2, Ms[-1])
     C = np.concatenate(
         (
             np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3 - 1)),
@@ -368,13 +317,27 @@ def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
         ),
         axis=-1,
     )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
+    if C.shape[0] == 0:
+        return C
+
+    Jm1 = lower_ladder_matrices(S1)
+    Jm2 = lower_ladder_matrices(S2)
+    Jm3 = lower_ladder_matrices(S3)
+
+    # A lowering operator maps a weight space to a combination of all the states of another
+    # weight space, hence the states of a same weight have to be solved together.
+    weight_spaces = {}
+    for index, M in enumerate(Ms[:-1]):
+        weight_spaces.setdefault(M_to_p_weight(M), []).append(index)
+
+    for weight in sorted(weight_spaces):
+        states = weight_spaces[weight]
+        L = Jm3[:, states, :]  # <state| J(l)- |parent>
+        l, parents = np.nonzero(np.any(L != 0, axis=1))
+        L = L[l, :, parents]  # (num_equations, num_states)
+        R = np.einsum("eui,zije->zuje", Jm1[l], C[..., parents])
+        R = R + np.einsum("evj,zije->zive", Jm2[l], C[..., parents])
+        C[..., states] = np.einsum("se,zije->zijs", np.linalg.pinv(L), R)
     return C
 
 
-- 
2.43.0


From df8a4f2f54fb743ab38ab5ce032a888e0f528b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 02/49] fix: tensor_product(ReducedRep, MulIrrep) had its
 operands swapped

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From b69c266fc9509b4119c56f2d57f237313ba49eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 03/49] fix: ReducedRep.continuous_generators of a group
 without Lie algebra

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..d67c43e 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From d643baa3662636f4d11bef73f8141b0d00e7e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 04/49] fix: generators of a MulIrrep of multiplicity zero

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index d67c43e..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From 4613588943f6762dd0877e8818d997c9e3278ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 05/49] fix: extend_basis(returns="E") of a complete basis

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..9e1fe39 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -258,7 +258,7 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
     if returns == "Q":
         return np.stack(Q)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]), dtype=A.dtype)
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
-- 
2.43.0


From 765e08f761ccb15444ae8655aafa3554113d165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 06/49] fix: algebra checks of a representation without
 continuous generators

---
 lie_nn/_src/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 9e1fe39..33d5417 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -442,7 +442,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
@@ -470,7 +470,7 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
-- 
2.43.0


From 89a9bd5effa9d6bce07fc1b5914bfbbebfd26d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 07/49] fix: SON.dim and SPN.dim were truncated instead of
 rounded

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..524f8ed 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -50,7 +50,7 @@ class SON(TabulatedIrrep):
     @property
     def dim(rep: "SON") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return round(weyl_dim(weights(rep), positiveroots, weylvector))
 
     def is_scalar(rep: "SON") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..6c4f000 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -46,7 +46,7 @@ class SPN(TabulatedIrrep):
     @property
     def dim(rep: "SPN") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return round(weyl_dim(weights(rep), positiveroots, weylvector))
 
     def is_scalar(rep: "SPN") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From 9ae8705fafa48cba12422c5b6bdf854ba885226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 08/49] fix: duplicated fundamental weights of the root system
 D

---
 lie_nn/_src/lie_algebra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index ace02ad..06e52ba 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -78,7 +78,7 @@ def RootsWeightsD(rank):
         weights_2 = np.concatenate(([0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)]))
     else:
         weights_2 = np.concatenate(
-            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], weight_sum, [0.5 * sum(epsilon)])
+            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
     dynkin = " " * 4 * (rank - 2) + "0\n"
-- 
2.43.0


From 6b63a113cb433862c8f9686f2a2b1009a596913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 09/49] fix: make_explicitly_real did not check the discrete
 generators

---
 lie_nn/_src/real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..4cda7d2 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -15,6 +15,6 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
     rep = lie.change_basis(rep, la.sqrtm(S[0]))
-    if np.linalg.norm(rep.X.imag) > 1e-10:
+    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From f56deb1117110d4809b720d875e709b4cc9e0b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 10/49] fix: basis_intersection of complex bases

---
 lie_nn/_src/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 33d5417..5a4d63a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -421,8 +421,8 @@ def basis_intersection(
 
     p = np.concatenate(
         [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
+            np.concatenate([basis1 @ basis1.conj().T, -basis1 @ basis2.conj().T], axis=1),
+            np.concatenate([-basis2 @ basis1.conj().T, basis2 @ basis2.conj().T], axis=1),
         ],
         axis=0,
     )
@@ -432,10 +432,10 @@ def basis_intersection(
     v = v[:, w < epsilon]
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(x1 @ x1.conj().T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(x2 @ x2.conj().T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From d10da92cdf7cd47b4fd1c15187d849b3c28826aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 11/49] fix: reduce with repeated irreps and with complex
 change of basis

---
 lie_nn/_src/reduce.py | 12 +++++++++---
 lie_nn/_src/util.py   |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..f4c2876 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -34,11 +34,17 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     irs = []
     for Y in Ys:
         ir = GenericRep(rep.A, Y[:d], Y[d:])
+        if any(
+            mul_ir.rep.dim == ir.dim and len(infer_change_of_basis(mul_ir.rep, ir)) > 0
+            for mul_ir in irs
+        ):
+            continue  # another copy of an irrep that is already there
         Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
+        mul = Q.shape[0]
+        Q = np.einsum("mij->imj", Q).reshape((rep.dim, mul * ir.dim))
         Qs.append(Q)
-        irs.append(ir)
+        irs.append(MulIrrep(mul, ir))
 
     Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
+    rep = ReducedRep(rep.A, tuple(irs), Q)
     return rep
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 5a4d63a..ea4f71c 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -580,7 +580,7 @@ def decompose_rep_into_irreps(
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
 
-        Ys += [B @ X @ B.T.conj()]
+        Ys += [B.conj() @ X @ B.T]  # X B^T = B^T Y
     return Ys
 
 
-- 
2.43.0


From 1fe1b17e72112b9f458bd90e731720d3ce353b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 12/49] fix: reduced_tensor_product_basis rejected a formula
 giving twice the same irreps

---
 lie_nn/_src/reduced_tensor_product.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..fe0b29d 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -89,6 +89,14 @@ def _to_reducedrep(irreps) -> ReducedRep:
     return irreps
 
 
+def _same_reducedrep(rep1: ReducedRep, rep2: ReducedRep) -> bool:
+    if tuple(rep1.irreps) != tuple(rep2.irreps):
+        return False
+    if rep1.Q is None or rep2.Q is None:
+        return rep1.Q is rep2.Q
+    return np.array_equal(rep1.Q, rep2.Q)
+
+
 def reduced_tensor_product_basis(
     formula_or_irreps_list: Union[str, List[ReducedRep]],
     *,
@@ -136,7 +144,11 @@ def reduced_tensor_product_basis(
     for _sign, p in perm_repr:
         f = "".join(f0[i] for i in p)
         for i, j in zip(f0, f):
-            if i in irreps_dict and j in irreps_dict and irreps_dict[i] != irreps_dict[j]:
+            if (
+                i in irreps_dict
+                and j in irreps_dict
+                and not _same_reducedrep(irreps_dict[i], irreps_dict[j])
+            ):
                 raise RuntimeError(f"irreps of {i} and {j} should be the same")
             if i in irreps_dict:
                 irreps_dict[j] = irreps_dict[i]
-- 
2.43.0


From c4c790c64e8d9a737868d33d34c0033cbc5e60d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 13/49] fix: reduced_tensor_product_basis of a space reduced to
 {0}

---
 lie_nn/_src/reduced_tensor_product.py | 12 +++++++++---
 lie_nn/_src/util.py                   |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index fe0b29d..c9fd0ae 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -355,7 +355,8 @@ def constrain_rotation_basis_by_permutation_basis(
     """
     assert all(x.shape[:-2] == permutation_basis.shape[1:] for x in rotation_basis.list)
 
-    perm = np.reshape(permutation_basis, (permutation_basis.shape[0], -1))  # (free, dim)
+    shape = permutation_basis.shape[1:]
+    perm = np.reshape(permutation_basis, (permutation_basis.shape[0], prod(shape)))  # (free, dim)
 
     new_irreps: List[Tuple[int, TabulatedIrrep]] = []
     new_list: List[np.ndarray] = []
@@ -363,7 +364,7 @@ def constrain_rotation_basis_by_permutation_basis(
     for rotation_basis_mul_ir, rot_basis in zip(rotation_basis.irreps, rotation_basis.list):
         mul, ir = rotation_basis_mul_ir.mul, rotation_basis_mul_ir.rep
         R = rot_basis[..., 0]
-        R = np.reshape(R, (-1, mul)).T  # (mul, dim)
+        R = np.reshape(R, (prod(shape), mul)).T  # (mul, dim)
 
         perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]
         P, _ = basis_intersection(R, perm_opt, epsilon=epsilon, round_fn=round_fn)
@@ -372,6 +373,11 @@ def constrain_rotation_basis_by_permutation_basis(
             new_irreps.append((P.shape[0], ir))
             new_list.append(np.einsum("vu,...ui->...vi", P, rot_basis))
 
+    if len(new_irreps) == 0:  # the space is {0}
+        ir = rotation_basis.irreps[0].rep
+        new_irreps.append((0, ir))
+        new_list.append(np.zeros(shape + (0, ir.dim)))
+
     return IrrepsArray(irreps=tuple(MulIrrep(mul, ir) for mul, ir in new_irreps), list=new_list)
 
 
@@ -405,7 +411,7 @@ def reduce_subgroup_permutation(
         return len(base)
     permutation_basis = reduce_permutation_matrix(base, sub_dims)
     return np.reshape(
-        permutation_basis, (-1,) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims)))
+        permutation_basis, (len(base),) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims)))
     )
 
 
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index ea4f71c..b37b608 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -416,8 +416,9 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    dim = prod(basis1.shape[1:])
+    basis1 = np.reshape(basis1, (basis1.shape[0], dim))
+    basis2 = np.reshape(basis2, (basis2.shape[0], dim))
 
     p = np.concatenate(
         [
-- 
2.43.0


From 530701d24a49bb38f127d2957805fdd6342a5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 14/49] fix: round_to_sqrt_rational moved small numbers by up
 to 1e-4

Symmetric tensor products of a representation in a generic basis had
spurious vectors.
---
 lie_nn/_src/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index b37b608..1483ef9 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -84,7 +84,9 @@ def _round_to_sqrt_rational(x, max_denominator):
     sign = np.sign(x)
     n, d = as_approx_integer_ratio(x**2)
     n, d = limit_denominator(n, d, max_denominator**2 + 1)
-    return sign * np.sqrt(n / d)
+    y = sign * np.sqrt(n / d)
+    # rationals of bounded denominator are sparse around zero, keep x when none is close
+    return np.where(np.abs(y - x) < 1e-7, y, x)
 
 
 def _round_to_sqrt_rational_sympy(x, max_denominator):
-- 
2.43.0


From 1ed8a26b0c21d2f6968046a411153e80b1e404be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 15/49] fix: labels of SU(N), SO(N) and Sp(N) with surrounding
 spaces were not parsed

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 lie_nn/_src/irreps/sun.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 524f8ed..4658c16 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -30,7 +30,7 @@ class SON(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SON":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SON", rep2: "SON") -> List["SON"]:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 6c4f000..3ca4897 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -26,7 +26,7 @@ class SPN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SPN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SPN", rep2: "SPN") -> List["SPN"]:
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cccb53f..f71df0c 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -413,7 +413,7 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From f96bb322a58456b39fcd31d08a7f9b77255e4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 16/49] fix: tensor_product of sums and multiples of irreps
 that are not tabulated

---
 lie_nn/_src/tensor_product.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index b8bd592..2056d19 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -8,8 +8,7 @@ from .reduced_rep import MulIrrep, ReducedRep
 from .rep import GenericRep, Rep
 
 
-@dispatch(Rep, Rep)
-def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+def _generic_tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
     X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
@@ -24,6 +23,15 @@ def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
     )
 
 
+def _is_tabulated(*mulirreps: MulIrrep) -> bool:
+    return all(isinstance(mul_ir.rep, TabulatedIrrep) for mul_ir in mulirreps)
+
+
+@dispatch(Rep, Rep)
+def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+    return _generic_tensor_product(rep1, rep2)
+
+
 @dispatch(TabulatedIrrep, TabulatedIrrep)
 def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep:  # noqa: F811
     assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra
@@ -41,7 +49,10 @@ def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep
 
 
 @dispatch(MulIrrep, MulIrrep)
-def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
+def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> Rep:  # noqa: F811
+    if not _is_tabulated(mulirrep1, mulirrep2):  # no table to decompose the product
+        return _generic_tensor_product(mulirrep1, mulirrep2)
+
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
@@ -67,7 +78,10 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # n
 
 
 @dispatch(ReducedRep, ReducedRep)
-def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> ReducedRep:  # noqa: F811
+def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> Rep:  # noqa: F811
+    if not _is_tabulated(*rep1.irreps, *rep2.irreps):  # no table to decompose the product
+        return _generic_tensor_product(rep1, rep2)
+
     q1 = np.eye(rep1.dim) if rep1.Q is None else rep1.Q
     q2 = np.eye(rep2.dim) if rep2.Q is None else rep2.Q
     Q_tp = np.einsum("ij,kl->ikjl", q1, q2).reshape(rep1.dim * rep2.dim, rep1.dim * rep2.dim)
-- 
2.43.0


From 02d1ae27b737939c9f8ac7432f241280795592ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 17/49] fix: the product of irreps of SU(2), SU(3) or SU(4)
 lost their class, hence their trivial irrep

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index f71df0c..accfcc7 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -417,7 +417,7 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-        return map(SUN, sorted(set(mul_rep(rep1.S, rep2.S))))
+        return map(type(rep1), sorted(set(mul_rep(rep1.S, rep2.S))))
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SUN", rep2: "SUN", rep3: "SUN") -> np.ndarray:
-- 
2.43.0


From 344c1927bd5ebc00b5e4969296053cc7d512a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 18/49] fix: direct sums of more than a thousand terms exceeded
 the recursion limit

---
 lie_nn/_src/util.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1483ef9..012b276 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -196,18 +196,18 @@ def direct_sum(A, *BCD):
     """
     if len(BCD) == 0:
         return A
-    B = direct_sum(*BCD)
-
-    shape = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
-    A = np.broadcast_to(A, shape + A.shape[-2:])
-    B = np.broadcast_to(B, shape + B.shape[-2:])
-
-    m, n = A.shape[-2:]
-    p, q = B.shape[-2:]
-
-    output = np.zeros(shape=shape + (m + p, n + q), dtype=np.complex128)
-    output[..., :m, :n] = A
-    output[..., m:, n:] = B
+    matrices = (A,) + BCD
+
+    shape = np.broadcast_shapes(*[M.shape[:-2] for M in matrices])
+    rows = sum(M.shape[-2] for M in matrices)
+    cols = sum(M.shape[-1] for M in matrices)
+
+    output = np.zeros(shape=shape + (rows, cols), dtype=np.complex128)
+    i, j = 0, 0
+    for M in matrices:
+        m, n = M.shape[-2:]
+        output[..., i : i + m, j : j + n] = M
+        i, j = i + m, j + n
     return output
 
 
-- 
2.43.0


From bfb47ef0fa5d9bc6435960b6128c532435d2cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 19/49] fix: ReducedRep.from_irreps accepted terms with
 different numbers of discrete generators

---
 lie_nn/_src/reduced_rep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 9a458b0..69732fc 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -95,7 +95,11 @@ class ReducedRep(Rep):
             if A is None:
                 A = mul_ir.algebra()
             else:
-                assert np.allclose(A, mul_ir.algebra())
+                assert np.allclose(A, mul_ir.algebra())  # same lie algebra
+                # same discrete dimension
+                assert irreps[0].discrete_generators().shape[0] == (
+                    mul_ir.discrete_generators().shape[0]
+                )
 
         dim = sum(mul_ir.dim for mul_ir in irreps)
         assert Q is None or Q.shape == (dim, dim)
-- 
2.43.0


From a8fb8024d193a36e26629172d9fc3e58c37873de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 20/49] fix: trivial irrep of a product of groups

---
 lie_nn/_src/group_product.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/group_product.py b/lie_nn/_src/group_product.py
index e5ad37e..0d8f0da 100644
--- a/lie_nn/_src/group_product.py
+++ b/lie_nn/_src/group_product.py
@@ -92,6 +92,9 @@ class TabulatedIrrepProduct(TabulatedIrrep):
     def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:
         raise NotImplementedError
 
+    def create_trivial(rep: "TabulatedIrrepProduct") -> "TabulatedIrrepProduct":
+        return TabulatedIrrepProduct(rep.rep1.create_trivial(), rep.rep2.create_trivial())
+
     def continuous_generators(rep: "TabulatedIrrepProduct") -> np.ndarray:
         X1 = rep.rep1.X
         X2 = rep.rep2.X
-- 
2.43.0


From 38e37db78cdeeabe281d682cb8695bdfde18c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:33 +0000
Subject: [PATCH 21/49] fix: make_explicitly_real refused real representations
 because of the branch cut of the square root

---
 lie_nn/_src/real.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 4cda7d2..157e699 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -14,7 +14,14 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
+    S = S[0]
+    # The phase of S is arbitrary: choose it such that no eigenvalue is close to the negative real
+    # axis, where the square root is discontinuous (hence not a function of S).
+    angles = np.sort(np.angle(np.linalg.eigvals(S)))
+    gaps = np.append(angles[1:], angles[0] + 2 * np.pi) - angles
+    middle = angles[np.argmax(gaps)] + np.max(gaps) / 2
+    S = S * np.exp(1j * (np.pi - middle))
+    rep = lie.change_basis(rep, la.sqrtm(S))
     if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From e7e5a01c146de923c79a44662d0f6ae9f3896882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 22/49] fix: is_real of a reducible representation that shares
 only some irreps with its conjugate

---
 lie_nn/_src/real.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 157e699..60267ef 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -5,8 +5,11 @@ import lie_nn as lie
 
 
 def is_real(rep: lie.Rep) -> bool:
+    # A reducible representation can share some irreps with its conjugate without being equivalent
+    # to it: by Schur's lemma and Cauchy-Schwarz the number of intertwiners is maximal iff it is.
     S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
-    return S.shape[0] > 0
+    C = lie.infer_change_of_basis(rep, rep)
+    return S.shape[0] == C.shape[0]
 
 
 def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
-- 
2.43.0


From 48eceedd3de0e667f3c4b5b0b434870be28b0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 23/49] fix: antisymmetry of a single index leaves no tensor

reduced_tensor_product_basis("i=-i", ...) returned the identity although the
only tensor with this symmetry is zero.
---
 lie_nn/_src/reduced_tensor_product.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index c9fd0ae..9cf337f 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -229,6 +229,11 @@ def _reduced_tensor_product_basis(
         if len(bases) == 1:
             f, b = bases[0]
             assert f == frozenset(range(len(irreps_tuple)))
+            if len(subrepr_permutation(f, perm_repr)) > 1:  # ``i=-i``
+                p = reduce_subgroup_permutation(f, perm_repr, dims)
+                b = constrain_rotation_basis_by_permutation_basis(
+                    b.sorted().simplify(), p, epsilon=epsilon, round_fn=round_to_sqrt_rational
+                )
             return b.sorted().simplify()
 
         if len(bases) == 2:
-- 
2.43.0


From 6624261dc7ec0a57fb76a3c2d433def119ab23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 24/49] fix: gram_schmidt keeps exact vectors while
 orthogonalizing

With a rounding function the vectors were rounded (errors up to 1e-7) before
the next ones were projected. When a residual is small its division amplifies
this error above epsilon, and spurious vectors appear: the symmetric power 5
of a sum of three characters of Z2 in a complex basis got 24 tensors
instead of 21.
---
 lie_nn/_src/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 012b276..afc6806 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -227,9 +227,9 @@ def gram_schmidt(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.nda
             v -= np.dot(np.conj(w), v) * w
         norm = np.linalg.norm(v)
         if norm > epsilon:
-            v = round_fn(v / norm)
-            Q += [v]
-    return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]))
+            Q += [v / norm]
+    # the vectors are rounded at the end, rounding errors would be amplified by the next divisions
+    return np.stack([round_fn(v) for v in Q]) if len(Q) > 0 else np.empty((0, A.shape[1]))
 
 
 def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="Q") -> np.ndarray:
-- 
2.43.0


From 7f140b603b0facdfd603fd43aa0fba04d3ee2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 25/49] fix: limit_denominator of a fraction whose denominator
 is the bound

It returned 0/1 instead of the fraction itself.
---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index afc6806..7c2a3d0 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From f643b4791446fc648ffe51fb82d1b3adbbd532c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 26/49] fix: infer_algebra_from_generators of generators
 independent over the reals only

The complex pseudo-inverse does not give the real structure constants when
the generators are dependent over the complex numbers, for instance those of
the irrep (2, 0) of SO(1, 3).
---
 lie_nn/_src/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 7c2a3d0..6c0553b 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -473,13 +473,18 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
+
+    # the structure constants are real: real and imaginary parts are independent equations
+    def coordinates(x):
+        return np.concatenate([np.real(x), np.imag(x)], axis=-1)
+
+    pinv = np.linalg.pinv(coordinates(X.reshape((n, X.shape[1] * X.shape[2]))))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
         for j in range(n):
             xij = commutator(X[i], X[j])
-            algebra[i, j] = xij.reshape(-1) @ pinv
+            algebra[i, j] = coordinates(xij.reshape(-1)) @ pinv
 
     algebra = round_fn(algebra)
 
-- 
2.43.0


From 9354d8717545a05d0c0828220f1137d7c7755987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 27/49] fix: check_algebra_vs_generators(assert_=True) accepted
 NaN

assert_allclose takes NaN for equal to NaN: a representation of U(1) with a
NaN generator passed Rep.check_algebra_vs_generators.
---
 lie_nn/_src/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 6c0553b..035747f 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -448,7 +448,9 @@ def check_algebra_vs_generators(
     left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
-        np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
+        np.testing.assert_allclose(
+            left_side, right_side, rtol=rtol, atol=atol, equal_nan=False
+        )
     return np.allclose(left_side, right_side, rtol=rtol, atol=atol)
 
 
-- 
2.43.0


From eb3f5b6b8b5a8f46835cd893585fd7373c13f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 28/49] fix: block_diagonal discarded the imaginary part of
 complex matrices

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 035747f..354e529 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -164,7 +164,7 @@ def vmap(
 def block_diagonal(As: List[np.array]):
     size1 = sum([As[i].shape[1] for i in range(len(As))])
     size2 = sum([As[i].shape[2] for i in range(len(As))])
-    R = np.zeros((As[0].shape[0], size1, size2))
+    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(np.float64, *As))
     shape_x = 0
     shape_y = 0
     for i in range(len(As)):
-- 
2.43.0


From 028fe379c20dd6bab6af7fa96003507d8f965338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 29/49] fix: unique_with_tol of no elements

---
 lie_nn/_src/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 354e529..3279722 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -528,7 +528,7 @@ def unique_with_tol(a: np.array, *, tol: float):
     """
     assert a.ndim >= 1
     shape = a.shape
-    a = a.reshape(len(a), -1)
+    a = a.reshape(len(a), prod(shape[1:]))
 
     distances = np.linalg.norm(a[:, None] - a[None, :], axis=-1)
     inverses = -1 * np.ones(len(a), dtype=int)
@@ -547,7 +547,7 @@ def unique_with_tol(a: np.array, *, tol: float):
 
         index += 1
 
-    centers = np.zeros((np.max(inverses) + 1, a.shape[1]), dtype=a.dtype)
+    centers = np.zeros((index, a.shape[1]), dtype=a.dtype)
     np.add.at(centers, inverses, a)
     centers /= np.bincount(inverses)[:, None]
 
-- 
2.43.0


From 520b11853128263a3a6e6464bdb22f3535bf31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 30/49] fix: a refused triplet changed the print options of
 numpy

---
 lie_nn/_src/rep.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index 7f79612..3e91ea5 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -173,16 +173,15 @@ def check_representation_triplet(rep1: Rep, rep2: Rep, rep3: Rep, rtol=1e-10, at
             if not np.allclose(
                 left_side[solution][i], right_side[solution][i], rtol=rtol, atol=atol
             ):
-                np.set_printoptions(precision=3, suppress=True)
-                print(rep1, rep2, rep3)
-                print('Left side: einsum("zijk,dlk->zdijl", cg, X3)')
-                print(left_side[solution][i])
-                print(
-                    "Right side: "
-                    'einsum("dil,zijk->zdljk", X1, cg) + einsum("djl,zijk->zdilk", X2, cg)'
-                )
-                print(right_side[solution][i])
-                np.set_printoptions(precision=8, suppress=False)
+                with np.printoptions(precision=3, suppress=True):
+                    print(rep1, rep2, rep3)
+                    print('Left side: einsum("zijk,dlk->zdijl", cg, X3)')
+                    print(left_side[solution][i])
+                    print(
+                        "Right side: "
+                        'einsum("dil,zijk->zdljk", X1, cg) + einsum("djl,zijk->zdilk", X2, cg)'
+                    )
+                    print(right_side[solution][i])
                 raise AssertionError(
                     f"Solution {solution}/{cg.shape[0]} for {rep1} * {rep2} = {rep3} "
                     "is not correct."
-- 
2.43.0


From c1a40bdc14775a7ec2521a3b52a4284f26d358d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 31/49] fix: unique_with_tol of integers

---
 lie_nn/_src/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 3279722..eb7880f 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -547,7 +547,8 @@ def unique_with_tol(a: np.array, *, tol: float):
 
         index += 1
 
-    centers = np.zeros((index, a.shape[1]), dtype=a.dtype)
+    dtype = a.dtype if np.issubdtype(a.dtype, np.inexact) else np.float64  # averages of integers
+    centers = np.zeros((index, a.shape[1]), dtype=dtype)
     np.add.at(centers, inverses, a)
     centers /= np.bincount(inverses)[:, None]
 
-- 
2.43.0


From 9e5151944056ac018330ac4e40af444bcc5c0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 32/49] fix: reduced_tensor_product_basis of nine indices or
 more depended on the iteration order of frozensets

---
 lie_nn/_src/reduced_tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 9cf337f..13fce6b 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -266,7 +266,7 @@ def _reduced_tensor_product_basis(
         i, j, f = best
         del bases[j]
         del bases[i]
-        sub_irreps = tuple(irreps_tuple[i] for i in f)
+        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))
         sub_perm_repr = subrepr_permutation(f, perm_repr)
         ab = _reduced_tensor_product_basis(sub_irreps, sub_perm_repr, epsilon)
         ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))
@@ -406,7 +406,7 @@ def reduce_subgroup_permutation(
     return_dim: bool = False,
 ) -> np.ndarray:
     sub_perm_repr = subrepr_permutation(sub_f0, perm_repr)
-    sub_dims = tuple(dims[i] for i in sub_f0)
+    sub_dims = tuple(dims[i] for i in sorted(sub_f0))
     if len(sub_perm_repr) == 1:
         if return_dim:
             return prod(sub_dims)
-- 
2.43.0


From 53cdc4bd152dfa9350784c06f58efb4876b8e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 33/49] fix: SU2_, SU3 and SU4 accepted weights that are no
 label

---
 lie_nn/_src/irreps/sun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index accfcc7..53fce76 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -453,6 +453,7 @@ class SUN(TabulatedIrrep):
 @dataclass(frozen=True)
 class SU2_(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 2
 
     @classmethod
@@ -464,6 +465,7 @@ class SU2_(SUN):
 @dataclass(frozen=True)
 class SU3(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 3
 
     @classmethod
@@ -476,6 +478,7 @@ class SU3(SUN):
 @dataclass(frozen=True)
 class SU4(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 4
 
     @classmethod
-- 
2.43.0


From 96b612d3b7de28523ee3a7a85a9fbd69f05851af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 34/49] fix: representations of groups of different dimensions
 were combined when their structure constants broadcast

---
 lie_nn/_src/direct_sum.py            | 1 +
 lie_nn/_src/infer_change_of_basis.py | 1 +
 lie_nn/_src/reduced_rep.py           | 1 +
 lie_nn/_src/rep.py                   | 1 +
 lie_nn/_src/tensor_product.py        | 3 +++
 5 files changed, 7 insertions(+)

diff --git a/lie_nn/_src/direct_sum.py b/lie_nn/_src/direct_sum.py
index 02c3b34..fab1555 100644
--- a/lie_nn/_src/direct_sum.py
+++ b/lie_nn/_src/direct_sum.py
@@ -7,6 +7,7 @@ from .util import direct_sum as _direct_sum
 
 @dispatch(Rep, Rep)
 def direct_sum(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension
     return GenericRep(
diff --git a/lie_nn/_src/infer_change_of_basis.py b/lie_nn/_src/infer_change_of_basis.py
index 21aecab..ff5d550 100644
--- a/lie_nn/_src/infer_change_of_basis.py
+++ b/lie_nn/_src/infer_change_of_basis.py
@@ -26,6 +26,7 @@ def infer_change_of_basis(rep1: Rep, rep2: Rep, round_fn=lambda x: x) -> np.ndar
         The change of basis matrix ``Q``.
     """
     # Check the group structure
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.algebra(), rep2.algebra())
 
     Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])
diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 69732fc..4b1f5bd 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -95,6 +95,7 @@ class ReducedRep(Rep):
             if A is None:
                 A = mul_ir.algebra()
             else:
+                assert A.shape == mul_ir.algebra().shape
                 assert np.allclose(A, mul_ir.algebra())  # same lie algebra
                 # same discrete dimension
                 assert irreps[0].discrete_generators().shape[0] == (
diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index 3e91ea5..ea0e4f2 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -136,6 +136,7 @@ class GenericRep(Rep):
 
 
 def check_representation_triplet(rep1: Rep, rep2: Rep, rep3: Rep, rtol=1e-10, atol=1e-10):
+    assert rep1.lie_dim == rep2.lie_dim == rep3.lie_dim
     assert np.allclose(rep1.algebra(), rep2.algebra(), rtol=rtol, atol=atol)
     assert np.allclose(rep1.algebra(), rep3.algebra(), rtol=rtol, atol=atol)
 
diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 2056d19..4d28198 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -9,6 +9,7 @@ from .rep import GenericRep, Rep
 
 
 def _generic_tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
     X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
@@ -34,6 +35,7 @@ def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
 
 @dispatch(TabulatedIrrep, TabulatedIrrep)
 def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep:  # noqa: F811
+    assert irrep1.lie_dim == irrep2.lie_dim
     assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra
     CG_list = []
     irreps_list = []
@@ -53,6 +55,7 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> Rep:  # noqa: F8
     if not _is_tabulated(mulirrep1, mulirrep2):  # no table to decompose the product
         return _generic_tensor_product(mulirrep1, mulirrep2)
 
+    assert mulirrep1.lie_dim == mulirrep2.lie_dim
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
-- 
2.43.0


From c827a5603df0d1442ae879db86fa0822ceaa8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 35/49] fix: tensor_power of a negative exponent never ended

---
 lie_nn/_src/tensor_product.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 4d28198..9f199cc 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -146,6 +146,7 @@ def tensor_product(irrep1: TabulatedIrrep, rep2: ReducedRep) -> ReducedRep:  # n
 
 # @dispatch(Rep, int)
 def tensor_power(rep: Rep, n: int) -> Rep:
+    assert n >= 0
     result = rep.create_trivial()
 
     while True:
-- 
2.43.0


From ee5cabbf1a62cdb9edabbf9306fbeb45e9f2befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 36/49] fix: tensor products dropped a change of basis close to
 the identity or in small units

---
 lie_nn/_src/tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 9f199cc..2ddbf86 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -107,9 +107,9 @@ def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> Rep:  # noqa: F811
     Q = Q.reshape(rep1.dim * rep2.dim, rep1.dim * rep2.dim)
     Q = Q_tp @ Q
 
-    if np.allclose(Q.imag, 0):
+    if np.linalg.norm(Q.imag) <= 1e-12 * np.linalg.norm(Q):
         Q = Q.real
-    if np.allclose(Q, np.eye(Q.shape[0])):
+    if np.allclose(Q, np.eye(Q.shape[0]), rtol=0.0, atol=1e-12):
         Q = None
     return ReducedRep(A=rep1.A, irreps=tuple(mulir_list), Q=Q)
 
-- 
2.43.0


From ff3c4e6496ce87e819484ea597dfd93b2ea2a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 37/49] fix: trivial representations found by reduction or in
 other units were not reported trivial

---
 lie_nn/_src/rep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index ea0e4f2..315ea11 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -77,8 +77,8 @@ class Rep:
     def is_trivial(self) -> bool:
         return (
             self.dim == 1
-            and np.all(self.continuous_generators() == 0.0)
-            and np.all(self.discrete_generators() == 1.0)
+            and np.allclose(self.continuous_generators(), 0.0)
+            and np.allclose(self.discrete_generators(), 1.0)
         )
 
     def check_algebra_vs_generators(rep: "Rep", rtol=1e-10, atol=1e-10):
-- 
2.43.0


From 8c6077f16a9982e9de103afe188324b3f02a748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 38/49] fix: vmap of no rows put a negative out_axes at the
 wrong place

---
 lie_nn/_src/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index eb7880f..1a4e5e5 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -126,7 +126,8 @@ def vmap(
 ):
     if out_shape is not None:
         out_shape = list(out_shape)
-        out_shape.insert(out_axes, 0)
+        # a negative axis is an axis of the result, which has one more than the outputs
+        out_shape.insert(out_axes if out_axes >= 0 else len(out_shape) + 1 + out_axes, 0)
 
     def f(*args):
         in_axes_ = in_axes
-- 
2.43.0


From 461bb18556b98f8e2978128caa739f4557a8ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 39/49] fix: solvers failed on representations of dimension
 zero (absent irreps)

---
 lie_nn/_src/clebsch_gordan.py         | 2 +-
 lie_nn/_src/reduced_tensor_product.py | 2 +-
 lie_nn/_src/util.py                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/clebsch_gordan.py b/lie_nn/_src/clebsch_gordan.py
index 4879b0b..55e580a 100644
--- a/lie_nn/_src/clebsch_gordan.py
+++ b/lie_nn/_src/clebsch_gordan.py
@@ -22,7 +22,7 @@ def clebsch_gordan(rep1: Rep, rep2: Rep, rep3: Rep, *, round_fn=lambda x: x) ->
     """
     tp = tensor_product(rep1, rep2)
     cg = infer_change_of_basis(tp, rep3, round_fn=round_fn)
-    cg = cg.reshape((-1, rep3.dim, rep1.dim, rep2.dim))
+    cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))
     cg = np.moveaxis(cg, 1, 3)
     return cg
 
diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 13fce6b..5a59440 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -28,7 +28,7 @@ class IrrepsArray:
 
     @property
     def array(self):
-        return np.concatenate([np.reshape(x, x.shape[:-2] + (-1,)) for x in self.list], axis=-1)
+        return np.concatenate([np.reshape(x, x.shape[:-2] + (x.shape[-2] * x.shape[-1],)) for x in self.list], axis=-1)
 
     def __init__(self, *, irreps, list):
         assert len(irreps) == len(list)
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1a4e5e5..ead108e 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -386,7 +386,7 @@ def infer_change_of_basis(
 
     A = np.concatenate(As, axis=0)  # (n * d1 * d2, d1 * d2)
     S = nullspace(A, epsilon=epsilon, round_fn=round_fn)  # (m, d1 * d2)
-    S = S.reshape(-1, d1, d2)
+    S = S.reshape(S.shape[0], d1, d2)
 
     # assert np.allclose(X1 @ S[0], S[0] @ X2)
     return S
-- 
2.43.0


From d2c515c819e5e2f082bdbd836d5daea16aae2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:06 +0000
Subject: [PATCH 40/49] fix: text following a label was ignored when it was
 read

---
 lie_nn/_src/irreps/sl2c.py | 2 +-
 lie_nn/_src/irreps/so13.py | 2 +-
 lie_nn/_src/irreps/son.py  | 2 +-
 lie_nn/_src/irreps/spn.py  | 2 +-
 lie_nn/_src/irreps/sun.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 4220a6e..2050f8b 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -23,7 +23,7 @@ class SL2C(TabulatedIrrep):
 
     @classmethod
     def from_string(cls, s: str) -> "SL2C":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 9b32c92..b715c1c 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -27,7 +27,7 @@ class SO13(
 
     @classmethod
     def from_string(cls, s: str) -> "SO13":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 4658c16..2f14704 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -30,7 +30,7 @@ class SON(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SON":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SON", rep2: "SON") -> List["SON"]:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 3ca4897..d803679 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -26,7 +26,7 @@ class SPN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SPN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SPN", rep2: "SPN") -> List["SPN"]:
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 53fce76..ab2d0cf 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -413,7 +413,7 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From 6bf7e9f0abe417c6e5e556714ceb4b8781e30501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 41/49] fix: products and coefficients of irreps of SU(N) with
 different N were not refused

---
 lie_nn/_src/irreps/sun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index ab2d0cf..0a4a8e2 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -417,11 +417,14 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
+        assert isinstance(rep2, SUN)
+        assert len(rep1.S) == len(rep2.S)
         return map(type(rep1), sorted(set(mul_rep(rep1.S, rep2.S))))
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SUN", rep2: "SUN", rep3: "SUN") -> np.ndarray:
         # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
+        assert len(rep1.S) == len(rep2.S) == len(rep3.S)
         return clebsch_gordan_matrix(rep1.S, rep2.S, rep3.S)
 
     def __lt__(rep1: "SUN", rep2: "SUN") -> bool:
-- 
2.43.0


From ac85504a33d5c24869c3ada35e8e32f95ed7941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 42/49] fix: comparing an irrep of SU(N), SO(N) or Sp(N) with
 something else raised an error

---
 lie_nn/_src/irreps/son.py | 2 ++
 lie_nn/_src/irreps/spn.py | 2 ++
 lie_nn/_src/irreps/sun.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 2f14704..dba8797 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -45,6 +45,8 @@ class SON(TabulatedIrrep):
         return rep1.S < rep2.S
 
     def __eq__(rep1: "SON", rep2: "SON") -> bool:
+        if not isinstance(rep2, SON):
+            return NotImplemented
         return rep1.S == rep2.S
 
     @property
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index d803679..406a9b2 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -41,6 +41,8 @@ class SPN(TabulatedIrrep):
         return rep1.S < rep2.S
 
     def __eq__(rep1: "SPN", rep2: "SPN") -> bool:
+        if not isinstance(rep2, SPN):
+            return NotImplemented
         return rep1.S == rep2.S
 
     @property
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 0a4a8e2..2ccbc70 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -431,6 +431,8 @@ class SUN(TabulatedIrrep):
         return rep1.S < rep2.S
 
     def __eq__(rep1: "SUN", rep2: "SUN") -> bool:
+        if not isinstance(rep2, SUN):
+            return NotImplemented
         return rep1.S == rep2.S
 
     @property
-- 
2.43.0


From 897e82700b7cb11f66b3ddacf5a0bbef4d652f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 43/49] fix: products of SL2C with SO13 irreps were not refused

---
 lie_nn/_src/irreps/sl2c.py | 1 +
 lie_nn/_src/irreps/so13.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 2050f8b..b8d6b26 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -28,6 +28,7 @@ class SL2C(TabulatedIrrep):
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
     def __mul__(rep1: "SL2C", rep2: "SL2C") -> Iterator["SL2C"]:
+        assert isinstance(rep2, SL2C)
         for l in range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 2):
             for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):
                 yield SL2C(l=l, k=k)
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index b715c1c..a208928 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -32,6 +32,7 @@ class SO13(
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
     def __mul__(rep1: "SO13", rep2: "SO13") -> Iterator["SO13"]:
+        assert isinstance(rep2, SO13)
         for rep in SL2C(l=rep1.l, k=rep1.k) * SL2C(l=rep2.l, k=rep2.k):
             yield SO13(l=rep.l, k=rep.k)
 
-- 
2.43.0


From 7122c624dd0e4ba7c710f0b26579148673e3880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 44/49] fix: coefficients of irreps of different classes were
 taken from the tables of the first one

---
 lie_nn/_src/clebsch_gordan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/clebsch_gordan.py b/lie_nn/_src/clebsch_gordan.py
index 55e580a..30d3d65 100644
--- a/lie_nn/_src/clebsch_gordan.py
+++ b/lie_nn/_src/clebsch_gordan.py
@@ -31,4 +31,7 @@ def clebsch_gordan(rep1: Rep, rep2: Rep, rep3: Rep, *, round_fn=lambda x: x) ->
 def clebsch_gordan(  # noqa: F811
     rep1: TabulatedIrrep, rep2: TabulatedIrrep, rep3: TabulatedIrrep, *, round_fn=lambda x: x
 ) -> np.ndarray:
+    if not all(isinstance(r, type(rep1)) or isinstance(rep1, type(r)) for r in (rep2, rep3)):
+        # the coefficients are tabulated for irreps of the same class only
+        return clebsch_gordan.dispatch(Rep, Rep, Rep)(rep1, rep2, rep3, round_fn=round_fn)
     return rep1.clebsch_gordan(rep1, rep2, rep3)
-- 
2.43.0


From 008180ac3783e0679058204398705a28550452f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 45/49] fix: the JAX matrix power and exponential map fail on
 complex or integer discrete generators

---
 lie_nn/_src/jax_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..e914082 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,7 +13,7 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
-    init_carry = n, F, jnp.eye(F.shape[0])
+    init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
     def body(carry, _):
         # One step of the iteration
@@ -24,7 +24,7 @@ def matrix_power(F, n):
 
         # No more computation necessary if n = 0
         # Is there a better way to early break rather than just returning something empty?
-        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape), z)
+        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape, z.dtype), z)
 
         return (new_n, new_z, new_result), None
 
-- 
2.43.0


From e1a0f72599b3ad0150945b220990403b8eec1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 46/49] fix: the exponential map accepts a wrong number of
 parameters

---
 lie_nn/_src/jax_utils.py | 6 +++---
 lie_nn/_src/rep.py       | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index e914082..dfd295b 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -43,9 +43,9 @@ def exp_map(
 ) -> jnp.ndarray:
     # return a matrix of shape ``(rep.dim, rep.dim)``
     discrete = jax.vmap(matrix_power)(rep.discrete_generators(), discrete_params)
-    output = jax.scipy.linalg.expm(
-        jnp.einsum("a,aij->ij", continuous_params, rep.continuous_generators())
-    )
+    X = rep.continuous_generators()
+    assert len(continuous_params) == X.shape[0]
+    output = jax.scipy.linalg.expm(jnp.einsum("a,aij->ij", continuous_params, X))
     for x in reversed(discrete):
         output = x @ output
     return output
diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index 315ea11..5191005 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -64,9 +64,10 @@ class Rep:
         Returns:
             ``(dim, dim)`` array
         """
-        output = scipy.linalg.expm(
-            np.einsum("a,aij->ij", continuous_params, self.continuous_generators())
-        )
+        X = self.continuous_generators()
+        assert len(continuous_params) == X.shape[0]
+        assert len(discrete_params) == self.discrete_generators().shape[0]
+        output = scipy.linalg.expm(np.einsum("a,aij->ij", continuous_params, X))
         for k, h in reversed(list(zip(discrete_params, self.discrete_generators()))):
             output = np.linalg.matrix_power(h, k) @ output
         return output
-- 
2.43.0


From 39df53be65a936362720b07055b9dfb22452ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 47/49] fix: unsupported requests on irreps of SO(N) and Sp(N)
 return an exception instead of raising it

---
 lie_nn/_src/irreps/son.py | 10 +++++-----
 lie_nn/_src/irreps/spn.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index dba8797..5790f77 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -34,12 +34,12 @@ class SON(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SON", rep2: "SON") -> List["SON"]:
-        return NotImplementedError
+        raise NotImplementedError
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SON", rep2: "SON", rep3: "SON") -> np.ndarray:
         # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
-        return NotImplementedError
+        raise NotImplementedError
 
     def __lt__(rep1: "SON", rep2: "SON") -> bool:
         return rep1.S < rep2.S
@@ -62,10 +62,10 @@ class SON(TabulatedIrrep):
         return np.zeros((0, rep.dim, rep.dim))
 
     def continuous_generators(rep: "SON") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
     def algebra(rep: "SON") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
 
 def E(i, j, rank):
@@ -84,7 +84,7 @@ class SON_adjoint(lie.Rep):
         self.n = n
 
     def algebra(self) -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
     def continuous_generators(self) -> np.ndarray:
         if self.n % 2 == 0:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 406a9b2..2211b3c 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -30,12 +30,12 @@ class SPN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SPN", rep2: "SPN") -> List["SPN"]:
-        return NotImplementedError
+        raise NotImplementedError
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SPN", rep2: "SPN", rep3: "SPN") -> np.ndarray:
         # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
-        return NotImplementedError
+        raise NotImplementedError
 
     def __lt__(rep1: "SPN", rep2: "SPN") -> bool:
         return rep1.S < rep2.S
@@ -58,7 +58,7 @@ class SPN(TabulatedIrrep):
         return np.zeros((0, rep.dim, rep.dim))
 
     def continuous_generators(rep: "SPN") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
     def algebra(rep: "SPN") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
-- 
2.43.0


From b9ab4849b822f4772dc64f52d50f996ed9e5b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 48/49] fix: a negative index of a Gelfand-Tsetlin pattern
 gives the first one

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 2ccbc70..9dff01a 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -77,7 +77,7 @@ assert dim((3, 3, 1, 0)) == len(list(S_to_Ms((3, 3, 1, 0))))
 def index_to_M(S: WEIGHT, index: int) -> GT_PATTERN:
     """Given an index, return the corresponding GT-pattern."""
     _assert_valid_S(S)
-    assert index < dim(S)
+    assert 0 <= index < dim(S)
     if len(S) == 1:
         return (S,)
     for Snext in S_to_Ss(S):
-- 
2.43.0


From 487126a3feb00048681f4a618d888bfbd431b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:28 +0000
Subject: [PATCH 49/49] fix: coefficients of products of irreps whose factors
 are of different classes

---
 lie_nn/_src/group_product.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/group_product.py b/lie_nn/_src/group_product.py
index 0d8f0da..219c3f7 100644
--- a/lie_nn/_src/group_product.py
+++ b/lie_nn/_src/group_product.py
@@ -74,8 +74,10 @@ class TabulatedIrrepProduct(TabulatedIrrep):
         rep2: "TabulatedIrrepProduct",
         rep3: "TabulatedIrrepProduct",
     ) -> np.ndarray:
-        C1 = rep1.rep1.clebsch_gordan(rep1.rep1, rep2.rep1, rep3.rep1)  # [n_sol1, d1_1, d2_1, d3_1]
-        C2 = rep1.rep2.clebsch_gordan(rep1.rep2, rep2.rep2, rep3.rep2)  # [n_sol2, d1_2, d2_2, d3_2]
+        from .clebsch_gordan import clebsch_gordan
+
+        C1 = clebsch_gordan(rep1.rep1, rep2.rep1, rep3.rep1)  # [n_sol1, d1_1, d2_1, d3_1]
+        C2 = clebsch_gordan(rep1.rep2, rep2.rep2, rep3.rep2)  # [n_sol2, d1_2, d2_2, d3_2]
         C = np.einsum("aikm,bjln->abijklmn", C1, C2).reshape(
             len(C1) * len(C2), rep1.dim, rep2.dim, rep3.dim
         )
-- 
2.43.0

