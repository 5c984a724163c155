"""Gelfand-Tsetlin patterns and ladder operators of SU(N)."""
import importlib
import itertools
from collections import Counter

import numpy as np

from .. import ref
from ..engine import Space
from ..ref import close, expect

ASSUMPTIONS = ["labels are weakly decreasing tuples of non-negative integers"]


def mod(name):
    """a function of the module, None when it does not exist (under that name)"""
    return getattr(importlib.import_module("lie_nn._src.irreps.sun"), name, None)


def interlacing(S):
    """all tuples T with S_i >= T_i >= S_{i+1}, ascending"""
    return list(itertools.product(*[range(b, a + 1) for a, b in zip(S, S[1:])]))


def all_patterns(S):
    """ascending lexicographic list of all patterns"""
    if len(S) == 1:
        return [(S,)]
    return [(S,) + M for T in interlacing(S) for M in all_patterns(T)]


def weight(M):
    s = [sum(r) for r in M] + [0]
    return tuple(a - b for a, b in zip(s, s[1:]))


def patterns(ctx, S):
    S = tuple(S)
    Ms = all_patterns(S)
    d = ref.su_dim(S)
    assert d == len(Ms)
    f = mod("dim")
    if f:
        expect(f(S) == d, f"dim {S} = {f(S)} instead of {d}")
        expect(type(f(S)) is int, "dim is not an integer")
        ctx.step()
    f = mod("S_to_Ss")
    if f:
        got = [tuple(t) for t in f(S)]
        expect(got == (interlacing(S) if len(S) > 1 else []), f"next rows of {S}: {got}")
        ctx.step()
    f = mod("S_to_Ms")
    if f:
        got = list(f(S))
        expect(len(set(got)) == len(got) == d and set(got) == set(Ms), f"patterns of {S}: {len(got)}, {len(set(got))} different, for dimension {d}")
        expect(got == Ms, f"patterns of {S} are not in ascending order")
        ctx.step(d)
    to, fro = mod("index_to_M"), mod("M_to_index")
    for i, M in enumerate(Ms):
        if to:
            expect(to(S, i) == M, f"pattern {i} of {S} is {to(S, i)} instead of {M}")
        if fro:
            expect(fro(M) == i, f"number of {M} is {fro(M)} instead of {i}")
        ctx.step(2)
        ctx.state(M)
    pw, zw = mod("M_to_p_weight"), mod("M_to_z_weight")
    for M in Ms:
        w = weight(M)
        if pw:
            expect(tuple(pw(M)) == w, f"weight of {M}: {pw(M)}")
        if zw:
            z = tuple((b - a) / 2 for a, b in zip(w, w[1:]))
            expect(tuple(zw(M)) == z, f"z weight of {M}: {zw(M)}")
        ctx.step()
    if pw:
        c = Counter(tuple(pw(M))[::-1] for M in Ms)
        expect(c == ref.su_weights(S), f"weight multiplicities of {S}")


def validity(ctx, case):
    """is_valid_M on every triangular array with entries of a small range; single increments"""
    S, top = tuple(case[0]), case[1]
    f, add = mod("is_valid_M"), mod("M_add_at_lk")
    good = set(all_patterns(S))
    n = len(S)
    rows = [list(itertools.product(range(top + 1), repeat=k)) for k in range(n - 1, 0, -1)]
    for rest in itertools.product(*rows):
        M = (S,) + rest
        if f:
            expect(bool(f(M)) == (M in good), f"is_valid_M({M}) = {f(M)}")
            ctx.step()
    if not add:
        return
    for M in good:
        for l in range(1, n):
            for k in range(n - l):
                for inc in (1, -1):
                    N = tuple(tuple(x + inc * ((i, j) == (l, k)) for j, x in enumerate(r)) for i, r in enumerate(M))
                    got = add(M, l, k, inc)
                    expect(got == (N if N in good else None), f"{M} with {inc} at {l},{k}: {got}")
                    ctx.step()
    ctx.state(S)


def neighbours(ctx, S):
    """every pattern of a label with one entry of it changed to any value around the label's range"""
    S = tuple(S)
    f, add = mod("is_valid_M"), mod("M_add_at_lk")
    Ms = all_patterns(S)
    good = set(Ms)
    n = len(S)
    for M in Ms:
        if f:
            expect(f(M), f"is_valid_M({M}) = {f(M)}")
        for l in range(1, n):
            for k in range(n - l):
                for v in range(-1, S[0] + 2):
                    N = M[:l] + (M[l][:k] + (v,) + M[l][k + 1 :],) + M[l + 1 :]
                    if f:
                        expect(bool(f(N)) == (N in good), lambda: f"is_valid_M({N}) = {f(N)}")
                    if add and abs(v - M[l][k]) == 1:
                        got = add(M, l, k, v - M[l][k])
                        expect(got == (N if N in good else None), lambda: f"{M} with {v} at {l},{k}: {got}")
                    ctx.step()
    ctx.state(S)


def product(ctx, case):
    S1, S2 = map(tuple, case)
    f = mod("mul_rep")
    if not f:
        return
    got = Counter(tuple(s) for s in f(S1, S2))
    expect(got == ref.su_product(S1, S2), f"{S1} x {S2}: {dict(got)} instead of {dict(ref.su_product(S1, S2))}")
    ctx.state(S1, S2)
    ctx.step(sum(got.values()))


def comm(a, b):
    return a @ b - b @ a


def ladders(ctx, S):
    S = tuple(S)
    n = len(S)
    d = ref.su_dim(S)
    up, lo, jz = mod("upper_ladder_matrices"), mod("lower_ladder_matrices"), mod("Jz_matrices")
    if not up or not lo:
        return
    Ms = all_patterns(S)
    W = np.array([weight(M) for M in Ms])
    z = (W[:, 1:] - W[:, :-1]) / 2
    E, F = np.asarray(up(S)), np.asarray(lo(S))
    for m, name in ((E, "raising"), (F, "lowering")):
        expect(m.shape == (n - 1, d, d), f"{name} matrices of shape {m.shape}")
        expect(np.isrealobj(m) and np.all(np.isfinite(m)) and np.all(m >= 0), f"{name} coefficients are not real and non-negative")
    close(F, np.swapaxes(E, 1, 2), "lowering matrices are the transposes of the raising ones")
    ctx.step(2)
    if jz:
        J = np.asarray(jz(S))
        expect(J.shape == (n - 1, d, d), f"Jz of shape {J.shape}")
        for l in range(n - 1):
            close(J[l], np.diag(z[:, l]), f"Jz {l}")
            ctx.step()
    Z = [np.diag(z[:, l]) for l in range(n - 1)]
    for l in range(n - 1):
        alpha = np.zeros(n)
        alpha[l], alpha[l + 1] = -1, 1
        i, j = np.nonzero(np.abs(E[l]) > 1e-12)
        expect(np.all(W[i] == W[j] + alpha), f"raising operator {l} does not shift the weights by a simple root")
        for k in range(n - 1):
            close(comm(E[l], F[k]), 2 * Z[l] * (l == k), f"[J+ {l}, J- {k}]")
            a = 1.0 if l == k else (-0.5 if abs(l - k) == 1 else 0.0)
            close(comm(Z[l], E[k]), a * E[k], f"[Jz {l}, J+ {k}]")
            close(comm(Z[l], F[k]), -a * F[k], f"[Jz {l}, J- {k}]")
            if abs(l - k) == 1:
                close(comm(E[l], comm(E[l], E[k])), 0 * E[l], f"Serre relation {l} {k}")
                close(comm(F[l], comm(F[l], F[k])), 0 * E[l], f"Serre relation {l} {k} (lowering)")
            elif l != k:
                close(comm(E[l], E[k]), 0 * E[l], f"[J+ {l}, J+ {k}]")
                close(comm(F[l], F[k]), 0 * E[l], f"[J- {l}, J- {k}]")
            ctx.step(5)
    if n > 1:
        K = np.concatenate(list(E))
        top = np.linalg.svd(K)[2][np.linalg.matrix_rank(K, 1e-8):]  # kernel of all the raising operators
        expect(len(top) == 1, f"{len(top)} highest weight vectors")
        expect(abs(abs(top[0][-1]) - 1) < 1e-8, "the highest weight vector is not the last state")
        ctx.step()
    eb = mod("E_basis")
    if eb and n > 1:
        B = {(k, l): np.asarray(eb(k, l, E, F)) for k in range(n) for l in range(n) if k != l}
        for (k, l), (p, q) in itertools.product(B, B):
            c = comm(B[k, l], B[p, q])
            want = np.zeros((d, d))
            if l == p and k == q:
                # E_kk - E_ll: sum of the 2 Jz between
                want = 2 * sum((Z[i] for i in range(min(k, l), max(k, l))), np.zeros((d, d))) * (1 if k < l else -1)
            elif l == p:
                want = B[k, q]
            elif k == q:
                want = -B[p, l]
            close(c, want, f"[E{k}{l}, E{p}{q}]")
            ctx.step()
    ctx.state(S)


def brackets(ctx, S):
    """single brackets against the matrices"""
    S = tuple(S)
    up, lo, u1, l1 = (mod(f) for f in ("upper_ladder_matrices", "lower_ladder_matrices", "upper_ladder", "lower_ladder"))
    Ms = all_patterns(S)
    for f, mats in ((u1, up), (l1, lo)):
        if not f or not mats:
            continue
        m = mats(S)
        for l in range(len(S) - 1):
            for (i, N), (j, M) in itertools.product(enumerate(Ms), enumerate(Ms)):
                x = float(f(l, N, M))
                expect(abs(x - m[l, i, j]) < 1e-12, f"bracket {l} {N} {M}: {x} instead of {m[l, i, j]}")
                ctx.step()
    # the matrices of a label only depend on the differences of its entries
    if up and S[-1] > 0:
        close(up(S), up(tuple(s - S[-1] for s in S)), "shifted label")
    ctx.state(S)


def labels(n, top, dmax, bottom=1):
    for S in itertools.combinations_with_replacement(range(top, -1, -1), n):
        if S[-1] <= bottom and ref.su_dim(S) <= dmax:
            yield list(S)


def shapes(tier, bounds):
    res = []
    for n, top, dmax in bounds:
        res += sorted(labels(n, top, dmax), key=ref.su_dim)
    return res


def spaces(tier):
    q = tier == "quick"
    pat = shapes(tier, [(1, 3, 1), (2, 24, 60), (3, 10, 400), (4, 6, 700), (5, 4, 700), (6, 3, 600), (7, 2, 500)] if q else
                 [(1, 5, 1), (2, 60, 99), (3, 20, 2000), (4, 10, 2500), (5, 6, 2500), (6, 4, 2500), (7, 3, 2500), (8, 2, 2500)])
    lad = shapes(tier, [(1, 3, 1), (2, 16, 17), (3, 7, 28), (4, 4, 36), (5, 3, 35), (6, 2, 36)] if q else
                 [(1, 3, 1), (2, 40, 41), (3, 12, 90), (4, 6, 90), (5, 4, 90), (6, 3, 90), (7, 2, 50)])
    br = [S for S in lad if ref.su_dim(S) <= (15 if q else 30)]
    val = [[S, S[0] + 1] for n, top in ([(2, 6), (3, 3)] + ([] if q else [(3, 5), (4, 2)])) for S in labels(n, top, 10**9)]
    nb = shapes(tier, [(2, 12, 13), (3, 5, 64), (4, 3, 64), (5, 3, 75), (6, 2, 105), (7, 2, 120), (8, 1, 80)] if q else
                [(2, 20, 21), (3, 8, 200), (4, 5, 300), (5, 4, 300), (6, 3, 300), (7, 2, 300), (8, 2, 200)])
    pr = []
    for n, top, dmax in ([(2, 8, 9), (3, 4, 30), (4, 3, 36), (5, 2, 40)] if q else [(2, 14, 20), (3, 6, 80), (4, 4, 100), (5, 3, 80), (6, 2, 110)]):
        L = list(labels(n, top, dmax, 0))
        pr += [[a, b] for a in L for b in L]
    return [
        Space("patterns", pat, patterns, "every pattern of every label: enumeration, numbering, weights", "N <= 7" if q else "N <= 8, dimension <= 2500"),
        Space("validity", val, validity, "every triangular array of small integers against the definition; every single increment", "N <= 3" if q else "N <= 4"),
        Space("neighbours", nb, neighbours, "every pattern of every label with any one entry changed: validity, single increments", "N <= 8"),
        Space("products", pr, product, "every pair of labels: multiset of the products, by characters", "N <= 5" if q else "N <= 6"),
        Space("ladders", lad, ladders, "every label: transposes, weight shifts, Serre relations, gl(N) relations of the E basis", "dimension <= 36" if q else "dimension <= 90"),
        Space("brackets", br, brackets, "every pair of patterns and every ladder operator", ""),
    ]
