"""Tabulated Clebsch-Gordan coefficients: equivariance, span, isometry, completeness, absence."""
import itertools

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, close, expect
from .c04 import args_of, groups, series

ASSUMPTIONS = [
    "the matrices of the labels themselves are decided by C01 and C02",
    "precision 1e-8: the numerically built coefficients of SU(N) lose digits with the labels (2e-6 for SU(2) [20] x [9] -> [15]), "
    "the bounds stay below that",
    "the number of solutions is known exactly from the Clebsch-Gordan series (weights), and is compared "
    "with the dimension of the independently computed space of intertwiners on the smaller triplets",
]


def equivariant(ctx, C, a, b, c, what):
    for x, y, z in zip(a.X, b.X, c.X):
        left = np.einsum("zijk,lk->zijl", C, z)
        right = np.einsum("il,zijk->zljk", x, C) + np.einsum("jl,zijk->zilk", y, C)
        close(left, right, f"{what}: continuous generator", 1e-8)
        ctx.step()
    for x, y, z in zip(a.H, b.H, c.H):
        left = np.einsum("zijk,lk->zijl", C, z)
        right = np.einsum("il,zijk,jm->zlmk", x, C, y)
        close(left, right, f"{what}: discrete generator", 1e-8)
        ctx.step()


def gram(C):
    return np.einsum("zijk,wijl->zkwl", C, np.conj(C))


def isometric(C, dim, what):
    m = len(C)
    want = np.einsum("zw,kl->zkwl", np.eye(m), np.eye(dim))
    close(gram(C), want, f"{what}: isometry and orthogonality", 1e-8)


def normalized(C, dim, what):
    m = len(C)
    close(np.einsum("zijk,wijk->zw", C, np.conj(C)), dim * np.eye(m), f"{what}: orthogonality and norm", 1e-8)


def quaternionic(group, *specs):
    return group == "SU2Real" and any(int(2 * s[1]) % 2 for s in specs)


def get(a, b, c, what):
    C = a.clebsch_gordan(a, b, c)
    ref.is_array(C, what, 4)
    expect(C.shape[1:] == (a.dim, b.dim, c.dim), f"{what}: shape {C.shape}")
    return C


def triplet(ctx, case):
    group, s1, s2, s3 = case
    a, b, c = (Dense.of(reps.build(s)) for s in (s1, s2, s3))
    what = f"{s1} x {s2} -> {s3}"
    C = get(*(reps.build(s) for s in (s1, s2, s3)), what)
    m = series(group, s1, s2)[args_of(group, reps.build(s3))]
    if quaternionic(group, s1, s2, s3):
        m = ref.commutant_dim(a.tensor(b), c)
    expect(len(C) == m, f"{what}: {len(C)} solutions instead of {m}")
    equivariant(ctx, C, a, b, c, what)
    if quaternionic(group, s1, s2, s3):
        normalized(C, c.dim, what)
    else:
        isometric(C, c.dim, what)
    if a.dim * b.dim * c.dim <= 130:
        V = np.moveaxis(C, 3, 1).reshape(len(C), c.dim, a.dim * b.dim)
        St = ref.intertwiners(a.tensor(b), c)  # (m, d3, d1 d2)
        if len(C) or len(St):
            ref.same_span(V, St, f"{what}: span")
        ctx.step()
    ctx.state(group, s1, s2, s3)


def outputs(group, s1, s2):
    res = []
    for k in series(group, s1, s2):
        if group.startswith("SU("):
            res.append(reps.suspec(k[0]))
        else:
            res.append([s1[0], *k])
    return res


def pair(ctx, case):
    """all the outputs of one product, from the exact series: together a unitary change of basis"""
    group, s1, s2 = case
    a, b = reps.build(s1), reps.build(s2)
    ma, mb = Dense.of(a), Dense.of(b)
    blocks = []
    for s3 in outputs(group, s1, s2):
        c = reps.build(s3)
        what = f"{s1} x {s2} -> {s3}"
        C = get(a, b, c, what)
        m = series(group, s1, s2)[args_of(group, c)]
        if quaternionic(group, s1, s2):
            m = None
            normalized(C, c.dim, what)
        else:
            expect(len(C) == m, f"{what}: {len(C)} solutions instead of {m}")
            isometric(C, c.dim, what)
        equivariant(ctx, C, ma, mb, Dense.of(c), what)
        blocks.append(np.moveaxis(C, 3, 1).reshape(-1, a.dim * b.dim))
        ctx.state(group, s1, s2, s3)
    if not quaternionic(group, s1, s2):
        U = np.concatenate(blocks)
        close(U @ np.conj(U.T), np.eye(a.dim * b.dim), f"{s1} x {s2}: the solutions together are a unitary change of basis", 1e-8)
        ctx.step()


def large(ctx, case):
    """products of large labels: one output at a time, against the generators and the norms only"""
    group, s1, s2, s3 = case
    a, b, c = (reps.build(s) for s in (s1, s2, s3))
    what = f"{s1} x {s2} -> {s3}"
    C = get(a, b, c, what)
    m = series(group, s1, s2)[args_of(group, c)]
    expect(len(C) == m, f"{what}: {len(C)} solutions instead of {m}")
    equivariant(ctx, C, Dense.of(a), Dense.of(b), Dense.of(c), what)
    isometric(C, c.dim, what)
    ctx.state(group, s1, s2, s3)


def large_cases(tier):
    q = tier == "quick"
    out = []
    for j1, j2 in [(20, 20), (33, 20), (33, 32), (40, 3), (45, 45), (60, 1)] + ([] if q else [(60, 60), (80, 5), (100, 2)]):
        js = list(range(abs(j1 - j2), j1 + j2 + 1, 2))
        n = len(js)
        for k in sorted({0, 1, n // 4, n // 2, (3 * n) // 4, n - 2, n - 1} & set(range(n))) if q or n > 50 else range(n):
            out.append(["SU2", ["SU2", j1], ["SU2", j2], ["SU2", js[k]]])
    for l1, l2 in [(9, 9), (12, 10), (16, 2)] + ([] if q else [(14, 14), (24, 7)]):
        ls = list(range(abs(l1 - l2), l1 + l2 + 1))
        n = len(ls)
        for k in sorted({0, n // 3, n // 2, n - 2, n - 1}) if q else range(n):
            out.append(["SO3", ["SO3", l1], ["SO3", l2], ["SO3", ls[k]]])
            out.append(["O3", ["O3", l1, -1], ["O3", l2, 1], ["O3", ls[k], -1]])
            out.append(["SU2Real", ["SU2Real", l1], ["SU2Real", l2], ["SU2Real", ls[k]]])
    for a, b in [((3, 4), (4, 3)), ((6, 1), (5, 2)), ((9, 0), (8, 0))] + ([] if q else [((4, 4), (4, 4)), ((12, 1), (7, 2))]):
        L, K = ref.su2_series(a[0], b[0]), ref.su2_series(a[1], b[1])
        for l in sorted({L[0], L[len(L) // 2], L[-1]}):
            for k in sorted({K[0], K[-1]}):
                out.append(["SL2C", ["SL2C", *a], ["SL2C", *b], ["SL2C", l, k]])
    for a, b in [((3, 3), (1, 1)), ((4, 2), (1, 1))] + ([] if q else [((3, 3), (2, 0))]):
        L, K = ref.su2_series(a[0], b[0]), ref.su2_series(a[1], b[1])
        for l in (L[0], L[-1]):
            for k in (K[0], K[-1]):
                out.append(["SO13", ["SO13", *a], ["SO13", *b], ["SO13", l, k]])
    su = [((12, 0), (9, 0)), ((6, 0, 0), (1, 0, 0)), ((4, 2, 0), (1, 0, 0)), ((5, 5, 0), (1, 1, 0)), ((3, 0, 0, 0), (1, 0, 0, 0)), ((2, 2, 0, 0), (1, 1, 1, 0))]
    if not q:
        su += [((16, 0), (9, 0)), ((3, 1, 1, 0), (1, 0, 0, 0)), ((2, 1, 0, 0, 0), (1, 0, 0, 0, 0))]
    for a, b in su:
        g = f"SU({len(a)})"
        for s3 in outputs(g, reps.suspec(a), reps.suspec(b)):
            out.append([g, reps.suspec(a), reps.suspec(b), s3])
    return out


def spaces(tier):
    q = tier == "quick"
    g = groups("thorough")
    kt = {"SU2": 8, "SO3": 6, "O3": 8, "SU2Real": 5, "SL2C": 12, "SO13": 5, "Z2": 2, "SU(2)": 5, "SU(3)": 5, "SU(4)": 4, "SU(5)": 3, "SU(6)": 2}
    kp = {"SU2": 14, "SO3": 8, "O3": 10, "SU2Real": 5, "SL2C": 14, "SO13": 5, "Z2": 2, "SU(2)": 8, "SU(3)": 6, "SU(4)": 4, "SU(5)": 3, "SU(6)": 2}
    if not q:
        kt = {"SU2": 14, "SO3": 9, "O3": 12, "SU2Real": 8, "SL2C": 16, "SO13": 8, "Z2": 2, "SU(2)": 8, "SU(3)": 8, "SU(4)": 6, "SU(5)": 5, "SU(6)": 4}
        kp = {"SU2": 26, "SO3": 13, "O3": 16, "SU2Real": 9, "SL2C": 24, "SO13": 8, "Z2": 2, "SU(2)": 14, "SU(3)": 12, "SU(4)": 7, "SU(5)": 5, "SU(6)": 4}
    trip = [[n, *t] for n in g for t in itertools.product(g[n][: kt[n]], repeat=3)]
    pairs = [[n, *t] for n in g for t in itertools.product(g[n][: kp[n]], repeat=2)]
    return [
        Space("large", large_cases(tier), large, "products of labels far larger than those of the exhaustive boxes, extreme and middle outputs"),
        Space("triplets", trip, triplet, "every triplet of labels, present or absent in the product", kt),
        Space("pairs", pairs, pair, "every pair of labels, all outputs: completeness of the whole product", kp),
    ]
