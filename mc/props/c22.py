"""Representations of finite groups."""
import importlib
import itertools
from collections import Counter
from math import factorial

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect, fail

ASSUMPTIONS = [
    "the decomposition of a regular representation draws random coefficients: a fixed list of seeds is explored",
]


def sn(kind, n):
    L = reps.lie()
    return getattr(L.finite, "Sn_" + kind)(n)


def mpow(m, k):
    r = np.eye(len(m))
    for _ in range(k):
        r = m @ r
    return r


def relations(ctx, case):
    kind, n = case
    r = sn(kind, n)
    H = r.H
    d = {"natural": n, "standard": n - 1, "trivial": 1}[kind]
    expect(r.dim == d, f"{kind} {n}: dimension {r.dim}")
    expect(H.shape == (min(n - 1, 2), d, d), f"{kind} {n}: generators of shape {H.shape}")
    expect(r.A.shape == (0, 0, 0) and r.X.shape == (0, d, d) and r.lie_dim == 0, f"{kind} {n}: continuous part")
    one = np.eye(d)
    if n == 2:
        close(H[0] @ H[0], one, "the transposition is an involution")
    if n >= 3:
        s, c = H
        ci = np.linalg.inv(c)
        close(s @ s, one, f"{kind} {n}: s^2 = 1")
        close(mpow(c, n), one, f"{kind} {n}: c^n = 1")
        close(mpow(s @ c, n - 1), one, f"{kind} {n}: (s c)^(n-1) = 1")
        for k in range(2, n // 2 + 1):
            t = mpow(ci, k) @ s @ mpow(c, k)
            close(mpow(s @ t, 2), one, f"{kind} {n}: s commutes with its conjugate by c^{k}")
        t = ci @ s @ c
        close(mpow(s @ t, 3), one, f"{kind} {n}: braid relation")
        ctx.step(n // 2 + 4)
        for k0, k1 in itertools.product(range(-2, 3), range(-n, n + 1)):
            g = r.exp_map(np.zeros(0), (k0, k1))
            close(g, ref.Dense.of(r).exp((), (k0, k1)), f"{kind} {n}: s^{k0} c^{k1}")
            ctx.step()
    t = r.create_trivial()
    expect(t.dim == 1 and t.is_trivial() and t.H.shape == (min(n - 1, 2), 1, 1), f"{kind} {n}: trivial representation")
    expect(t.X.shape == (0, 1, 1) and t.A.shape == (0, 0, 0) and t.lie_dim == 0, f"{kind} {n}: continuous part of the trivial representation")
    if kind == "natural":
        for h in H:
            expect(np.array_equal(np.sort(h, 0), np.sort(one, 0)) and np.array_equal(np.sort(h, 1), np.sort(one, 1)), f"{kind} {n}: not permutations")
    ctx.step(2)
    ctx.state(case)


def elements(ctx, n):
    """breadth-first over the Cayley graph, the three representations side by side"""
    Hs = [np.rint(sn(k, n).H).astype(int) for k in ("natural", "standard", "trivial")]
    for k, H in zip(("natural", "standard", "trivial"), Hs):
        close(H, sn(k, n).H, f"{k} {n}: integer matrices")
    m = len(Hs[0])
    key = lambda g: tuple(x.tobytes() for x in g)
    e = tuple(np.eye(H.shape[1], dtype=int) for H in Hs)
    seen = {key(e): e}
    front = [e]
    while front:
        new = []
        for g in front:
            for i in range(m):
                h = tuple(H[i] @ x for H, x in zip(Hs, g))
                if key(h) not in seen:
                    seen[key(h)] = h
                    new.append(h)
                    expect(len(seen) <= factorial(n), f"S({n}): more than {n}! elements")
        front = new
        ctx.step(len(new) * m)
    expect(len(seen) == factorial(n), f"S({n}): {len(seen)} elements")
    for i, k in enumerate(("natural", "standard", "trivial")):
        c = len({key(g)[i] for g in seen.values()})
        expect(c == (1 if k == "trivial" else factorial(n)), f"{k} {n}: {c} distinct elements")
    chi = [[int(np.trace(g[i])) for g in seen.values()] for i in range(3)]
    for a, b, c, g in zip(*chi, seen.values()):
        expect(a == b + c, f"S({n}): natural is not trivial plus standard")
        p = g[0]
        expect(a == int(np.sum(np.diag(p))), "fixed points")
    norm = sum(x * x for x in chi[1])
    expect(norm == factorial(n), f"standard {n} is not irreducible ({norm}/{factorial(n)})")
    expect(sum(chi[1]) == 0, f"standard {n} contains the trivial one")
    for k in seen:
        ctx.state("element", n, k)


def decomposition(ctx, n):
    L = reps.lie()
    nat, std, tri = (sn(k, n) for k in ("natural", "standard", "trivial"))
    expect(ref.commutant_dim(std, std) == 1, f"standard {n} is not irreducible")
    expect(bool(L.is_irreducible(std)) and bool(L.is_irreducible(tri)), f"S({n}): irreducible ones")
    expect(bool(L.is_irreducible(nat)) == (n == 1), f"S({n}): natural")
    expect(L.infer_change_of_basis(std, nat).shape[0] == 1, f"S({n}): standard in natural")
    expect(L.infer_change_of_basis(tri, nat).shape[0] == 1, f"S({n}): trivial in natural")
    expect(L.infer_change_of_basis(tri, std).shape[0] == 0, f"S({n}): trivial in standard")
    s = L.direct_sum(tri, std)
    Q = L.infer_change_of_basis(s, nat)
    expect(len(Q) == 2, f"S({n}): natural and trivial plus standard: {len(Q)} intertwiners")
    M = Q[0] + 0.618 * Q[1]
    expect(np.linalg.cond(M) < 1e8, f"S({n}): natural is not equivalent to trivial plus standard")
    for a, b in zip(s.H, nat.H):
        close(M @ a, b @ M, f"S({n}): intertwiner")
    ctx.step(7)
    ctx.state("decomposition", n)


def internals(ctx, n):
    """matrices of all permutations multiply as the permutations"""
    reps.lie()
    M = importlib.import_module("lie_nn._src.finite")
    f, t = getattr(M, "_permutation_matrix", None), getattr(M, "_transposition_matrix", None)
    if f is not None:
        D = {p: f(p) for p in itertools.permutations(range(n))}
        for p, q in itertools.product(D, repeat=2):
            expect(np.array_equal(D[p] @ D[q], D[tuple(p[i] for i in q)]), f"matrices of {p} and {q}")
            ctx.step()
        for p in D:
            expect(all(D[p][p[i], i] == 1 for i in range(n)), f"matrix of {p}")
        if t is not None:
            for i, j in itertools.permutations(range(n), 2):
                p = list(range(n))
                p[i], p[j] = j, i
                expect(np.array_equal(t(n, i, j), D[tuple(p)]), f"transposition {i}, {j} of {n}")
    ctx.state("internals", n)


# ------------------------------------------------------------ regular representations


def group_tables():
    """{name: table}; built from permutations or products of cyclic groups"""
    out = {}

    def abelian(*ns):
        el = list(itertools.product(*[range(n) for n in ns]))
        ix = {e: i for i, e in enumerate(el)}
        return np.array([[ix[tuple((a + b) % n for a, b, n in zip(x, y, ns))] for y in el] for x in el]).reshape(len(el), len(el))

    def generated(gens):
        mul = lambda p, q: tuple(p[i] for i in q)
        e = tuple(range(len(gens[0])))
        el, front = [e], [e]
        while front:
            new = []
            for x in front:
                for g in gens:
                    y = mul(x, g)
                    if y not in el:
                        el.append(y)
                        new.append(y)
            front = new
        ix = {x: i for i, x in enumerate(el)}
        return np.array([[ix[mul(x, y)] for y in el] for x in el])

    for n in range(1, 9):
        out[f"Z{n}"] = abelian(n)
    out["Z2xZ2"] = abelian(2, 2)
    out["Z4xZ2"] = abelian(4, 2)
    out["Z2xZ2xZ2"] = abelian(2, 2, 2)
    out["Z3xZ3"] = abelian(3, 3)
    out["S3"] = generated([(1, 0, 2), (1, 2, 0)])
    out["D4"] = generated([(1, 2, 3, 0), (0, 3, 2, 1)])
    out["D5"] = generated([(1, 2, 3, 4, 0), (0, 4, 3, 2, 1)])
    out["A4"] = generated([(1, 2, 0, 3), (1, 0, 3, 2)])
    # quaternions as permutations of eight points
    u = [1, 1j, 1, 1j]
    q = [np.array(m) for m in ([[1, 0], [0, 1]], [[1j, 0], [0, -1j]], [[0, 1], [-1, 0]], [[0, 1j], [1j, 0]])]
    el = [s * m for s in (1, -1) for m in q]
    find = lambda m: next(i for i, x in enumerate(el) if np.array_equal(x, m))
    out["Q8"] = np.array([[find(a @ b) for b in el] for a in el])
    out["S4"] = generated([(1, 0, 2, 3), (1, 2, 3, 0)])
    return out


TABLES = group_tables()


def relabel(t, p):
    """element i becomes p[i]"""
    n = len(t)
    r = np.empty_like(t)
    for i in range(n):
        for j in range(n):
            r[p[i], p[j]] = p[t[i, j]]
    return r


def check_regular(u, t, what):
    n = len(t)
    keep = t.copy()
    D = u.regular_representation(t)
    expect(D.shape == (n, n, n), f"{what}: shape {D.shape}")
    want = np.zeros((n, n, n))
    for g in range(n):
        for h in range(n):
            want[g, t[g, h], h] = 1
    expect(np.array_equal(D, want), f"{what}: D(g) e_h is not e_gh")
    expect(np.array_equal(np.einsum("gij,hjk->ghik", D, D), D[t]), f"{what}: does not multiply as the table")
    expect(np.array_equal(t, keep), f"{what}: table modified")
    return D


def regular(ctx, case):
    name, first = case
    reps.lie()
    import lie_nn.util as u

    t = TABLES[name]
    n = len(t)
    if isinstance(first, list):
        perms = [first]
    else:
        rest = [i for i in range(n) if i != first]
        perms = [(first, *p) for p in itertools.permutations(rest)]
    for p in perms:
        check_regular(u, relabel(t, p), f"{name} relabelled by {p}")
        ctx.step(2)
        ctx.state(name, tuple(p))


def split(ctx, case):
    """the regular representation contains each irrep as often as its dimension"""
    name, seed = case
    reps.lie()
    import lie_nn.util as u

    t = TABLES[name]
    n = len(t)
    e = next(i for i in range(n) if t[i, i] == i)
    D = u.regular_representation(t)
    expect([int(np.trace(d)) for d in D] == [n if g == e else 0 for g in range(n)], f"{name}: character")
    np.random.seed(seed)
    parts = u.decompose_rep_into_irreps(D)
    expect(sum(p.shape[1] for p in parts) == n, lambda: f"{name}: parts of dimensions {[p.shape[1] for p in parts]}")
    chars = []
    for p in parts:
        expect(p.shape[0] == n, f"{name}: generators of a part")
        close(np.einsum("gij,hjk->ghik", p, p), p[t], f"{name}: a part does not multiply as the table", 1e-6)
        c = np.trace(p, axis1=1, axis2=2)
        expect(abs(np.vdot(c, c) / n - 1) < 1e-6, f"{name}: a part of dimension {p.shape[1]} is reducible")
        chars.append(c)
    todo = list(range(len(chars)))
    while todo:
        same = [i for i in todo if abs(np.vdot(chars[todo[0]], chars[i]) / n) > 0.5]
        d = round(chars[todo[0]][e].real)
        expect(len(same) == d, f"{name}: an irrep of dimension {d} appears {len(same)} times")
        todo = [i for i in todo if i not in same]
    ctx.step(len(parts) + 1)
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    rel = [[k, n] for n in range(1, 11 if q else 15) for k in ("natural", "standard", "trivial") if not (k == "standard" and n < 2)]
    reg = []
    for name, t in TABLES.items():
        n = len(t)
        if n <= (6 if q else 8):
            reg += [[name, i] for i in range(n)]
        else:
            ps = [list(range(n))] + [[(i * k + s) % n for i in range(n)] for s in range(n) for k in (1, n - 1)]
            for i, j in itertools.combinations(range(n), 2):
                p = list(range(n))
                p[i], p[j] = j, i
                ps.append(p)
            reg += [[name, p] for p in ps]
    return [
        Space("relations", rel, relations, "presentation of the symmetric group", "n up to 10 (14)"),
        Space("elements", list(range(2, 7 if q else 8)), elements, "all elements, breadth-first", "n up to 6 (7)"),
        Space("decomposition", list(range(2, 9 if q else 11)), decomposition, "natural = trivial + standard"),
        Space("permutation matrices", list(range(1, 5 if q else 6)), internals, "all pairs of permutation matrices"),
        Space("regular", reg, regular, "all relabelled multiplication tables of the groups of order up to 6 (8), transpositions and affine relabellings above"),
        Space("regular irreps", [[n, s] for n in TABLES for s in range(10 if q else 100)], split, "irreps inside the regular representation"),
    ]
