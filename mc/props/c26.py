"""Root systems and dimensions of the classical series."""
import functools
import importlib
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import ref
from ..engine import Space
from ..ref import close, expect

ASSUMPTIONS = [
    "dimensions below 2^40 (computed by a float product)",
    "Cartan matrix in the convention C_ij = 2 (a_i, a_j) / (a_i, a_i)",
    "SON labels of odd rank belong to series B, of even rank to series D, as the class documents by its code",
]


def mod(name, m="lie_algebra_utils"):
    return getattr(importlib.import_module("lie_nn._src." + m), name, None)


@functools.lru_cache(maxsize=None)
def cartan(series, n):
    """<a_i, a_j^vee> = 2 (a_i, a_j) / (a_j, a_j) from the Dynkin diagram"""
    C = [[2 * (i == j) for j in range(n)] for i in range(n)]

    def link(i, j, a=-1, b=-1):
        C[i][j], C[j][i] = a, b

    if series == "D":
        for i in range(n - 2):
            link(i, i + 1)
        if n >= 3:
            link(n - 3, n - 1)
    else:
        for i in range(n - 1):
            link(i, i + 1)
        if n >= 2 and series == "B":  # the last root is short
            link(n - 2, n - 1, -2, -1)
        if n >= 2 and series == "C":  # the last root is long
            link(n - 2, n - 1, -1, -2)
    return C


@functools.lru_cache(maxsize=None)
def lengths(series, n):
    """(a_i, a_i) / 2"""
    d = [Fraction(1)] * n
    if series == "B":
        d[-1] = Fraction(1, 2)
    if series == "C":
        d[-1] = Fraction(2)
    C = cartan(series, n)
    for i in range(n):
        for j in range(n):
            assert C[i][j] * d[j] == C[j][i] * d[i]
    return d


@functools.lru_cache(maxsize=None)
def positive(series, n):
    """coefficients of the positive roots on the simple ones: orbit of the simple roots under the
    simple reflections"""
    C = cartan(series, n)
    simple = [tuple(int(i == j) for j in range(n)) for i in range(n)]
    seen, todo = set(simple), list(simple)
    while todo:
        r = todo.pop()
        for j in range(n):
            k = sum(r[i] * C[i][j] for i in range(n))
            s = tuple(x - k * (i == j) for i, x in enumerate(r))
            if s not in seen:
                seen.add(s)
                todo.append(s)
    pos = sorted(r for r in seen if min(r) >= 0)
    assert 2 * len(pos) == len(seen)
    return pos


def order(series, n):
    return {"A": n * (n + 1) // 2, "B": n * n, "C": n * n, "D": n * (n - 1)}[series]


def exact_dim(series, S):
    """prod over the coroots of (w + rho, r) / (rho, r)"""
    n = len(S)
    d = lengths(series, n)
    x = Fraction(1)
    for r in positive(series, n):
        x *= sum(r[i] * (S[i] + 1) * d[i] for i in range(n)) / sum(r[i] * d[i] for i in range(n))
    assert x.denominator == 1
    return int(x)


assert exact_dim("B", (0, 0, 1)) == 8 and exact_dim("C", (0, 1)) == 5 and exact_dim("D", (0, 1, 0, 0)) == 28
assert exact_dim("B", (2, 0)) == 14 and exact_dim("A", (1, 1)) == 8 and exact_dim("C", (0, 0, 1)) == 14


def system(ctx, case):
    series, n = case
    f = mod("RootsWeights" + series)
    if not f:
        return
    simple, pos, fund, top, _ = f(n)
    simple, pos, fund, top = (np.asarray(v, dtype=float) for v in (simple, pos, fund, top))
    e = n + 1 if series == "A" else n
    name = f"{series}{n}"
    expect(simple.shape == (n, e), f"{name}: simple roots of shape {simple.shape}")
    expect(pos.shape == (order(series, n), e), f"{name}: positive roots of shape {pos.shape}")
    expect(fund.shape == (n, e), f"{name}: fundamental weights of shape {fund.shape}")
    expect(top.shape == (e,), f"{name}: highest root of shape {top.shape}")
    G = simple @ simple.T
    want = np.array([[float(cartan(series, n)[i][j] * lengths(series, n)[j]) for j in range(n)] for i in range(n)])
    close(G / G[0, 0], want / want[0, 0], f"{name}: lengths and angles of the simple roots")
    roots = np.array(positive(series, n)) @ simple
    a = sorted(map(tuple, np.rint(4 * roots).astype(int)))
    b = sorted(map(tuple, np.rint(4 * pos).astype(int)))
    expect(a == b, f"{name}: positive roots")
    close(4 * pos, np.rint(4 * pos), f"{name}: coordinates of the roots")
    dual = 2 * fund @ simple.T / np.diag(G)
    close(dual, np.eye(n), f"{name}: fundamental weights are dual to the coroots")
    if series == "A":
        close(fund.sum(1), np.zeros(n), f"{name}: fundamental weights in the span of the roots")
    height = np.array(positive(series, n)).sum(1)
    if not (series == "D" and n == 2):  # not simple
        expect(np.sum(height == height.max()) == 1, f"{name}: highest root is not unique")
        close(top, roots[np.argmax(height)], f"{name}: highest root")
    ctx.step(7)
    f = mod("cartan_matrix")
    if f:
        C = f(simple)
        close(C, np.array(cartan(series, n)).T, f"{name}: Cartan matrix")
        for p in itertools.islice(itertools.permutations(range(n)), 24):
            close(f(simple[list(p)]), np.array(cartan(series, n)).T[np.ix_(p, p)], f"{name}: Cartan matrix of reordered roots")
            ctx.step()
    f = mod("structure_algebra")
    if f:
        s = f(series, n)
        close(np.asarray(s["SimpleRoots"]), simple, f"{name}: simple roots")
        close(np.asarray(s["PositiveRoots"]), pos, f"{name}: positive roots")
        close(np.asarray(s["FundamentalWeights"]), fund, f"{name}: fundamental weights")
        close(np.asarray(s["MaximalRoots"]), top, f"{name}: highest root")
        close(np.asarray(s["WeylVector"]), fund.sum(0), f"{name}: Weyl vector is the sum of the fundamental weights")
        close(np.asarray(s["CartanMatrix"]), np.array(cartan(series, n)).T, f"{name}: Cartan matrix")
        h = {"A": n + 1, "B": 2 * n, "C": 2 * n, "D": 2 * n - 2}[series]
        expect(abs(s["CoxeterNumber"] - h) < 1e-12, f"{name}: Coxeter number {s['CoxeterNumber']}")
        ctx.step(7)
    ctx.state(series, n)


def weyl(ctx, case):
    series, S = case
    n = len(S)
    f, g = mod("RootsWeights" + series), mod("weyl_dim")
    want = exact_dim(series, tuple(S))
    if want >= 2**40:  # beyond the precision that the rounding of a float product promises
        return
    if f and g:
        _, pos, fund, _, _ = f(n)
        rho = sum(pos) / 2
        w = np.array(S) @ np.asarray(fund)
        got = g(w, pos, rho)
        expect(abs(got - want) < 1e-9 * want, f"{series} {S}: dimension {got} instead of {want}")
        ctx.step()
    if series == "A":
        T = tuple(sum(S[i:]) for i in range(n + 1))
        assert ref.su_dim(T) == want
        from lie_nn._src.irreps.sun import SUN

        expect(SUN(T).dim == want, f"SUN {T}: dimension {SUN(T).dim} instead of {want}")
        ctx.step()
    cls = {"B": ("SON", "son") if n % 2 else None, "D": ("SON", "son") if n % 2 == 0 else None, "C": ("SPN", "spn")}.get(series)
    if cls:
        c = getattr(importlib.import_module("lie_nn._src.irreps." + cls[1]), cls[0])
        r = c(tuple(S))
        expect(r.dim == want and math.isclose(r.dim, want), f"{cls[0]} {S}: dimension {r.dim} instead of {want}")
        expect(type(r.dim) is int, f"{cls[0]}: dimension of type {type(r.dim).__name__}")
        expect(bool(r.is_scalar()) == (not any(S)), f"{cls[0]} {S}: scalar")
        expect((r.dim == 1) == (not any(S)), f"{cls[0]} {S}: dimension one")
        expect(c.from_string("(" + ",".join(map(str, S)) + ")") == r, f"{cls[0]} {S}: from_string")
        if want <= 2000:
            expect(r.discrete_generators().shape == (0, want, want), f"{cls[0]} {S}: discrete generators")
        ctx.step(3)
    ctx.state(series, tuple(S))


def ordering(ctx, case):
    name, m, n, top = case
    c = getattr(importlib.import_module("lie_nn._src.irreps." + m), name)
    L = list(itertools.product(range(top + 1), repeat=n))
    for a in L:
        for b in L:
            x, y = c(a), c(b)
            expect((x == y) == (a == b), f"{name}: {a} == {b}")
            expect((x < y) == (a < b), f"{name}: {a} < {b}")
            expect(a != b or hash(x) == hash(y), f"{name}: hash of {a}")
            ctx.step(3)
        ctx.state(name, a)


def spaces(tier):
    q = tier == "quick"
    top = 8 if q else 14
    sys_ = [[s, n] for n in range(1, top + 1) for s in "ABCD" if n >= {"A": 1, "B": 2, "C": 2, "D": 2}[s]]
    bound = [(1, 12), (2, 6), (3, 4), (4, 3), (5, 2), (6, 1), (7, 1), (8, 1)] if q else [(1, 40), (2, 20), (3, 9), (4, 5), (5, 3), (6, 2), (7, 2), (8, 1), (9, 1), (10, 1)]
    w = [[s, list(S)] for n, t in bound for s in "ABCD" if n >= {"A": 1, "B": 2, "C": 2, "D": 2}[s] for S in itertools.product(range(t + 1), repeat=n)]
    tall = []
    for n in range(2, 9 if q else 13):
        for s in "ABCD":
            for i, j in itertools.product(range(n), repeat=2):
                for a, b in ((2, 0), (3, 0), (5, 0), (12, 0), (40, 0), (1, 2), (2, 3), (7, 1), (10, 11)):
                    S = [0] * n
                    S[i] += a
                    S[j] += b
                    if [s, S] not in w and [s, S] not in tall and (b or i == j):
                        tall.append([s, S])
    o = [[a, m, n, 2 if n < 4 else 1] for a, m in (("SON", "son"), ("SPN", "spn")) for n in range(2, 5)]
    return [
        Space("systems", sys_, system, "every series and rank: roots by reflections, duality, highest root, Weyl vector, Cartan matrix, Coxeter number", f"rank <= {top}"),
        Space("dimensions", w, weyl, "every label with small entries: exact Weyl formula", "; ".join(f"rank {n}: entries <= {t}" for n, t in bound)),
        Space("tall", tall, weyl, "labels with one or two large entries: exact Weyl formula", "rank 2 to %d, dimension < 2^40" % (8 if q else 12)),
        Space("labels", o, ordering, "equality, order and hash of every pair of labels", ""),
    ]
