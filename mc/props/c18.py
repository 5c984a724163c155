"""Permutations and closure of index formulas."""
import importlib
import itertools
from math import factorial

import numpy as np

from .. import reps
from ..engine import Space
from ..ref import expect, fail
from .c16 import closure as signed_closure
from .c16 import formula, signed_perms

ASSUMPTIONS = ["a minus sign is written in front of a term; the formula has at least one index"]


def P():
    reps.lie()
    return importlib.import_module("lie_nn._src.discrete_groups.perm")


def comp(p, q):
    return tuple(p[i] for i in q)


def inv(p):
    r = [0] * len(p)
    for i, x in enumerate(p):
        r[x] = i
    return tuple(r)


def sgn(p):
    return -1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 else 1


def one(ctx, case):
    p = tuple(case)
    m, n = P(), len(case)
    expect(m.is_perm(p), f"{p} is a permutation")
    q = m.inverse(p)
    expect(tuple(q) == inv(p), f"inverse of {p}: {q}")
    e = m.identity(n)
    expect(tuple(e) == tuple(range(n)), f"identity of {n}: {e}")
    for a, b, c in ((p, q, e), (q, p, e), (p, e, p), (e, p, p)):
        expect(tuple(m.compose(a, b)) == tuple(c), f"{a} after {b}")
    expect(m.sign(p) == sgn(p), f"sign of {p}: {m.sign(p)}")
    cyc = m.to_cycles(p)
    seen = [i for c in cyc for i in c]
    expect(len(seen) == len(set(seen)), f"cycles of {p} overlap: {cyc}")
    expect(set(seen) == {i for i in range(n) if p[i] != i}, f"cycles of {p}: {cyc}")
    for c in cyc:
        expect(c[0] == min(c), f"cycles of {p} start with their smallest element: {cyc}")
        for a, b in zip(c, c[1:] + c[:1]):
            expect(p[a] == b, f"cycles of {p}: {cyc}")
    k = m.to_int(p)
    expect(0 <= k < factorial(n), f"number of {p}: {k}")
    expect(tuple(m.from_int(k, n)) == p, f"numbering of {p}: {k} -> {m.from_int(k, n)}")
    ctx.step(9)
    ctx.state("perm", p)


def whole(ctx, n):
    m = P()
    ps = [tuple(m.from_int(i, n)) for i in range(factorial(n))]
    expect(sorted(ps) == sorted(itertools.permutations(range(n))), f"numbering of {n}: not a bijection")
    for i, p in enumerate(ps):
        expect(m.to_int(p) == i, f"number of {p}: {m.to_int(p)} instead of {i}")
    expect({tuple(p) for p in m.group(n)} == set(ps), f"group({n})")
    if n <= 4:
        expect(m.is_group(set(ps)), f"is_group of the symmetric group {n}")
    for _ in range(50):
        p = m.rand(n)
        expect(sorted(p) == list(range(n)), f"rand({n}) = {p}")
    ctx.step(2 * len(ps) + 2)
    ctx.state("whole", n)


def row(ctx, case):
    """one permutation against all others (and against all pairs for small n)"""
    p = tuple(case)
    m, n = P(), len(case)
    for q in itertools.permutations(range(n)):
        r = tuple(m.compose(p, q))
        expect(r == comp(p, q), f"{p} after {q}: {r}")
        expect(m.sign(r) == m.sign(p) * m.sign(q), f"sign of {p} after {q}")
        expect(tuple(m.inverse(r)) == tuple(m.compose(m.inverse(q), m.inverse(p))), f"inverse of {p} after {q}")
        ctx.step(3)
        if n <= 4:
            for s in itertools.permutations(range(n)):
                a, b = m.compose(m.compose(p, q), s), m.compose(p, m.compose(q, s))
                expect(tuple(a) == tuple(b), f"associativity of {p}, {q}, {s}")
                ctx.step()
    ctx.state("row", p)


def tuples(ctx, case):
    n, first = case
    m = P()
    for t in itertools.product(range(-1, n + 1), repeat=n - 1):
        t = (first,) + t
        expect(bool(m.is_perm(t)) == (sorted(t) == list(range(n))), f"is_perm{t}")
        ctx.step()
    ctx.state("tuples", n, first)


def plain_closure(gens, n):
    return {p for _, p in signed_closure([(1, g) for g in gens], n)}


def generated(ctx, case):
    n, gens = case
    gens = {tuple(g) for g in gens}
    m = P()
    keep = set(gens)
    G = m.germinate(gens)
    want = plain_closure(gens, n)
    expect({tuple(p) for p in G} == want, lambda: f"group generated by {gens}: {len(G)} elements instead of {len(want)}")
    expect(gens == keep, "the set given was modified")
    expect(m.is_group(set(want)), f"is_group of the group generated by {gens}")
    expect(bool(m.is_group(set(gens))) == (gens == want), f"is_group of {gens}")
    ctx.step(3)
    ctx.state("generated", n, sorted(want))


def subsets(ctx, case):
    """is_group on subsets"""
    s = {tuple(p) for p in case}
    m = P()
    n = len(case[0]) if case else 0
    want = bool(s) and s == plain_closure(s, n)
    expect(bool(m.is_group(s)) == want, f"is_group({sorted(s)}) is not {want}")
    ctx.step()
    ctx.state("subset", sorted(s))


def denotes(f):
    L = reps.lie()
    M = importlib.import_module("lie_nn._src.reduced_tensor_product")
    g = getattr(M, "germinate_perm_repr", None)
    if g is not None:
        return g(f)
    # without the helper: accepted or rejected
    z = L.irreps.Z2(-1)
    L.reduced_tensor_product_basis(f, **{c: z for c in f.split("=")[0]})
    return None


def formulas(ctx, case):
    n, gens, letters = case
    gens = [(s, tuple(p)) for s, p in gens]
    f = formula(gens, n, letters)
    r = denotes(f)
    want = signed_closure(gens, n)
    if r is not None:
        f0, G = r
        expect(f0 == letters[:n], f"{f}: indices {f0}")
        G = {(s, tuple(p)) for s, p in G}
        expect(G == set(want), lambda: f"{f}: {len(G)} signed permutations instead of {len(want)}")
    ctx.step()
    ctx.state("formula", n, sorted(want))


def malformed(ctx, case):
    f = "=".join(case)
    terms = [t[1:] if t.startswith("-") else t for t in case]
    good = all(len(set(t)) == len(t) and sorted(t) == sorted(terms[0]) for t in terms) and not case[0].startswith("-")
    try:
        r = denotes(f)
    except Exception as e:
        expect(not good, f"{f} refused: {e!r}")
    else:
        expect(good, f"{f} accepted: {r}")
    ctx.step()
    ctx.state("malformed", case)


def long_perms(n):
    """permutations of many points: powers of the cycle, reversals, exchanges, two cycles, affine maps"""
    e = list(range(n))
    out = [e, e[::-1], e[::2] + e[1::2], e[1::2] + e[::2]]
    out += [e[k:] + e[:k] for k in range(1, n)]
    out += [e[k:] + e[:k][::-1] for k in (1, 2, n // 2, n - 2)]
    for i in range(n):
        for j in {i + 1, n - 1, (i + n // 2) % n}:
            if j < n and i != j:
                p = list(e)
                p[i], p[j] = p[j], p[i]
                out.append(p)
    out += [[(a * i + 1) % n for i in e] for a in range(2, n) if np.gcd(a, n) == 1]
    return [list(p) for p in {tuple(p) for p in out}]


def spaces(tier):
    q = tier == "quick"
    top = 7 if q else 8
    long_ = [p for n in range(top + 1, 27 if q else 60) for p in sorted(long_perms(n))]
    many = []
    for n in range(5, 13 if q else 30):
        e = list(range(n))
        cyc, rev = e[1:] + e[:1], e[::-1]
        two = [1, 0] + e[2:]
        three = [1, 2, 0] + e[3:]
        last = e[:-2] + [n - 1, n - 2]
        many += [[n, [cyc]], [n, [rev]], [n, [cyc, rev]], [n, [two, last]], [n, [three, last]], [n, [three, rev]] if n < 8 else [n, [two]], [n, [two, rev]]]
        if n <= (6 if q else 7):
            many += [[n, [two, cyc]], [n, [three, cyc]]]
    ones = [list(p) for n in range(0, top + 1) for p in itertools.permutations(range(n))]
    rows = [list(p) for n in range(1, 6 if q else 7) for p in itertools.permutations(range(n)) if not (n == 6 and p[0] > 1)]
    gen = []
    for n in range(1, 6):
        ps = list(itertools.permutations(range(n)))
        for k in range(1, 5):
            if (n == 5 and k > (1 if q else 2)) or (n == 4 and k > 3):
                break
            gen += [[n, [list(p) for p in c]] for c in itertools.combinations(ps, k)]
    sub = [[]]
    for n in (1, 2, 3):
        ps = list(itertools.permutations(range(n)))
        for k in range(1, len(ps) + 1):
            sub += [[list(p) for p in c] for c in itertools.combinations(ps, k)]
    ps = list(itertools.permutations(range(4)))
    G4 = {frozenset(plain_closure(c, 4)) for k in (1, 2) for c in itertools.combinations(ps, k)}
    for G in sorted(G4, key=sorted):
        sub.append([list(p) for p in sorted(G)])
        for p in sorted(G):  # one element missing
            if len(G) > 1:
                sub.append([list(x) for x in sorted(G - {p})])
        for p in ps:  # one element too many
            if p not in G:
                sub.append([list(x) for x in sorted(G | {p})])
    fs = []
    for n, ks in ((1, (0, 1, 2, 3)), (2, (0, 1, 2, 3)), (3, (0, 1, 2) if q else (0, 1, 2, 3)), (4, (0, 1, 2))):
        for k in ks:
            for gens in itertools.product(signed_perms(n), repeat=k):
                if n == 4 and k == 2 and q and gens[0] > gens[1]:
                    continue
                fs.append([n, [list(g) for g in gens], "ijkl" if k % 2 else "zaKb"])
    for letters in ("abcde", "edcba", "bZaKy"):
        for g in signed_perms(5):
            fs.append([5, [list(g)], letters])
    for letters in ("fbdace",) if q else ("abcdef", "fbdace"):
        for g in signed_perms(6):
            if not q or g[0] == -1:
                fs.append([6, [list(g)], letters])
    for n, letters in ((3, "kij"), (3, "ikj"), (4, "ljki"), (4, "iljk")):
        for g in signed_perms(n):
            fs.append([n, [list(g)], letters])
    words = [s + "".join(w) for k in range(0, 4) for w in itertools.product("ij", repeat=k) for s in ("", "-")]
    words3 = [s + "".join(w) for k in (2, 3) for w in itertools.product("ijk", repeat=k) for s in ("", "-")]
    mal = [[a] for a in words + words3 if a] + [[a, b] for a in words for b in words if a]
    mal += [[a, b] for a in (words3 if not q else ["ij", "ijk", "kij"]) for b in words3]
    if not q:
        mal += [[a, b, c] for a in ("ij", "ijj", "i", "ji") for b in words for c in words]
    return [
        Space("elements", ones, one, "every permutation", f"up to order {top}"),
        Space("long", long_, one, "cycles, reversals, exchanges and affine maps of many points", f"order {top + 1} to {26 if q else 59}"),
        Space("many", many, generated, "cyclic, dihedral, alternating, symmetric and intransitive groups of more points", "order 5 to %d" % (12 if q else 29)),
        Space("symmetric groups", list(range(0, top + 1)), whole, "numbering of the whole group", f"up to order {top}"),
        Space("laws", rows, row, "every pair of permutations (every triple up to order 4)", "up to order 5" if q else "up to order 6 (a third)"),
        Space("is_perm", [[n, f] for n in range(1, 6) for f in range(-1, n + 1)], tuples, "every tuple over -1..n"),
        Space("generated", gen, generated, "groups generated by all sets of permutations", "up to 3 of order 4, 4 of order 3"),
        Space("is_group", sub, subsets, "all subsets of order 3, all groups of order 4 with one element more or less"),
        Space("formulas", fs, formulas, "all index formulas", "up to 4 indices and 2 terms, 3 terms for 2 indices, 1 term for 5 and 6 indices, several namings"),
        Space("malformed", mal, malformed, "all pairs of words as formulas"),
    ]
