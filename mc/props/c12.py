"""Representations of products of groups."""
import itertools
from collections import Counter

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, close, expect, same_rep
from .c04 import series
from .c05 import equivariant


def factors(ctx, case):
    """any two or three representations: the dense product, its relations, its trivial representation"""
    L = reps.lie()
    spec = ["prod", *case]
    rs = [reps.build(s) for s in case]
    r = L.group_product(*rs)
    m = reps.model(spec)
    what = repr(spec)
    same_rep(r, m, what, 1e-8)
    A, X, H = r.A, r.X, r.H
    c = np.einsum("iab,jbc->ijac", X, X)
    close(c - c.transpose(1, 0, 2, 3), np.einsum("ijk,kab->ijab", A, X), f"{what}: algebra", 1e-7)
    J = np.einsum("ijm,mkl->ijkl", A, A)
    close(J + J.transpose(1, 2, 0, 3) + J.transpose(2, 0, 1, 3), 0 * J, f"{what}: Jacobi")
    # generators of different groups commute
    px = np.cumsum([0] + [len(x.X) for x in rs])
    ph = np.cumsum([0] + [len(x.H) for x in rs])
    gens = [list(X[px[i] : px[i + 1]]) + list(H[ph[i] : ph[i + 1]]) for i in range(len(rs))]
    for g1, g2 in itertools.combinations(gens, 2):
        for x in g1:
            for y in g2:
                close(x @ y, y @ x, f"{what}: generators of different groups commute", 1e-8)
        ctx.step()
    if all(s[0] in reps.LEAVES for s in case):
        expect(type(r).__name__ != "GenericRep" and hasattr(r, "clebsch_gordan"), "the product of tabulated irreps is tabulated")
        expect(r.dim == int(np.prod([x.dim for x in rs])), "dimension")
    for k, x in enumerate(rs):
        same_rep(x, reps.model(case[k]), "factor afterwards", 1e-8)
    if not any(s[0] == "SUN" for s in case):
        same_rep(r.create_trivial(), m.trivial(), f"{what}: trivial representation")
        expect(r.create_trivial().is_trivial(), "is trivial")
        expect(m.is_trivial() in (None, bool(r.is_trivial())), "is_trivial")
    # exponentials factorize
    if m.dim <= 12:
        vs = [0.6 * ref.params(len(x.X), i) for i, x in enumerate(rs)]
        ts = [np.array([1 + i] * len(x.H), dtype=int) for i, x in enumerate(rs)]
        g = r.exp_map(np.concatenate(vs), np.concatenate(ts))
        want = ref.kron(*[x.exp_map(v, t) for x, v, t in zip(rs, vs, ts)])
        close(g, want, f"{what}: group elements factorize", 1e-7)
    ctx.step(4)
    ctx.state(case)


def group_of(s):
    return f"SU({len(s[1])})" if isinstance(s[1], list) else s[0]


def out_specs(s1, s2):
    g = group_of(s1)
    res = Counter()
    for k, m in series(g, s1, s2).items():
        res[repr(reps.suspec(k[0]) if g.startswith("SU(") else [s1[0], *k])] += m
    return res


def flat(ir):
    """labels of the factors of a tabulated product"""
    if hasattr(ir, "rep1") and hasattr(ir, "rep2"):
        return flat(ir.rep1) + flat(ir.rep2)
    return (repr(reps.spec_of(ir)),)


def fusion(ctx, case):
    """fusion rule and coefficients of the product of two tabulated products"""
    import ast

    L = reps.lie()
    sa, sb = case
    a, b = L.group_product(*map(reps.build, sa)), L.group_product(*map(reps.build, sb))
    want = Counter()
    for combo in itertools.product(*[out_specs(x, y).items() for x, y in zip(sa, sb)]):
        want[tuple(s for s, _ in combo)] += int(np.prod([m for _, m in combo]))
    outs = list(a * b)
    got = [flat(o) for o in outs]
    expect(len(set(got)) == len(got), "an irrep is listed twice")
    expect(set(got) == set(want), lambda: f"{sa} x {sb}: {set(got) ^ set(want)}")
    blocks = []
    ma, mb = Dense.of(a), Dense.of(b)
    for o in outs:
        C = L.clebsch_gordan(a, b, o)
        n = want[flat(o)]
        expect(C.shape == (n, a.dim, b.dim, o.dim), f"{C.shape} for multiplicity {n}")
        equivariant(ctx, C, ma, mb, Dense.of(o), "product")
        blocks.append(np.moveaxis(C, 3, 1).reshape(-1, a.dim * b.dim))
    U = np.concatenate(blocks)
    close(U @ U.conj().T, np.eye(a.dim * b.dim), "the coefficients form a unitary change of basis")
    # an absent irrep has no coefficients
    tops = [list(out_specs(x, y)) for x, y in zip(sa, sb)]
    for i, s in enumerate(sa):
        absent = [t for t in ABSENT[group_of(s)] if repr(t) not in tops[i]]
        if absent:
            c = list(map(lambda t: ast.literal_eval(t[0]), tops))
            c[i] = absent[0]
            o = L.group_product(*map(reps.build, c))
            C = L.clebsch_gordan(a, b, o)
            expect(C.shape == (0, a.dim, b.dim, o.dim), f"{C.shape} for an absent irrep")
            ctx.step()
    r = L.tensor_product(a, b)
    same_rep(r, ma.tensor(mb), "tensor product", 1e-7)
    expect(Counter({flat(x.rep): x.mul for x in r.irreps}) == want, "decomposition of the tensor product")
    ctx.step(4)
    ctx.state(case)


ABSENT = {
    "SU2": [["SU2", 9]], "SO3": [["SO3", 5]], "O3": [["O3", 0, 1], ["O3", 0, -1], ["O3", 4, 1]], "Z2": [["Z2", 1], ["Z2", -1]],
    "SU(3)": [["SU3", [3, 0, 0]]], "SU(2)": [["SU2_", [7, 0]]], "SL2C": [["SL2C", 5, 5]], "SO13": [["SO13", 3, 3]],
    "SU2Real": [["SU2Real", 6]], "SU(4)": [["SU4", [3, 0, 0, 0]]],
}


def ops(ctx, case):
    """products are used like any irrep: multiples, sums, changes of basis, reduction, powers"""
    L = reps.lie()
    spec = ["prod", *case]
    r, m = L.group_product(*map(reps.build, case)), reps.model(spec)
    t = L.group_product(*[reps.build(s).create_trivial() for s in case])
    same_rep(L.MulIrrep(2, r), Dense.sum(m, m), "multiple")
    rr = L.ReducedRep.from_irreps([(1, r), t])
    mm = Dense.sum(m, m.trivial())
    same_rep(rr, mm, "sum")
    same_rep(L.direct_sum(r, t), mm, "direct sum")
    Q = ref.basis("cgen", m.dim)
    same_rep(L.change_basis(r, Q), m.change_basis(Q), "change of basis", 1e-7)
    same_rep(L.conjugate(r), m.conjugate(), "conjugate")
    same_rep(L.reduce(L.MulIrrep(2, r)), Dense.sum(m, m), "reduced multiple")
    if mm.dim**2 <= 100:
        same_rep(L.tensor_product(rr, rr), mm.tensor(mm), "tensor product of sums", 1e-7)
    if m.dim**2 <= 64:
        same_rep(L.tensor_power(r, 2), m.power(2), "square", 1e-7)
    ctx.step(8)
    ctx.state(case)


def key(ctx, sp):
    return sp


def ordering(ctx, case):
    """order and equality of the products are lexicographic, hash is compatible"""
    sa, sb = case
    L = reps.lie()
    la, lb = [tuple(map(reps.build, s)) for s in (sa, sb)]
    a, b = L.group_product(*la), L.group_product(*lb)
    eq = all(x == y for x, y in zip(la, lb))
    lt = False
    for x, y in zip(la, lb):
        if x != y:
            lt = bool(x < y)
            break
    expect((a == b) == eq, f"{a} == {b} is {a == b}")
    expect(bool(a < b) == lt, f"{a} < {b} is {a < b}")
    if eq:
        expect(hash(a) == hash(b), "hashes of equal products")
    else:
        expect(bool(a < b) != bool(b < a), "total order")
    ctx.step(3)
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    S = reps.SMALL
    leaves = [S["SU2"][0], S["SO3"][0], S["O3"][0], S["O3"][1], S["SL2C"][0], S["SU(3)"][0], S["Z2"][0], S["Z2"][1],
              S["SU2"][2], S["SU(2)"][0], S["SO13"][0], ["SU2Real", 0.5]]
    other = [["Sn", "standard", 3], ["pauli"], ["u1", [1, -2]], ["o2", 1], ["gen", ["O3", 1, -1]], ["mul", 2, ["Z2", -1]],
             ["red", [["SO3", 0], ["SO3", 1]], "gen"], ["cb", "cgen", ["SU2", 1]], ["cyc", 3, 1], ["gen", ["SU2", 2]]]
    if not q:
        leaves += [["SU4", [1, 0, 0, 0]], ["O3", 1, 1], ["SL2C", 1, 1], ["SU3", [1, 1, 0]], ["SUN", [1, 0, 0, 0, 0]]]
        other += [["dih", 4, 1], ["sum", ["o2", 1], ["o2", 2]], ["red", [["O3", 0, -1], ["O3", 1, 1]], None], ["so2", 1], ["Sn", "natural", 2]]
    pal = leaves + other
    two = [list(p) for p in itertools.product(pal, repeat=2)]
    small = [s for s in pal if reps.dim(s) <= 3] if not q else [leaves[0], leaves[3], leaves[6], leaves[8], leaves[5], other[0], other[2], other[4], other[7]]
    three = [list(p) for p in itertools.product(small, repeat=3) if np.prod([reps.dim(s) for s in p]) <= (18 if q else 24)]
    nested = [[["prod", a, b], c] for a, b, c in itertools.product(leaves[:4] + other[:2], repeat=3)][:: 1 if not q else 3]
    nested += [[c, ["prod", a, b]] for a, b, c in itertools.product(leaves[:4], repeat=3)]
    fus = []
    groups = ["SU2", "SO3", "O3", "Z2", "SL2C", "SU(3)", "SU(2)"] + ([] if q else ["SO13", "SU2Real", "SU(4)"])
    for g1, g2 in itertools.product(groups, repeat=2):
        n = 2 if q else 3
        l1, l2 = S[g1][:n], S[g2][:n]
        for sa in itertools.product(l1, l2):
            for sb in itertools.product(l1, l2):
                d = np.prod([reps.dim(s) for s in sa + sb])
                if d <= (40 if q else 100):
                    fus.append([list(sa), list(sb)])
    for gs in [("SU2", "Z2", "SO3"), ("Z2", "O3", "Z2"), ("SU2", "SU2", "Z2")]:
        ls = [S[g][:2] for g in gs]
        for sa in itertools.product(*ls):
            for sb in itertools.product(*ls):
                if np.prod([reps.dim(s) for s in sa + sb]) <= 40:
                    fus.append([list(sa), list(sb)])
    o = [[a, b] for a, b in itertools.product([l for l in leaves if l[0] != "SUN"], repeat=2) if reps.dim(a) * reps.dim(b) <= 12
         and a != ["SU2Real", 0.5] and b != ["SU2Real", 0.5]]
    orders = []
    for g1, g2 in itertools.product(groups, repeat=2):
        l1, l2 = S[g1][:3], S[g2][:3]
        ps = [list(p) for p in itertools.product(l1, l2)]
        orders += [[a, b] for a in ps for b in ps]
    ps = [list(p) for p in itertools.product(S["Z2"], S["SU2"][:2], S["O3"][:2])]
    orders += [[a, b] for a in ps for b in ps]
    return [
        Space("two", two, factors, "all ordered pairs of factors", len(pal)),
        Space("three", three, factors, "triples of factors", len(small)),
        Space("nested", nested, factors, "products of products"),
        Space("fusion", fus, fusion, "fusion rule, coefficients and tensor product of tabulated products"),
        Space("ops", o, ops, "the other operations on products of irreps"),
        Space("order", orders, ordering, "order, equality and hash of all pairs of products"),
    ]
