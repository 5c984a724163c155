"""Changes of basis, of algebra basis, and conjugation: all sequences up to a depth."""
import itertools
from collections import Counter

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, close, expect, same_rep

ASSUMPTIONS = ["changes of basis by invertible square matrices (condition number at most 300 in single steps, 2.5 in sequences)"]


def relations(rep, what):
    A, X = rep.A, rep.X
    c = np.einsum("iab,jbc->ijac", X, X)
    close(c - c.transpose(1, 0, 2, 3), np.einsum("ijk,kab->ijab", A, X), f"{what}: [X_i, X_j] = A_ijk X_k", 1e-6)


def step(L, rep, m, op, k):
    """one operation on the implementation and on the model"""
    if op == "conj":
        return L.conjugate(rep), m.conjugate()
    kind, name = op.split(":")
    if kind == "cb":
        Q = ref.basis(name, m.dim, k)
        keep = Q.copy()
        r = L.change_basis(rep, Q), m.change_basis(Q)
    else:
        Q = ref.basis(name, len(m.A), k)
        keep = Q.copy()
        r = L.change_algebra(rep, Q), m.change_algebra(Q)
    expect(np.array_equal(Q, keep), "the matrix given was modified")
    return r


def sequence(ctx, case):
    s, ops = case
    L = reps.lie()
    rep, m = reps.build(s), reps.model(s)
    for k, op in enumerate(ops):
        before = rep
        rep2, m2 = step(L, rep, m, op, k)
        what = f"{op} after {ops[:k]} of {s}"
        same_rep(rep2, m2, what, 1e-7)
        relations(rep2, what)
        same_rep(before, m, f"argument of {what}", 1e-7)
        if op.startswith("cb") and isinstance(before, L.ReducedRep):
            expect(isinstance(rep2, L.ReducedRep), f"{what}: the decomposition is lost")
            expect(decomposition(rep2) == decomposition(before), f"{what}: the decomposition changed")
        if op.startswith("cb"):
            close(rep2.A, before.A, f"{what}: structure constants")
        rep, m = rep2, m2
        ctx.step(3)
        ctx.state(s, ops[: k + 1])
    t = rep.create_trivial()
    same_rep(t, m.trivial(), "trivial representation at the end", 1e-7)
    ctx.step()


def decomposition(rep):
    return [(x.mul, x.rep.dim, type(x.rep).__name__) for x in rep.irreps]


def inverse(ctx, case):
    """Q then its inverse; Q1 then Q2 against Q2 Q1; twice conjugate"""
    s, k1, k2 = case
    L = reps.lie()
    rep, m = reps.build(s), reps.model(s)
    Q1, Q2 = ref.basis(k1, m.dim, 0), ref.basis(k2, m.dim, 1)
    a = L.change_basis(L.change_basis(rep, Q1), np.linalg.inv(Q1))
    same_rep(a, m, "change of basis and its inverse", 1e-7)
    b = L.change_basis(L.change_basis(rep, Q1), Q2)
    c = L.change_basis(rep, Q2 @ Q1)
    same_rep(b, Dense.of(c), "composition of changes of basis", 1e-7)
    same_rep(L.conjugate(L.conjugate(rep)), m, "twice conjugate", 1e-7)
    ctx.step(3)
    n = len(m.A)
    if n:
        q1, q2 = ref.basis(k1, n, 0), ref.basis(k2, n, 1)
        a = L.change_algebra(L.change_algebra(rep, q1), np.linalg.inv(q1))
        same_rep(a, m, "change of algebra and its inverse", 1e-7)
        b = L.change_algebra(L.change_algebra(rep, q1), q2)
        same_rep(b, Dense.of(L.change_algebra(rep, q2 @ q1)), "composition of changes of algebra", 1e-7)
        ctx.step(2)
    ctx.state(case)


def units(ctx, case):
    """one-dimensional representations in other units: the same numbers, trivial or not as before"""
    s, c, form = case
    L = reps.lie()
    m = reps.model(s)
    trivial = not np.any(m.X) and not np.any(m.H != 1)
    rep = reps.build(s)
    if form == "gen":
        rep = L.GenericRep.from_rep(rep)
    if form == "mul":
        rep = L.MulIrrep(1, rep)
    r = L.change_basis(rep, np.array([[c[0] + 1j * c[1]]]) if c[1] else np.array([[float(c[0])]]))
    same_rep(r, m, "in other units", 1e-9)
    expect(bool(r.is_trivial()) == trivial, f"is_trivial() = {r.is_trivial()} in the unit {c}")
    expect(bool(rep.is_trivial()) == trivial, f"is_trivial() = {rep.is_trivial()}")
    ctx.step(3)
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    ops = ["cb:gen", "cb:cgen", "cb:perm", "ca:gen", "ca:perm", "conj"]
    allops = [f"cb:{k}" for k in ref.REAL_BASES + ref.CPLX_BASES] + [f"ca:{k}" for k in ref.REAL_BASES] + ["conj"]
    allops += [f"cb:{k}" for k in ref.ODD_BASES] + [f"ca:{k}" for k in ref.ODD_REAL]
    allops += [f"cb:{k}" for k in ref.COND_BASES + ref.LONG_BASES] + ["ca:cond8", "ca:long"]
    seqs, inv = [], []
    fs = []
    for g, irs in reps.SMALL.items():
        fs.append([f for f in reps.forms(irs, 1) if reps.dim(f) > 0])
    for g, v in reps.GENERIC.items():
        fs.append(reps.generic_forms(v))
    for group in fs:
        for i, s in enumerate(group):
            slow = any(g in repr(s) for g in ("SU4", "SU3", "SO13", "SL2C"))
            if reps.dim(s) > ((6 if slow else 10) if q else 20):
                continue
            noalg = len(reps.model(s).A) == 0
            ok = lambda o: not (noalg and o.startswith("ca"))
            for o in allops:
                if ok(o):
                    seqs.append([s, [o]])
            depth = 3 if i % (7 if slow else 3) == 0 else 2
            if not q:
                depth = 4 if i % 7 == 0 and not slow and reps.dim(s) <= 6 else 3
            # the prefixes of a sequence are checked along with it
            for o in itertools.product(ops, repeat=depth):
                if all(map(ok, o)):
                    seqs.append([s, list(o)])
            kinds = ref.REAL_BASES + ref.CPLX_BASES
            for k1 in kinds:
                for k2 in kinds if not q else ["cgen" if k1 == "gen" else "gen"]:
                    inv.append([s, k1, k2])
            for k1 in ref.ODD_REAL:
                inv.append([s, k1, "gen"])
                inv.append([s, "unit", k1])
            for k1 in ref.COND_BASES + ref.LONG_BASES:
                inv.append([s, k1, "cgen"])
    ones = [["SU2", 0], ["O3", 0, 1], ["O3", 0, -1], ["Z2", 1], ["Z2", -1], ["SU3", [0, 0, 0]], ["cyc", 3, 1], ["cyc", 3, 0], ["u1", [1]], ["u1", [0]], ["triv", ["Sn", "natural", 4]]]
    tabulated = lambda s: s[0] in reps.LEAVES
    scales = [[c, 0] for c in range(1, 130 if q else 1000)] + [[-3, 0], [0.1, 0], [0.3, 0], [1e-6, 0], [1e6, 0], [0, 1], [1, 2], [3, -7], [0.1, 0.7], [49, 98]]
    un = [[s, c, f] for s in ones for c in scales for f in (["plain", "gen", "mul"] if tabulated(s) else ["plain", "mul"])]
    return [
        Space("units", un, units, "one-dimensional representations in other units", f"{len(scales)} scales, {len(ones)} representations"),
        Space("sequences", seqs, sequence, "all sequences of operations on every form of representation",
              "depth 3 (2 for two thirds of the forms)" if q else "depth 3, 4 for small ones"),
        Space("inverse", inv, inverse, "inverses, compositions and involutions over pairs of bases"),
    ]
