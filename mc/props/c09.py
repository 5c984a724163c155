"""Direct sums, multiplicities and sums of multiples."""
import itertools

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, expect, same_rep

ASSUMPTIONS = ["a sum has at least one term (the library cannot tell the group of an empty sum)"]


def contained(ctx, case):
    """["red", ...], ["mul", ...], ["sum", ...] specs against blocks"""
    s = case
    rep = reps.build(s)
    m = reps.model(s)
    same_rep(rep, m, repr(s), 1e-7)
    t = rep.create_trivial()
    same_rep(t, m.trivial(), "its trivial representation")
    expect(t.is_trivial(), "the trivial representation is reported trivial")
    expect(m.is_trivial() in (None, bool(rep.is_trivial())), f"is_trivial() = {rep.is_trivial()}")
    ctx.step(4)
    ctx.state(s)


def constructor(ctx, case):
    """from_irreps with every way of writing a term"""
    terms, q, ways = case
    L = reps.lie()
    args = []
    for (k, s), w in zip(terms, ways):
        r = reps.build(s)
        args.append({"tuple": (k, r), "mul": L.MulIrrep(k, r), "rep": r}[w])
    ms = [Dense.sum(*[reps.model(s)] * k) for (k, s), w in zip(terms, ways) if k]
    m = Dense.sum(*ms) if ms else None
    d = m.dim if m is not None else 0
    Q = None if q is None else ref.basis(q, d)
    rep = L.ReducedRep.from_irreps(args if len(args) % 2 else tuple(args), Q)
    if m is None:
        expect(rep.dim == 0, "empty representation")
        return
    if Q is not None:
        m = m.change_basis(Q)
    same_rep(rep, m, "from_irreps", 1e-7)
    if all(s[0] in reps.LEAVES for _, s in terms):
        kept = [(x.mul, x.rep) for x in rep.irreps]
        expect(kept == [(k, reps.build(s)) for k, s in terms], "the terms are kept in their order")
    ctx.step(2)
    ctx.state(case)


def mismatch(ctx, case):
    how, s1, s2 = case
    L = reps.lie()
    a, b = reps.build(s1), reps.build(s2)
    try:
        if how == "direct_sum":
            r = L.direct_sum(a, b)
        else:
            r = L.ReducedRep.from_irreps([a, b])
    except Exception:
        ctx.step()
        ctx.state(case)
        return
    ref.fail(f"{how} of {s1} and {s2} is {r!r}")


def many(ctx, case):
    """long sums: number of terms, not only size"""
    n, s = case
    L = reps.lie()
    r = reps.build(s)
    m = reps.model(s)
    for rep in (L.MulIrrep(n, r), L.ReducedRep.from_irreps([r] * n)):
        for got, one in ((rep.X, m.X), (rep.H, m.H)):
            expect(got.shape == (len(one), n * m.dim, n * m.dim), f"shape {got.shape}")
            for g, o in zip(got, one):
                g = g.reshape(n, m.dim, n, m.dim)
                for i in range(n):
                    ref.close(g[i, :, i], o, f"term {i} of {n}")
                    g[i, :, i] = 0
                expect(not np.any(g), "off-diagonal blocks")
        ctx.step(2)
    ctx.state(n, s)


def wrong_q(ctx, case):
    s, n = case
    L = reps.lie()
    r = reps.build(s)
    try:
        L.ReducedRep.from_irreps([r, r], np.eye(n))
    except Exception:
        ctx.state(case)
        ctx.step()
        return
    ref.fail("a change of basis of the wrong size was accepted")


def spaces(tier):
    q = tier == "quick"
    cases = []
    cap = 18 if q else 40
    cons = []
    for g, v in list(reps.SMALL.items()) + list(reps.GENERIC.items()) + [("SU2Real h", [["SU2Real", 0.5], ["SU2Real", 1]])]:
        irs = v[:3]
        if q and g in ("SU(4)", "SO13", "SU(2)"):
            irs = v[:2]
        for a in irs:
            for k in range(0, 5):
                cases.append(["mul", k, a])
                cases.append(["mul", k, ["gen", a]])
                cases.append(["mul", k, red_of(irs)])
        fs = (reps.forms(v, 1) if g in reps.SMALL else reps.generic_forms(v) + [["mul", 0, v[0]]])
        for a, b in itertools.product(fs, repeat=2):
            cases.append(["sum", a, b])
        for a, b, c in itertools.product(fs[:5 if q else 10], repeat=3):
            cases.append(["sum", ["sum", a, b], c])
            if not q:
                cases.append(["sum", a, ["sum", b, c]])
        muls = [0, 1, 2] if q else [0, 1, 2, 3]
        for n in (1, 2, 3):
            for terms in itertools.product(itertools.product(muls, irs[:2]), repeat=n):
                d = sum(k * reps.dim(s) for k, s in terms)
                if d > cap:
                    continue
                for qq in [None, "gen", "cgen", "phase", "sign", "clong"] if (n < 3 or not q) else [None, "cgen"]:
                    if d == 0 and qq:
                        continue
                    if d:
                        cases.append(["red", [["mul", k, s] for k, s in terms], qq])
                    ways = ["tuple", "mul", "tuple"][:n]
                    if n <= 2:
                        cons.append([[list(t) for t in terms], qq, ways])
                    if n <= 2 and all(k == 1 for k, _ in terms):
                        cons.append([[list(t) for t in terms], qq, ["rep"] * n])
    seen, uniq = set(), []
    for s in cases:
        if repr(s) not in seen and reps.dim(s) <= cap:
            seen.add(repr(s))
            uniq.append(s)
    mm = []
    for s1, s2 in [
        (["SU2", 1], ["SU3", [1, 0, 0]]), (["SO3", 1], ["SL2C", 1, 1]), (["gen", ["SU2", 1]], ["Z2", 1]),
        (["SL2C", 1, 1], ["SO13", 1, 1]), (["SO3", 1], ["O3", 1, 1]), (["O3", 1, 1], ["SO3", 1]), (["Z2", 1], ["Sn", "natural", 3]),
        (["Sn", "natural", 3], ["Z2", 1]), (["gen", ["O3", 1, 1]], ["gen", ["SO3", 1]]),
    ]:
        for how in ("direct_sum", "from_irreps"):
            mm.append([how, s1, s2])
    return [
        Space("containers", uniq, contained, "all sums, multiples and sums of multiples, with and without basis",
              f"dimension <= {cap}"),
        Space("constructor", cons, constructor, "from_irreps with terms written in every way"),
        Space("mismatch", mm, mismatch, "sums of representations of different groups are refused"),
        Space("many", [[n, s] for s in (["Z2", -1], ["O3", 0, -1], ["SU2", 0], ["cyc", 3, 1]) for n in (40, 300, 1500)]
              + [[n, s] for s in (["SU2", 1], ["Sn", "natural", 3], ["Sn", "standard", 4], ["pauli"], ["dih", 5, 1], ["o2", 2], ["prod", ["SU2", 1], ["dih", 3, 1]], ["O3", 1, -1])
                 for n in (8, 9, 10, 12, 16, 17, 20, 32, 33, 64, 70)],
              many, "sums and multiples with many terms"),
        Space("wrong_q", [[["SO3", 1], 3], [["SO3", 1], 7], [["SU2", 1], 2], [["Z2", 1], 1]], wrong_q,
              "changes of basis of the wrong size are refused"),
    ]


def red_of(irs):
    return ["red", [["mul", 1, s] for s in irs[:2]], None]
