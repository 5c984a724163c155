"""Tensor products of every ordered pair of forms against the Kronecker product."""
from collections import Counter

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, expect, same_rep

ASSUMPTIONS = [
    "products of half-integer irreps of the real form of SU(2) in tabulated form are not claimed "
    "(the library has no table for them)",
    "the matrices of the leaves are those of the implementation (decided by C01, C02)",
]


def labels(rep):
    return +Counter({repr(reps.spec_of(m.rep)): 0 for m in rep.irreps}) + sum(
        (Counter({repr(reps.spec_of(m.rep)): m.mul}) for m in rep.irreps), Counter()
    )


def model_of(spec):
    """like reps.model, but takes the matrices of a reduced generic form from the implementation"""
    return reps.model(spec)


def pair(ctx, case):
    s1, s2 = case
    L = reps.lie()
    a, b = reps.build(s1), reps.build(s2)
    want = reps.model(s1).tensor(reps.model(s2))
    r = L.tensor_product(a, b)
    same_rep(r, want, f"{s1} x {s2}", 1e-7)
    ctx.step()
    if reps.is_decomposed(s1) and reps.is_decomposed(s2):
        expect(isinstance(r, L.ReducedRep), f"{type(r).__name__} instead of a decomposed representation")
        got = labels(r)
        exp = reps.product_of(reps.decompose(s1), reps.decompose(s2))
        expect(got == exp, lambda: f"decomposition {dict(got)} instead of {dict(exp)}")
        expect(all(m.mul >= 0 for m in r.irreps), "multiplicities")
        same_rep(r.create_trivial(), want.trivial(), "trivial representation of the product")
        ctx.step(2)
    # the operands are still what they were
    same_rep(a, reps.model(s1), "first operand afterwards", 1e-7)
    same_rep(b, reps.model(s2), "second operand afterwards", 1e-7)
    ctx.step(2)
    ctx.state(s1, s2)


def mismatch(ctx, case):
    """different Lie algebras have no tensor product"""
    s1, s2 = case
    L = reps.lie()
    try:
        r = L.tensor_product(reps.build(s1), reps.build(s2))
    except Exception:
        ctx.state(s1, s2)
        ctx.step()
        return
    ref.fail(f"tensor product of {s1} and {s2} is {r!r}")


def spaces(tier):
    q = tier == "quick"
    cases = []
    cap = 100 if q else 260
    for g, irs in reps.SMALL.items():
        fs = reps.forms(irs, 0 if q else 1)
        if g == "SU2Real":
            fs = fs + [["gen", ["SU2Real", 0.5]], ["cb", "gen", ["gen", ["SU2Real", 1.5]]]]
        for a in fs:
            for b in fs:
                d = reps.dim(a) * reps.dim(b)
                if d == 0 or d > cap or (q and g in ("SO13", "SU(4)") and d > 40):
                    continue
                if not reps.is_decomposed(a) and not reps.is_decomposed(b) and d > 64:
                    continue
                cases.append([a, b])
    gen = []
    for g, v in reps.GENERIC.items():
        fs = reps.generic_forms(v)
        for a in fs:
            for b in fs:
                if reps.dim(a) * reps.dim(b) <= cap:
                    gen.append([a, b])
    odd = []
    trivial = {"SU2": ["SU2", 0], "SU2Real": ["SU2Real", 0], "SO3": ["SO3", 0], "O3": ["O3", 0, 1], "SL2C": ["SL2C", 0, 0], "SO13": ["SO13", 0, 0],
               "SU(2)": ["SU2_", [0, 0]], "SU(3)": ["SU3", [0, 0, 0]], "SU(4)": ["SU4", [0, 0, 0, 0]], "Z2": ["Z2", 1]}
    for g, irs in reps.SMALL.items():
        t, a = trivial[g], irs[0]
        fs = [t, a, ["mul", 2, t]]
        for k in ref.ODD_BASES + ["unit", "ccond8", "clong"]:
            fs += [["red", [t], k], ["red", [["mul", 2, t]], k], ["red", [t, a], k], ["red", [["mul", 2, a]], k], ["red", [a], k]]
        slow = g in ("SO13", "SU(3)", "SU(4)", "SL2C")
        for x in fs:
            for y in fs if not q else fs[:3] + [f for f in fs[3:] if f[2] in ("sign", x[2] if x[0] == "red" else "phase")]:
                if reps.dim(x) * reps.dim(y) <= (16 if slow else 24) * (1 if q else 3):
                    odd.append([x, y])
    # irreps that appear several times in a product, or have several weights in common
    inner = []
    A3, S3 = ["SU3", [2, 1, 0]], ["SU3", [2, 0, 0]]
    pairs = [(A3, A3), (A3, S3), (S3, A3), (A3, ["SU3", [2, 2, 0]]), (["SU4", [2, 1, 1, 0]], ["SU4", [1, 0, 0, 0]])]
    if not q:
        pairs += [(["SU3", [3, 1, 0]], A3), (A3, ["SU3", [3, 1, 0]]), (["SU3", [3, 0, 0]], A3), (["SU4", [2, 1, 1, 0]], ["SU4", [2, 1, 1, 0]])]
    for a, b in pairs:
        da, db = reps.dim(a), reps.dim(b)
        inner += [[a, b]]
        if da * db <= 80 or not q:
            inner += [[["mul", 2, a], b], [a, ["mul", 2, b]], [["gen", a], b], [["cb", "gen", a], b], [["red", [a], "rot"], b], [a, ["red", [["mul", 1, b]], "cgen"]],
                      [["red", [["SU3", [0, 0, 0]], a], "gen"], b] if a[0] == "SU3" else [["red", [a], "tri"], b]]
        if da * db <= 64:
            inner += [[["mul", 2, a], ["mul", 2, b]], [["mul", 3, a], b], [["red", [a, a], "cgen"], ["mul", 2, b]]]
    mm = [
        [["SU2", 1], ["SU3", [1, 0, 0]]], [["gen", ["SU2", 1]], ["SU3", [1, 0, 0]]], [["SO3", 1], ["Z2", -1]],
        [["mul", 2, ["SU2", 1]], ["mul", 2, ["SL2C", 1, 0]]], [["gen", ["SO3", 1]], ["gen", ["O3", 1, 1]]],
        [["Sn", "natural", 3], ["Z2", 1]],
    ]
    return [
        Space("forms", cases, pair, "all ordered pairs of forms of representations made of tabulated irreps",
              f"{len(reps.forms(reps.SMALL['SU2'], 0 if q else 1))} forms per group, product of dimensions <= {cap}"),
        Space("generic", gen, pair, "all ordered pairs of forms of finite groups, U(1), O(2) and products of groups"),
        Space("inner", inner, pair, "products of irreps of SU(3) and SU(4) with repeated factors, and multiples of them", f"{len(pairs)} pairs of irreps"),
        Space("odd", odd, pair, "decomposed operands in bases that pass for others: diagonal signs and phases, scalings, exchanges, determinant or norm one, nearly the identity",
              f"{len(ref.ODD_BASES)} bases"),
        Space("mismatch", mm, mismatch, "operands of different groups are refused"),
    ]
