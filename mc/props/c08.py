"""Tensor powers of every form of representation."""
from .. import ref, reps
from ..engine import Space
from ..ref import expect, same_rep

ASSUMPTIONS = ["SU(N) with N > 4 has no trivial irrep in the library, hence no powers (not claimed)"]


def power(ctx, case):
    n, s = case
    L = reps.lie()
    rep = reps.build(s)
    m = reps.model(s)
    r = L.tensor_power(rep, n)
    same_rep(r, m.power(n), f"power {n} of {s}", 1e-7)
    expect(r.H.shape[0] == m.H.shape[0] and r.X.shape[0] == m.X.shape[0], "number of generators")
    same_rep(rep, m, "operand afterwards", 1e-7)
    if n == 0:
        expect(r.dim == 1 and r.is_trivial(), "power zero is the trivial representation")
    ctx.step(2)
    ctx.state(n, s)


def recursive(ctx, case):
    """n-th power = tensor product of the (n-1)-th power and the representation"""
    n, s = case
    L = reps.lie()
    rep = reps.build(s)
    a = L.tensor_power(rep, n)
    b = L.tensor_product(L.tensor_power(rep, n - 1), rep)
    same_rep(a, ref.Dense.of(b), f"power {n} against power {n - 1}", 1e-7)
    ctx.step(2)
    ctx.state(n, s)


def spaces(tier):
    q = tier == "quick"
    cap = 130 if q else 300
    cases, rec = [], []
    fs = []
    for g, irs in reps.SMALL.items():
        fs += reps.forms(irs, 0 if q else 1)
    fs += [["gen", ["SU2Real", 0.5]]]
    for g, v in reps.GENERIC.items():
        fs += reps.generic_forms(v)
    for g, v in reps.families().items():
        fs += [["gen", s] for s in v if s[0] in reps.LEAVES]
    seen = set()
    for s in fs:
        if repr(s) in seen:
            continue
        seen.add(repr(s))
        d = reps.dim(s)
        for n in range(0, 9 if q else 12):
            slow = "SO13" in repr(s) or "SU4" in repr(s)
            if "['mul', 0" in repr(s) and n > (2 if slow or "SU3" in repr(s) else 4):
                break  # absent irreps pile up in the products
            if d == 0 or d**n > (64 if slow and q else cap):
                break
            if n > 5 and d == 1 and q and n != 8:
                continue
            cases.append([n, s])
            if n >= 1 and d**n <= (40 if q else 100):
                rec.append([n, s])
    return [
        Space("powers", cases, power, "all exponents, all forms", f"dimension of the power <= {cap}"),
        Space("recursion", rec, recursive, "power n = power n-1 times the representation"),
    ]
