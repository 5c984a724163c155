"""Symmetric powers."""
import itertools
from collections import Counter
from math import comb

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import expect
from .c16 import check_basis, closure

ASSUMPTIONS = [
    "sums of tabulated irreps (the interface takes no other form); order at least one",
]


def group_of(n):
    return frozenset((1, p) for p in itertools.permutations(range(n)))


def power(ctx, case):
    n, s = case
    L = reps.lie()
    rep, m = reps.build(s), reps.model(s)
    out = L.reduced_symmetric_tensor_product_basis(rep, n)
    check_basis(out, [m] * n, group_of(n), f"order {n} of {s}", comb(m.dim + n - 1, n))
    want = multiplicities(s, n)
    if want is not None:
        got = Counter()
        for x in out.rep.irreps:
            lab = reps.spec_of(x.rep)
            if lab[0] == "SU2Real":
                lab[1] = float(lab[1])
            got[repr(lab)] += x.mul
        expect(+got == want, lambda: f"order {n} of {s}: {+got} instead of {want}")
        ctx.step()
    ref.same_rep(rep, m, "argument afterwards")
    ctx.step(2)
    ctx.state(n, s)


def same_as_formula(ctx, case):
    """the same tensors as with the formula that spells the symmetry"""
    n, s = case
    L = reps.lie()
    rep = reps.build(s)
    a = L.reduced_symmetric_tensor_product_basis(rep, n)
    letters = "ijklm"[:n]
    f = "=".join([letters] + [letters[:k] + letters[k + 1] + letters[k] + letters[k + 2 :] for k in range(n - 1)])
    b = L.reduced_tensor_product_basis(f, i=rep)
    d = a.array.shape[-1]
    expect(a.array.shape == b.array.shape, f"{f}: {b.array.shape} and {a.array.shape}")
    if a.array.size:
        ref.same_span(b.array.reshape(-1, d).T, a.array.reshape(-1, d).T, f"order {n} against {f}")
    ctx.step(2)
    ctx.state(n, s)


# ------------------------------------------------------------ exact multiplicities


def weights(s):
    """(kind, Counter of weights) of a decomposed spec, None if the group has no exact model"""
    import ast

    tot, kind = Counter(), None
    for t, mult in reps.decompose(s).items():
        ir = ast.literal_eval(t)
        if ir[0] in ("SU2", "SU2Real", "SO3"):
            j = int(ir[1] * {"SU2": 1, "SU2Real": 2, "SO3": 2}[ir[0]])
            k, c = ir[0], Counter({(w, 1): 1 for w in range(-j, j + 1, 2)})
        elif ir[0] == "O3":
            k, c = "O3", Counter({(w, ir[2]): 1 for w in range(-2 * ir[1], 2 * ir[1] + 1, 2)})
        elif ir[0] in ("SL2C", "SO13"):
            k = ir[0]
            c = Counter(itertools.product(range(-ir[1], ir[1] + 1, 2), range(-ir[2], ir[2] + 1, 2)))
        elif ir[0] == "Z2":
            k, c = "Z2", Counter({(ir[1],): 1})
        else:
            k, c = ir[0], Counter(dict(ref.su_char(tuple(ir[1]))))
        kind = k
        for w, x in c.items():
            tot[w] += mult * x
    return kind, tot


def add(kind, ws):
    if kind == "O3":
        return sum(w[0] for w in ws), int(np.prod([w[1] for w in ws]))
    if kind == "Z2":
        return (int(np.prod([w[0] for w in ws])),)
    if kind in ("SU2", "SU2Real", "SO3"):
        return sum(w[0] for w in ws), 1
    return tuple(sum(c) for c in zip(*ws))


def multiplicities(s, n):
    kind, w = weights(s)
    lst = sorted(w.elements())
    if comb(len(lst) + n - 1, n) > 5000:
        return None
    c = Counter(add(kind, ws) for ws in itertools.combinations_with_replacement(lst, n))
    res = Counter()
    if kind == "Z2":
        return Counter({repr(["Z2", p]): m for (p,), m in c.items()})
    while True:
        c = +c
        if not c:
            return res
        if kind in ("SU2", "SU2Real", "SO3"):
            top = max(c)
            j = top[0]
            lab = [kind, {"SU2": j, "SU2Real": j / 2, "SO3": j // 2}[kind]]
            ch = Counter({(x, 1): 1 for x in range(-j, j + 1, 2)})
        elif kind == "O3":
            top = max(c)
            j = top[0]
            lab = ["O3", j // 2, top[1]]
            ch = Counter({(x, top[1]): 1 for x in range(-j, j + 1, 2)})
        elif kind in ("SL2C", "SO13"):
            top = max(c)
            lab = [kind, top[0], top[1]]
            ch = Counter(itertools.product(range(-top[0], top[0] + 1, 2), range(-top[1], top[1] + 1, 2)))
        else:
            # dominant weights first: highest weight = largest for the dominance order
            rank = len(next(iter(c)))
            top = max(c, key=lambda x: (sum((rank - 1 - 2 * i) * v for i, v in enumerate(x)), x))
            lab = [kind, list(top)]
            ch = ref.su_char(top)
        m = c[top]
        res[repr(lab)] += m
        for x, k in ch.items():
            c[x] -= m * k
            assert c[x] >= 0, (s, n, top)


def spaces(tier):
    q = tier == "quick"
    cases, same = [], []
    for g, irs in reps.SMALL.items():
        fs = irs + [["mul", 2, irs[0]], reps.red((1, irs[-1]), (2, irs[0]), q="cgen"), ["cb", "rot", irs[0]],
                    reps.red((1, irs[0]), (1, irs[-1])), reps.red((0, irs[0]), (1, irs[-1])), reps.red((1, irs[0]), (1, irs[-1]), (1, irs[0]), q="gen"),
                    ["mul", 3, irs[0]], ["red", [irs[0]], "tri"], ["mul", 0, irs[0]]]
        if g == "SO3":
            fs += [["SO3", 3], ["SO3", 4]]
        if g == "Z2":
            fs += [reps.red((2, irs[0]), (2, irs[1]), q="rot"), ["mul", 4, irs[0]]]
        for s in fs:
            d = reps.dim(s)
            slow = g in ("SU(4)", "SO13", "SL2C", "SU(3)")
            for n in range(1, 9):
                if n > 6 and q:
                    break
                if "['mul', 0" in repr(s) and n > (2 if d else 4):
                    break
                if d**n > ((70 if slow else 260) if q else (260 if slow else 1100)) and not (n == 1):
                    break
                cases.append([n, s])
                if n > 1 and n <= 5:
                    same.append([n, s])
    return [
        Space("powers", cases, power, "all orders and forms", "dimension of the power <= 260 (quick), 1100 (thorough)"),
        Space("formula", same, same_as_formula, "same tensors as the formula with all transpositions"),
    ]
