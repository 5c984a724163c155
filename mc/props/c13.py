"""Reduction into irreps, under every enumerated seed of the random stream."""
import itertools
from collections import Counter

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, close, expect, same_rep

ASSUMPTIONS = [
    "the algorithm draws a random element of the commutant from numpy's global generator; it is run under each of the "
    "enumerated seeds, not under all random streams",
    "representations are reduced over the complex numbers; bases of condition number at most 8",
]


def decomposition(ctx, r, m, what):
    """r = ReducedRep: irreducible, pairwise inequivalent blocks that assemble to the model"""
    L = reps.lie()
    expect(isinstance(r, L.ReducedRep), f"{what}: {type(r).__name__}")
    same_rep(r, m, what, 1e-6)
    blocks = [(x.mul, Dense.of(x.rep)) for x in r.irreps]
    for k, b in blocks:
        expect(k >= 1, f"{what}: multiplicity {k}")
        n = ref.commutant_dim(b, b)
        expect(n == 1, f"{what}: a block of dimension {b.dim} has a commutant of dimension {n}")
    for (k1, b1), (k2, b2) in itertools.combinations(blocks, 2):
        if b1.dim == b2.dim:
            expect(ref.commutant_dim(b1, b2) == 0, f"{what}: two blocks are equivalent")
    for k, x in enumerate(r.irreps):
        b = blocks[k][1]
        trivial = b.dim == 1 and not np.any(np.abs(b.X) > 1e-6) and not np.any(np.abs(b.H - 1) > 1e-6)
        expect(bool(x.rep.is_trivial()) == trivial, f"{what}: is_trivial() of a block of dimension {b.dim} is {x.rep.is_trivial()}")
    n = ref.commutant_dim(m, m)
    expect(sum(k * k for k, _ in blocks) == n, lambda: f"{what}: multiplicities {[k for k, _ in blocks]} for a commutant of dimension {n}")
    expect(sum(k * b.dim for k, b in blocks) == m.dim, f"{what}: dimensions")
    ctx.step(4)
    return Counter((b.dim, k) for k, b in blocks)


def generic(ctx, case):
    s, seeds = case
    L = reps.lie()
    m = reps.model(s)
    ref_blocks = None
    for seed in seeds:
        rep = reps.build(s)
        np.random.seed(seed)
        r = L.reduce(rep)
        b = decomposition(ctx, r, m, f"seed {seed}")
        same_rep(rep, m, "argument afterwards", 1e-7)
        expect(ref_blocks in (None, b), f"seed {seed}: blocks {b} instead of {ref_blocks}")
        ref_blocks = b
        same_rep(r.create_trivial(), m.trivial(), "trivial representation", 1e-8)
        again = L.reduce(r)
        same_rep(again, Dense.of(r), "reducing twice", 1e-9)
        expect([(x.mul, x.rep) for x in again.irreps] is not None and len(again.irreps) == len(r.irreps), "reducing twice changes the blocks")
        ctx.step()
        ctx.state(s, seed)
    known = expected(s)
    if known is not None:
        expect(ref_blocks == known, f"blocks {ref_blocks} instead of {known}")


def expected(s):
    """blocks of a spec made of tabulated irreps (dimension, multiplicity)"""
    try:
        lab = tabulated(s)
    except (ValueError, KeyError):
        return None
    import ast

    return Counter((reps.dim(ast.literal_eval(k)), n) for k, n in lab.items() if n)


def tabulated(s):
    if s[0] == "gen":
        return tabulated(s[1])
    if s[0] == "cb":
        return tabulated(s[2])
    if s[0] == "tp":
        return reps.product_of(tabulated(s[1]), tabulated(s[2]))
    if "SU2Real" in repr(s) and ".5" in repr(s):
        raise ValueError
    return reps.decompose(s)


def decomposed(ctx, case):
    """already decomposed representations come back unchanged"""
    s = case
    L = reps.lie()
    rep, m = reps.build(s), reps.model(s)
    r = L.reduce(rep)
    expect(isinstance(r, L.ReducedRep), type(r).__name__)
    same_rep(r, m, repr(s), 1e-8)
    if s[0] == "mul":
        expect([(x.mul, x.rep) for x in r.irreps] == [(rep.mul, rep.rep)], "the multiple is kept")
    else:
        expect([(x.mul, x.rep) for x in r.irreps] == [(x.mul, x.rep) for x in rep.irreps], "the decomposition is kept")
    ctx.step(2)
    ctx.state(s)


def palette(tier):
    q = tier == "quick"
    out = []
    kinds = [None, "rot", "unit", "gen", "cgen"]
    wrap = lambda k, s: ["gen", s] if k is None else ["cb", k, ["gen", s]]
    cap = 12 if q else 16
    for g, v in reps.families().items():
        if g in ("SU4", "SO13") and q:
            v = v[:3]
        for s in v:
            if reps.dim(s) <= cap:
                out += [wrap(k, s) for k in kinds + (ref.COND_BASES if q else ref.COND_BASES + ref.ODD_BASES)]
    S = reps.SMALL
    sums = []
    for g, irs in S.items():
        a, b = irs[0], irs[1] if len(irs) > 1 else irs[0]
        sums += [reps.red((3, a)), reps.red((2, a), (1, b), (1, a)), reps.red((1, b), (2, a), (2, b)), ["tp", ["gen", a], ["gen", b]], ["tp", ["gen", a], ["gen", a]]]
    for g, v in reps.GENERIC.items():
        a, b = v[0], v[-1]
        sums += [["sum", a, b], ["sum", ["sum", a, a], a], ["tp", a, a], ["tp", a, b], ["sum", a, ["triv", a]]]
    for s in sums:
        if reps.dim(s) <= cap:
            out += [wrap(k, s) for k in (kinds if not q else [None, "gen", "cgen"])]
    return out


def spaces(tier):
    q = tier == "quick"
    seeds = list(range(12 if q else 80))
    dec = []
    for g, irs in reps.SMALL.items():
        dec += [f for f in reps.forms(irs, 1) if f[0] in ("mul", "red", "cb") and reps.is_decomposed(f)]
    return [
        Space("generic", [[s, seeds] for s in palette(tier)], generic, "palette of representations x bases x seeds",
              f"seeds 0..{len(seeds) - 1}"),
        Space("decomposed", dec, decomposed, "decomposed forms are unchanged"),
    ]
