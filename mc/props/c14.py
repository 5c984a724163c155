"""is_irreducible against the independently computed commutant."""
import itertools

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import expect, same_rep

ASSUMPTIONS = ["representations with at least one generator, in bases of condition number at most 8"]


def decide(ctx, case):
    s = case
    L = reps.lie()
    rep, m = reps.build(s), reps.model(s)
    n = ref.commutant_dim(m, m)
    got = L.is_irreducible(rep)
    expect(bool(got) == (n == 1), f"is_irreducible = {got}, commutant of dimension {n}")
    same_rep(rep, m, "argument afterwards", 1e-7)
    ctx.step()
    ctx.state(s)


def matrices(ctx, case):
    """finite sets of small matrices given as they are, completely reducible or not"""
    d, ms = case
    L = reps.lie()
    H = np.array([[[complex(*x) if isinstance(x, list) else x for x in row] for row in m] for m in ms])
    if not np.iscomplexobj(H):
        H = H.astype(float)
    rep = L.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, d, d)), H)
    m = ref.Dense(rep.A, rep.X, rep.H)
    n = ref.commutant_dim(m, m)
    got = L.is_irreducible(rep)
    expect(bool(got) == (n == 1), f"is_irreducible = {got}, commutant of dimension {n}")
    rep2 = L.GenericRep(np.zeros((len(ms),) * 3), H, np.zeros((0, d, d)))
    got = L.is_irreducible(rep2)
    expect(bool(got) == (n == 1), f"as continuous generators: is_irreducible = {got}, commutant of dimension {n}")
    ctx.step(2)
    ctx.state(case)


def scaled(ctx, case):
    """the same representation with another unit of the Lie algebra"""
    s, x = case
    L = reps.lie()
    m = reps.model(s)
    m = ref.Dense(m.A * x, m.X * x, m.H)
    rep = L.GenericRep(m.A, m.X, m.H)
    n = ref.commutant_dim(reps.model(s), reps.model(s))
    got = L.is_irreducible(rep)
    expect(bool(got) == (n == 1), f"generators times {x}: is_irreducible = {got}, commutant of dimension {n}")
    ctx.step()
    ctx.state(case)


def weak(ctx, case):
    """an irreducible representation that is close to a reducible one, or exactly reducible (t = 0)"""
    d, kind, t, lie = case
    L = reps.lie()
    z = np.exp(2j * np.pi * np.arange(d) / d) if d > 2 else np.array([1.0, -1.0])
    K = np.zeros((d, d), dtype=complex)
    for i in range(d - 1):
        K[i, i + 1], K[i + 1, i] = {"real": (-t, t), "imag": (1j * t, 1j * t), "mixed": (t * (1 + 1j), t * (-1 + 1j))}[kind]
    import scipy.linalg

    ms = np.array([np.diag(z), K if lie else scipy.linalg.expm(K)])
    if np.all(ms.imag == 0):
        ms = ms.real
    o = np.zeros((0, d, d))
    rep = L.GenericRep(np.zeros((2,) * 3), ms, o) if lie else L.GenericRep(np.zeros((0,) * 3), o, ms)
    got = L.is_irreducible(rep)
    expect(bool(got) == (t != 0), f"coupling {t} ({kind}): is_irreducible = {got}")
    ctx.step()
    ctx.state(case)


def large(ctx, case):
    """irreps, sums and products of irreps of larger dimension: the labels tell the commutant"""
    s, k = case
    L = reps.lie()
    core = s
    while core[0] in ("gen", "conj"):
        core = core[1]
    n = sum(x * x for x in (reps.product_of(*(reps.decompose(x[1]) for x in core[1:])) if core[0] == "tp" else reps.decompose(core)).values())
    rep = L.GenericRep.from_rep(reps.build(s))
    if k:
        rep = L.change_basis(rep, ref.basis(k, rep.dim))
    got = L.is_irreducible(rep)
    expect(bool(got) == (n == 1), f"is_irreducible = {got}, commutant of dimension {n}")
    ctx.step()
    ctx.state(case)


def large_cases(q):
    cap = 22 if q else 40
    irs = {
        "SU2": [["SU2", j] for j in range(8, 40)],
        "SO3": [["SO3", l] for l in range(4, 20)],
        "SU2Real": [["SU2Real", l] for l in range(0, 20)],
        "O3": [["O3", l, p] for l in range(5, 20) for p in (1, -1)],
        "SL2C": [["SL2C", a, b] for a in range(6) for b in range(6)] + [["SL2C", a, 0] for a in range(8, 20)],
        "SU3": [["SU3", [a, b, 0]] for a in range(7) for b in range(a + 1)],
        "SU4": [["SU4", [a, b, c, 0]] for a in range(4) for b in range(a + 1) for c in range(b + 1)],
        "SO13": [["SO13", 2, 0], ["SO13", 2, 2], ["SO13", 1, 3]],
    }
    specs = []
    for g, v in irs.items():
        ok = [s for s in v if 8 < reps.dim(s) <= cap]
        specs += ok
        specs += [["conj", s] for s in ok]
        small = [s for s in v if 1 < reps.dim(s) <= 12] + {"SU2": [["SU2", 3]], "SO3": [["SO3", 2]], "O3": [["O3", 2, -1]]}.get(g, [])
        for a, b in itertools.combinations_with_replacement(small, 2):
            if 8 < reps.dim(a) + reps.dim(b) <= cap:
                specs.append(reps.red((1, a), (1, b)))
            if 8 < reps.dim(a) * reps.dim(b) <= cap:
                specs.append(["tp", ["gen", a], ["gen", b]])
    return [[s, k] for s in specs for k in (None, "perm", "rot", "cgen", "ccond8")[:: 2 if q else 1]]


def spaces(tier):
    q = tier == "quick"
    kinds = [None] + ref.REAL_BASES + ref.CPLX_BASES + ref.ODD_BASES + ref.COND_BASES
    cases = []
    cap = 8 if q else 13
    specs = [s for v in reps.families().values() for s in v]
    specs += [f for v in reps.GENERIC.values() for f in reps.generic_forms(v)]
    for g, irs in reps.SMALL.items():
        specs += reps.forms(irs, 1)
    specs += [["Sn", k, n] for n in range(2, 9) for k in ("standard", "natural", "trivial")]
    specs += [["dih", n, k] for n in range(3, 9) for k in range(0, n)]
    specs += [["prod", a, b] for a, b in itertools.product(
        [["SU2", 1], ["SO3", 1], ["Z2", -1], ["Sn", "standard", 3], ["Sn", "natural", 3], ["pauli"], ["o2", 1], ["so2", 1]], repeat=2)]
    specs += [["tp", a, b] for v in reps.GENERIC.values() for a in v for b in v]
    specs += [["tp", ["pauli"], ["pauli"]], ["tp", ["dih", 5, 1], ["dih", 5, 2]], ["tp", ["o2", 1], ["o2", 2]]]
    seen = set()
    for s in specs:
        d = reps.dim(s)
        if d > cap:
            continue
        for k in kinds if d else [None]:
            t = s if k is None else ["cb", k, s]
            if repr(t) not in seen:
                seen.add(repr(t))
                cases.append(t)
    mats = []
    vals = [0, 1, -1]
    all2 = [[[a, b], [c, e]] for a, b, c, e in itertools.product(vals, repeat=4)]
    for x in all2:
        mats.append([2, [x]])
    for x, y in itertools.combinations(all2, 2):
        mats.append([2, [x, y]])
    cplx = [[[1, 0], [0, [0, 1]]], [[0, [0, 1]], [1, 0]], [[[0, 1], 0], [0, [0, -1]]], [[1, 1], [0, 1]]]
    full = lambda m: [[x if isinstance(x, list) else [x, 0] for x in r] for r in m]
    for n in (1, 2, 3):
        for c in itertools.combinations(cplx, n):
            mats.append([2, [full(m) for m in c]])
    perms = [list(p) for p in itertools.permutations(range(3))]
    pm = lambda p: [[int(p[j] == i) for j in range(3)] for i in range(3)]
    el = [[[int((i, j) == (a, b)) for j in range(3)] for i in range(3)] for a in range(3) for b in range(3)]
    pool = [pm(p) for p in perms] + el + [[[1, 0, 0], [0, -1, 0], [0, 0, 0]]]
    for n in (1, 2, 3) if not q else (1, 2):
        for c in itertools.combinations(pool, n):
            mats.append([3, list(c)])
    units = [1e-3, 1e-2, 0.1, 0.5, 3.0, 20.0]
    lie = [t for t in cases if t[0] != "cb" and len(reps.model(t).X) and reps.dim(t) <= 6]
    lie += [["cb", k, t] for t in lie[:30] if t[0] != "cb" for k in ("rot", "cgen")]
    sc = [[t, x] for t in lie for x in units]
    wk = [[d, k, t, l] for d in (2, 3, 4) for k in ("real", "imag", "mixed") for t in (0, 1e-3, 1e-2, 0.05, 0.1, 0.3) for l in (False, True)]
    return [
        Space("units", sc, scaled, "continuous representations with their generators in other units", "units 1e-3 to 20, dimension <= 6"),
        Space("weak", wk, weak, "representations close to reducible ones", "coupling 1e-3 to 0.3"),
        Space("large", large_cases(q), large, "irreps, their conjugates, sums and products of irreps of larger dimension", "dimension 9 to 22 (thorough: 40)"),
        Space("palette", cases, decide, "palette of representations in all bases", f"dimension <= {cap}"),
        Space("matrices", mats, matrices, "all sets of one or two 2x2 matrices over {-1,0,1} and sets of elementary 3x3 matrices"),
    ]
