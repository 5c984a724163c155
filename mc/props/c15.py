"""Self-conjugacy, real forms and unitarity."""
import itertools

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, close, expect, same_rep

ASSUMPTIONS = [
    "make_explicitly_real is claimed for irreps (over the complex numbers) given in a unitary basis",
    "completely reducible representations, bases of condition number at most 8",
]


def wrap(L, s, k):
    """basis k of a spec: named well conditioned bases, and unitary bases with special phases"""
    rep, m = reps.build(s), reps.model(s)
    d = m.dim
    if k is None:
        return rep, m
    if k.startswith("phase") and k != "phase":
        Q = np.diag(np.exp(1j * np.pi * np.arange(d) / int(k[5:])))
    elif k == "reflect":
        Q = (np.eye(d) - 2.0 / d) * 1j
    elif k.startswith("unit"):
        Q = ref.basis("unit", d, int(k[4:] or 0))
    else:
        Q = ref.basis(k, d)
    return L.change_basis(rep, Q), m.change_basis(Q)


def conj_type(m):
    """'real', 'complex' or 'quaternionic' for an irrep, by its antilinear intertwiner"""
    S = ref.intertwiners(m, m.conjugate())
    if len(S) == 0:
        return "complex"
    S = S[0]
    c = S.conj() @ S
    return "real" if c[0, 0].real > 0 else "quaternionic"


def real(ctx, case):
    s, k = case
    L = reps.lie()
    rep, m = wrap(L, s, k)
    n, c = ref.commutant_dim(m, m.conjugate()), ref.commutant_dim(m, m)
    want = n == c
    got = L.is_real(rep)
    expect(bool(got) == want, f"is_real = {got}; {n} intertwiners with the conjugate, commutant of dimension {c}")
    same_rep(rep, m, "argument afterwards", 1e-7)
    ctx.step()
    ctx.state(case)


def explicit(ctx, case):
    s, k = case
    L = reps.lie()
    rep, m = wrap(L, s, k)
    t = conj_type(m)
    try:
        r = L.make_explicitly_real(rep)
    except Exception as e:
        expect(t != "real", f"a representation of real type was refused: {e!r}")
        ctx.step()
        ctx.state(case, t)
        return
    expect(t == "real", f"a representation of {t} type was declared real")
    X, H = r.X, r.H
    expect(np.max(np.abs(np.imag(X)), initial=0) < 1e-9 and np.max(np.abs(np.imag(H)), initial=0) < 1e-9, "matrices are not real")
    close(r.A, m.A, "structure constants")
    expect(r.dim == m.dim, "dimension")
    expect(len(r.X) == len(m.X) and len(r.H) == len(m.H), "number of generators")
    n = ref.commutant_dim(Dense.of(r), m)
    expect(n == 1, f"{n} intertwiners with the representation given")
    same_rep(rep, m, "argument afterwards", 1e-7)
    ctx.step(3)
    ctx.state(case, t)


def unitary(ctx, case):
    s, k = case
    L = reps.lie()
    rep, m = wrap(L, s, k)
    dx = max([np.max(np.abs(x + x.conj().T)) for x in m.X], default=0)
    dh = max([np.max(np.abs(h @ h.conj().T - np.eye(m.dim))) for h in m.H], default=0)
    if 1e-14 < max(dx, dh) < 1e-6:
        return  # rounding errors of the harness' own change of basis
    want = max(dx, dh) <= 1e-14
    got = L.is_unitary(rep)
    expect(bool(got) == want, f"is_unitary = {got}; anti-hermitian up to {dx:.2g}, unitary up to {dh:.2g}")
    ctx.step()
    ctx.state(case)


def faults(ctx, case):
    """one entry of one generator changed"""
    s, which, g, i, j, v = case
    L = reps.lie()
    m = reps.model(s)
    X, H = m.X.copy(), m.H.copy()
    v = complex(*v)
    (X if which == "X" else H)[g, i, j] += v
    dx = max([np.max(np.abs(x + x.conj().T)) for x in X], default=0)
    dh = max([np.max(np.abs(h @ h.conj().T - np.eye(m.dim))) for h in H], default=0)
    want = max(dx, dh) <= 1e-13
    if 1e-14 < max(dx, dh) < 1e-6:
        return
    got = L.is_unitary(L.GenericRep(m.A, X, H))
    expect(bool(got) == want, f"is_unitary = {got}; anti-hermitian up to {dx:.2g}, unitary up to {dh:.2g}")
    ctx.step()
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    irreps = [["SU2", j] for j in range(9 if q else 13)] + [["SO3", l] for l in range(5 if q else 7)]
    irreps += [["O3", l, p] for l in range(4) for p in (1, -1)] + [["SU2Real", l] for l in range(4)]
    irreps += reps.sl2c(4 if q else 6)
    irreps += [["SU3", S] for S in ([0, 0, 0], [1, 0, 0], [1, 1, 0], [2, 1, 0], [2, 0, 0])] + [["SU2_", [j, 0]] for j in range(6)]
    irreps += [["SU4", S] for S in ([1, 0, 0, 0], [1, 1, 0, 0], [1, 1, 1, 0])] + ([] if q else [["SU4", [2, 1, 1, 0]], ["SU4", [2, 2, 0, 0]], ["SU3", [4, 2, 0]], ["SUN", [1, 1, 0, 0, 0]], ["SUN", [1, 1, 1, 0, 0, 0]]])
    irreps += [["Z2", 1], ["Z2", -1], ["pauli"], ["so2", 0]][:3] + [["cyc", n, k] for n in range(1, 7) for k in range(n)]
    irreps += [["dih", n, k] for n in range(3, 8) for k in range(1, n) if 2 * k != n] + [["Sn", "standard", n] for n in range(2, 7)] + [["o2", 1], ["o2", 2]]
    irreps += [["tp", ["pauli"], ["cyc", 1, 0]]][:0]
    prods = [["prod", a, b] for a, b in itertools.product([["SU2", 1], ["SU2", 2], ["pauli"], ["cyc", 3, 1], ["Z2", -1], ["SU3", [1, 0, 0]]], repeat=2)]
    prods = [p for p in prods if reps.dim(p) <= 6]
    unitary_bases = [None, "perm", "rot", "unit", "unit1", "phase3", "phase2", "phase1", "reflect"] + ([] if q else [f"unit{i}" for i in range(2, 8)] + ["phase4", "phase5"])
    expl = [[s, k] for s in irreps + prods for k in unitary_bases]
    allb = [None, "perm", "tri", "diag", "rot", "gen", "unit", "cgen"]
    sums = [s for v in reps.families().values() for s in v if reps.dim(s) <= 6]
    sums += [f for v in reps.GENERIC.values() for f in reps.generic_forms(v) if reps.dim(f) <= 6]
    c = lambda n, k: ["cyc", n, k]
    sums += [["sum", c(3, a), c(3, b)] for a in range(3) for b in range(3)] + [["sum", ["sum", c(4, a), c(4, b)], c(4, d)] for a in range(4) for b in range(4) for d in range(4)]
    sums += [["u1", list(t)] for n in (1, 2, 3) for t in itertools.product((-2, -1, 0, 1, 2), repeat=n)]
    sums += [["sum", ["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]]], ["sum", ["SU3", [1, 0, 0]], ["SU3", [0, 0, 0]]], ["sum", ["pauli"], ["triv", ["pauli"]]]]
    isr = [[s, k] for s in irreps + prods for k in (allb if not q else [None, "gen", "cgen", "unit"]) if reps.dim(s) <= (9 if q else 12)]
    isr += [[s, k] for s in sums for k in ([None, "cgen"] if q else allb)]
    isr += [[s, k] for s in irreps + prods + sums for k in ref.COND_BASES + ref.ODD_BASES if reps.dim(s) <= (4 if q else 9)]
    uni = [[s, k] for s in irreps + prods + sums for k in allb]
    uni += [[s, k] for s in reps.so13(4) for k in allb]
    flt = []
    for s in [["SU2", 1], ["SO3", 1], ["O3", 1, -1], ["Z2", -1], ["Sn", "natural", 3], ["pauli"], ["SU3", [1, 0, 0]], ["o2", 1], ["prod", ["SU2", 1], ["Z2", -1]]]:
        m = reps.model(s)
        for which, arr in (("X", m.X), ("H", m.H)):
            for g, i, j in itertools.product(*map(range, arr.shape)):
                for v in ((1, 0), (0, 1), (1e-3, 0), (0, 1e-5), (1, -1)):
                    flt.append([s, which, g, i, j, list(v)])
    return [
        Space("is_real", isr, real, "palette of irreps, products and sums in all bases"),
        Space("explicit", expl, explicit, "all irreps of the palette in unitary bases: real, complex and quaternionic type"),
        Space("unitary", uni, unitary, "all forms in unitary and other bases"),
        Space("faults", flt, faults, "all single-entry changes of unitary generators"),
    ]
