"""infer_change_of_basis and the generic Clebsch-Gordan coefficients: exactly the intertwiners."""
import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect
from .c05 import equivariant, get

ASSUMPTIONS = [
    "bases of condition number at most 8 (the solver uses an absolute threshold of 1e-4)",
    "groups with at least one generator",
]


def full(a, b):
    """the two models have the same numbers of generators"""
    return len(a.X) == len(b.X) and len(a.H) == len(b.H)


def infer(ctx, case):
    s1, s2 = case
    L = reps.lie()
    r1, r2 = reps.build(s1), reps.build(s2)
    m1, m2 = reps.model(s1), reps.model(s2)
    Q = L.infer_change_of_basis(r1, r2)
    ref.is_array(Q, "change of basis", 3)
    W = ref.intertwiners(m1, m2)
    expect(Q.shape == (len(W), m2.dim, m1.dim), f"shape {Q.shape} for {len(W)} intertwiners")
    for x, y in list(zip(m1.X, m2.X)) + list(zip(m1.H, m2.H)):
        close(Q @ x, y @ Q, "Q rho_1 = rho_2 Q", 1e-7)
        ctx.step()
    if len(W):
        ref.same_span(Q, W, "intertwiners")
        G = np.einsum("aij,bij->ab", Q, np.conj(Q))
        close(G, m2.dim * np.eye(len(Q)), "mutually orthogonal, of squared norm the dimension of the target", 1e-7)
    ctx.step()
    ctx.state(s1, s2)


def cg(ctx, case):
    s1, s2, s3 = case
    L = reps.lie()
    r = [reps.build(s) for s in case]
    m1, m2, m3 = (reps.model(s) for s in case)
    C = L.clebsch_gordan(*r)
    ref.is_array(C, "coefficients", 4)
    W = ref.intertwiners(m1.tensor(m2), m3)
    expect(C.shape == (len(W), m1.dim, m2.dim, m3.dim), f"shape {C.shape} for {len(W)} solutions")
    equivariant(ctx, C, m1, m2, m3, "generic coefficients")
    V = np.moveaxis(C, 3, 1).reshape(len(C), m3.dim, m1.dim * m2.dim)
    if len(W):
        ref.same_span(V, W, "solutions")
    ctx.step()
    ctx.state(s1, s2, s3)


NEAR = [0.3, 0.1, 0.03, 0.01, 1e-3, 1e-4, 1e-5, 1e-6]


def line(L, qs, kind):
    """a representation of the line: charges, a triangular one, or one of a scaling"""
    n = len(qs)
    X = np.diag(np.asarray(qs, complex) * (1j if kind != "scale" else 1.0))
    if kind == "jordan":
        X[0, -1] += 1.0
    if kind == "complex":
        X = X @ np.eye(n)
        B = np.array([[1, 0.5], [0.25j, 1]])[:n, :n]
        X = np.linalg.inv(B) @ X @ B
    return L.GenericRep(np.zeros((1, 1, 1)), X[None], np.zeros((0, n, n)))


def near(ctx, case):
    """representations that are close and not equivalent: whatever is returned intertwines them (a refusal is fine)"""
    qs, kind, k, three = case
    L = reps.lie()
    for d in NEAR:
        for sign in (1, -1):
            q2 = list(qs)
            q2[k] += sign * d
            a, b = line(L, qs, kind), line(L, q2, kind)
            X, Y = a.X[0], b.X[0]
            try:
                if three:
                    t = L.GenericRep(np.zeros((1, 1, 1)), np.zeros((1, 1, 1)), np.zeros((0, 1, 1)))
                    Q = np.moveaxis(L.clebsch_gordan(a, t, b)[:, :, 0, :], 2, 1)
                else:
                    Q = L.infer_change_of_basis(a, b)
            except (AssertionError, ValueError):
                Q = np.zeros((0, len(Y), len(X)))
            for q in Q:
                n = np.max(np.abs(q))
                e = np.max(np.abs(q @ X - Y @ q))
                expect(n > 1e-6 and e <= 1e-7 * max(1.0, n), f"charges {qs} and {q2} ({kind}): a solution is returned that is off by {e:.3g}")
            ctx.step()
        ctx.state(qs, kind, k, three, d)


def agree(ctx, case):
    """generic against tabulated coefficients of the same triplet of labels"""
    s1, s2, s3 = case
    L = reps.lie()
    a, b, c = (reps.build(s) for s in case)
    ga, gb, gc = (L.GenericRep.from_rep(x) for x in (a, b, c))
    T = get(a, b, c, "tabulated")
    C = L.clebsch_gordan(ga, gb, gc)
    expect(C.shape == T.shape, f"{C.shape} against {T.shape}")
    if len(C):
        ref.same_span(C, T, "generic and tabulated coefficients")
        n = np.einsum("zijk,wijk->zw", C, np.conj(C))
        close(n, np.einsum("zijk,wijk->zw", T, np.conj(T)), "same normalization", 1e-7)
    mixed = L.clebsch_gordan(a, gb, c)
    expect(mixed.shape == T.shape, f"mixed operands: {mixed.shape} against {T.shape}")
    if len(mixed):
        ref.same_span(mixed, T, "mixed and tabulated coefficients")
    ctx.step(3)
    ctx.state(s1, s2, s3)


def same_group(a, c):
    m, k = reps.model(a), reps.model(c)
    return m.A.shape == k.A.shape and len(m.H) == len(k.H) and np.allclose(m.A, k.A)


def spaces(tier):
    q = tier == "quick"
    fam = reps.families()
    pairs, trip, agr = [], [], []
    bases = [None, "gen", "cgen"] if q else [None, "perm", "diag", "tri", "rot", "gen", "unit", "cgen"]
    wrap = lambda k, s: s if k is None else ["cb", k, s]
    for g, v in fam.items():
        for a in v:
            for b in v:
                d = reps.dim(a) * reps.dim(b)
                if d > (40 if q else 64):
                    continue
                for k1 in bases:
                    for k2 in bases:
                        if q and k1 and k2 and k1 != k2:
                            continue
                        pairs.append([wrap(k1, a), wrap(k2, b)])
                for k1 in ref.COND_BASES + ref.ODD_BASES:
                    if q and d > 16:
                        break
                    pairs.append([wrap(k1, a), wrap(None if q else k1, b)])
                    pairs.append([wrap("cgen", a), wrap(k1, b)])
        w = v[:4] if q else v
        for a in w:
            for b in w:
                for c in v:
                    d = reps.dim(a) * reps.dim(b) * reps.dim(c)
                    if d > (72 if q else 160):
                        continue
                    for ks in [(None,) * 3, ("cgen", None, None), (None, "gen", "cgen"), ("gen", "unit", "tri")][: 3 if q else 4]:
                        if ks == (None,) * 3:
                            trip.append([["gen", a], b, c])
                        else:
                            trip.append([wrap(k, ["gen", s]) for k, s in zip(ks, (a, b, c))])
    for g, v in fam.items():
        w = [s for s in v if s[0] in reps.LEAVES][:4]
        for a in w:
            for b in w:
                for c in w:
                    if g == "SU2Real" and any(s[1] % 1 for s in (a, b, c)):
                        continue
                    if reps.dim(a) * reps.dim(b) * reps.dim(c) <= (100 if q else 220):
                        agr.append([a, b, c])
    nopair, notrip = [], []
    for g, v in fam.items():
        a, b = v[0], v[1]
        nothing = [["mul", 0, a], ["red", [["mul", 0, a], ["mul", 0, b]], None], ["gen", ["mul", 0, b]], ["red", [["mul", 0, a]], "eye"], ["conj", ["mul", 0, a]]]
        for x in nothing:
            nopair += [[x, y] for y in v + nothing] + [[y, x] for y in v]
            if g == "SU2Real":
                continue
            for y in [a, ["gen", b], nothing[0]]:
                notrip += [c for c in ([x, y, b], [y, x, b], [y, b, x], [x, y, x]) if any(s[0] not in reps.LEAVES for s in c)]
    # irreps of different classes for the same algebra
    kin = [[["SU2", 0], ["SU2", 1], ["SU2", 2], ["SU2", 3]], [["SO3", 0], ["SO3", 1], ["SO3", 2]], [["SU2Real", 0], ["SU2Real", 1], ["SU2Real", 2]], [["SUN", [0, 0]], ["SU2_", [1, 0]], ["SUN", [2, 0]]],
           [["SUN", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SU3", [0, 0, 0]], ["SUN", [2, 1, 0]]], [["SL2C", 0, 0], ["SL2C", 1, 1], ["SL2C", 2, 0]], [["SO13", 0, 0], ["SO13", 1, 1], ["SO13", 2, 0]]]
    mixed = [[a, b, c] for f in kin for a in f for b in f for g in kin for c in g
             if (f is not g or len({s[0] for s in (a, b, c)}) > 1) and same_group(a, c) and reps.dim(a) * reps.dim(b) * reps.dim(c) < 200]
    # and products of two of them
    some = [t for t in mixed if reps.dim(t[0]) * reps.dim(t[1]) * reps.dim(t[2]) <= (12 if q else 27) and t[0][0] == t[1][0]][:: 2 if q else 1]
    for t in some:
        for u in ([["Z2", -1]] * 2 + [["Z2", 1]], [["SO3", 1]] * 3, [["SU2", 1], ["SU2", 0], ["SU2", 1]]):
            mixed.append([["prod", x, y] for x, y in zip(t, u)])
            mixed.append([["prod", y, x] for x, y in zip(t, u)])
    cl = [[qs, kind, k, three] for qs in ([1.0], [0.0], [2.0], [-3.0], [1.0, 1.0], [1.0, 2.0], [0.0, 3.0], [5.0, -5.0]) for kind in ("plain", "scale", "jordan", "complex") for k in range(len(qs)) for three in (False, True) if len(qs) > 1 or kind in ("plain", "scale")]
    return [
        Space("near", cl, near, "representations of the line that are close and not equivalent: no wrong solution", f"distances {NEAR}"),
        Space("empty", nopair, infer, "representations of dimension zero (absent irreps) in every form"),
        Space("emptycg", notrip, cg, "generic Clebsch-Gordan coefficients with representations of dimension zero"),
        Space("pairs", pairs, infer, "all pairs of representations of one group, in the given bases",
              f"bases {bases}"),
        Space("triplets", trip, cg, "generic Clebsch-Gordan coefficients of all triplets"),
        Space("classes", mixed, cg, "coefficients of tabulated irreps of different classes for the same algebra"),
        Space("agree", agr, agree, "generic, mixed and tabulated coefficients of all triplets of labels"),
    ]
