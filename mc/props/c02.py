"""A label determines its representation: dimension, character, irreducibility, inequivalence."""
import itertools

import numpy as np
import scipy.linalg

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect
from .c01 import labels


def spectrum(x):
    return np.linalg.eigvals(x)


def chi(weights, theta):
    """sum of multiplicity * exp(weight . theta)"""
    return sum(m * np.exp(np.dot(w, theta)) for w, m in weights.items())


def directions(n):
    ds = [np.eye(n)[i] for i in range(n)]
    ds += [1.3 * ref.params(n, k) for k in range(3)]
    return ds


def expm_v(rep, v):
    return np.einsum("a,aij->ij", v, rep.continuous_generators())


def pairs_pm(ev):
    """eigenvalues of an sl2 element in its 2-dimensional irrep: +-theta"""
    expect(abs(ev[0] + ev[1]) < 1e-8, "traceless")
    return ev[0]


def character(group, spec, v):
    """Expected character of the label at exp(v), from the smallest faithful irreps."""
    if group == "Z2":
        return 1.0
    if group in ("SU2", "SU2Real", "SO3", "O3"):
        f = pairs_pm(spectrum(expm_v(reps.build(["SU2", 1]), v)))
        tj = {"SU2": spec[1], "SU2Real": int(2 * spec[1])}.get(group, 2 * spec[1])
        c = sum(np.exp(m * f) for m in ref.su2_char(tj))
        if group == "SU2Real" and tj % 2:
            c = 2 * c
        return c
    if group in ("SL2C", "SO13"):
        if group == "SO13":  # K = i Y
            v = np.concatenate([v[:3], 1j * v[3:]])
        a = pairs_pm(spectrum(expm_v(reps.build(["SL2C", 1, 0]), v)))
        b = pairs_pm(spectrum(expm_v(reps.build(["SL2C", 0, 1]), v)))
        return sum(np.exp(m * a) for m in ref.su2_char(spec[1])) * sum(
            np.exp(m * b) for m in ref.su2_char(spec[2])
        )
    S = tuple(spec[1])
    th = spectrum(expm_v(reps.build(reps.suspec([1] + [0] * (len(S) - 1))), v))
    return chi(ref.su_weights(S), th)


def expected_dim(group, spec):
    if group == "SU2":
        return spec[1] + 1
    if group in ("SO3", "O3"):
        return 2 * spec[1] + 1
    if group == "SU2Real":
        tj = int(2 * spec[1])
        return (tj + 1) * (2 if tj % 2 else 1)
    if group in ("SL2C", "SO13"):
        return (spec[1] + 1) * (spec[2] + 1)
    if group == "Z2":
        return 1
    return ref.su_dim(tuple(spec[1]))


def check_label(ctx, case):
    group, spec = case
    ir = reps.build(spec)
    d = expected_dim(group, spec)
    expect(ir.dim == d and isinstance(ir.dim, (int, np.integer)), f"dim {ir.dim!r} instead of {d}")
    X, H = ir.continuous_generators(), ir.discrete_generators()
    expect(X.shape[1:] == (d, d), f"generators of shape {X.shape} for dim {d}")
    ctx.step(2)
    for v in directions(X.shape[0]):
        got = np.trace(scipy.linalg.expm(np.einsum("a,aij->ij", v, X)))
        want = character(group, spec, v)
        expect(
            abs(got - want) < 1e-6 * max(1, abs(want), d),
            lambda: f"character {got:.6g} instead of {want:.6g} in the direction {np.round(v, 3)}",
        )
        ctx.step()
    if group in ("O3", "Z2"):
        p = spec[2] if group == "O3" else spec[1]
        close(H, p * np.eye(d)[None], "the inversion acts as the parity")
    # irreducible
    m = 1
    if group == "SU2Real" and int(2 * spec[1]) % 2:
        m = 4  # quaternionic: a real irrep whose commutant has dimension 4
    if d <= 10:
        got = ref.commutant_dim(ir, ir)
        expect(got == m, f"commutant of dimension {got} instead of {m}")
        ctx.step()
    # trivial
    trivial = all(
        (set(a) == {0} if isinstance(a, list) else a == 0)
        for a in (spec[1:2] if group in ("SU2", "SU2Real", "SO3", "O3") else spec[1:])
    ) and not (group == "O3" and spec[2] == -1)
    if group == "Z2":
        trivial = spec[1] == 1
    expect(bool(ir.is_trivial()) == trivial, f"is_trivial() = {ir.is_trivial()}")
    if hasattr(ir, "is_scalar"):
        sc = all(a == 0 or (isinstance(a, list) and set(a) == {0}) for a in
                 (spec[1:2] if group == "O3" else spec[1:]))
        expect(bool(ir.is_scalar()) == sc, f"is_scalar() = {ir.is_scalar()}")
    ctx.step(2)
    # the irreps of compact groups are given in a unitary basis
    if group not in ("SO13", "SL2C"):
        close(X, -np.conj(np.swapaxes(X, 1, 2)), "anti-hermitian generators")
        for h in H:
            close(h @ np.conj(h.T), np.eye(d), "unitary discrete generators")
        ctx.step()
    if group in ("SO3", "O3", "SU2Real") or (group == "SO13" and spec[1] == spec[2]):
        expect(np.all(np.imag(X) == 0), "generators of a real irrep are real matrices")
    ctx.state(group, spec)


def check_pair(ctx, case):
    """labels of equal dimension: equal iff equivalent (over the group algebra)"""
    group, s1, s2 = case
    a, b = reps.build(s1), reps.build(s2)
    n = ref.commutant_dim(a, b)
    m = 4 if group == "SU2Real" and int(2 * s1[1]) % 2 else 1
    same = s1 == s2 or (group == "SU2Real" and s1[1] == s2[1])
    expect(n == (m if same else 0), f"{n} intertwiners between {s1} and {s2}")
    expect((a == b) == same, f"({s1} == {s2}) is {a == b}")
    if same:
        expect(hash(a) == hash(b), "equal irreps have equal hashes")
    ctx.step(3)
    ctx.state(group, s1, s2)


def identity(ctx, case):
    """one label against all those of its group, dimensions not bounded: labels of inequivalent irreps differ"""
    group, i, specs = case
    irs = [reps.build(s) for s in specs]
    a = irs[i]
    for j, b in enumerate(irs):
        same = specs[i] == specs[j]
        expect(bool(a == b) == same, f"({specs[i]} == {specs[j]}) is {a == b}")
        expect(bool(a != b) != same, f"({specs[i]} != {specs[j]}) is {a != b}")
        if same:
            expect(hash(a) == hash(reps.build(specs[i])), "equal irreps have equal hashes")
            expect(a == reps.build(specs[i]), "an irrep differs from itself")
        ctx.step()
    d = expected_dim(group, specs[i])
    expect(a.dim == d, f"dim {a.dim!r} instead of {d}")
    ctx.state(group, specs[i])


def classical(ctx, case):
    """orthogonal and symplectic labels (no matrices): scalar exactly for zero, equal exactly when the weights are"""
    name, n, S = case
    c = getattr(__import__(f"lie_nn._src.irreps.{name.lower()}", fromlist=[name]), name)
    S = tuple(S)
    a = c(S)
    expect(bool(a.is_scalar()) == (not any(S)), f"{name}{S}: is_scalar() = {a.is_scalar()}")
    for T in itertools.product(range(3), repeat=n):
        expect(bool(a == c(T)) == (S == T) and bool(a != c(T)) == (S != T), f"{name}{S} == {name}{T}")
        ctx.step()
    ctx.step()
    ctx.state(name, S)


def four_vector(ctx, case):
    from lie_nn.irreps import SO13

    v = SO13.four_vector()
    close(
        np.einsum("iab,jbc->ijac", v.X, v.X) - np.einsum("jab,ibc->ijac", v.X, v.X),
        np.einsum("ijk,kab->ijab", v.A, v.X),
        "algebra of the four-vector",
    )
    close(v.A, SO13(1, 1).A, "same algebra as the irreps", 1e-12)
    eta = np.diag([-1.0, 1, 1, 1])
    for x in v.X:
        close(x.T @ eta + eta @ x, np.zeros((4, 4)), "preserves the Minkowski metric")
    n = ref.commutant_dim(v, SO13(1, 1))
    expect(n == 1, f"four-vector is equivalent to (1,1): {n}")
    ctx.step(10)
    ctx.state("four_vector")


def spaces(tier):
    lab = labels(tier)
    cases = [[g, s] for g, v in lab.items() for s in v]
    q = tier == "quick"
    mx = 10 if q else 16
    pairs = []
    for g, v in lab.items():
        v = [s for s in v if expected_dim(g, s) <= mx]
        for s1 in v:
            for s2 in v:
                if expected_dim(g, s1) == expected_dim(g, s2):
                    pairs.append([g, s1, s2])
    t = 0 if q else 1
    big = {
        "SU2": [["SU2", j] for j in range(60)],
        "SO3": [["SO3", l] for l in range(40)],
        "O3": [["O3", l, p] for l in range(30) for p in (1, -1)],
        "SU2Real": [["SU2Real", j / 2] for j in range(40)],
        "SL2C": reps.sl2c(20),
        "SO13": [["SO13", l, k] for l in range(9) for k in range(9) if (l + k) % 2 == 0],
        "Z2": [["Z2", 1], ["Z2", -1]],
    }
    for N, top in ((2, 30), (3, 10 + 4 * t), (4, 6 + t), (5, 4 + t), (6, 3 + t), (7, 2 + t)):
        big[f"SU({N})"] = [reps.suspec(S) for S in reps.sun(N, top)]
        big[f"SU({N}) as SUN"] = [["SUN", S] for S in reps.sun(N, min(top, 8))]
    ident = [[g, i, v] for g, v in big.items() for i in range(len(v))]
    return [
        Space("identity", ident, identity,
              "every pair of labels of a larger box: equality, hash, dimension; no matrices",
              {g: len(v) for g, v in big.items()}),
        Space("characters", cases, check_label,
              "every label: dimension, character at generic group elements against exact weight "
              "multiplicities, commutant, triviality, unitarity, reality",
              {g: len(v) for g, v in lab.items()}),
        Space("pairs", pairs, check_pair,
              "every ordered pair of labels of equal dimension: equal iff intertwined, hashes",
              f"dim <= {mx}"),
        Space("classical", [[c, n, list(S)] for c in ("SON", "SPN") for n in range(2 if c == "SON" else 1, 5) for S in itertools.product(range(3), repeat=n)], classical,
              "labels of SO(N) and Sp(N): all pairs of a box; scalar exactly for zero"),
        Space("four_vector", [[0]], four_vector, "defining representation of SO(1,3)"),
    ]
