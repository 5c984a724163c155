"""The exponential map of numpy and of JAX."""
import itertools

import numpy as np
import scipy.linalg

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect
from .c01 import labels

ASSUMPTIONS = [
    "the JAX version works in single precision (compared at 2e-4) and is claimed for non-negative powers "
    "of real discrete generators",
]


def points(n, tier):
    """a grid: zero, each axis both ways, generic points"""
    pts = [np.zeros(n)]
    ax = range(n) if n <= 6 else (0, n // 2, n - 1)
    for i in ax:
        for t in (0.5, -1.7, 6.0):
            pts.append(t * np.eye(n)[i])
    pts += [s * ref.params(n, k) for k, s in ((0, 0.4), (1, 1.0), (2, 2.5))]
    return pts


def label(ctx, case):
    s = case
    rep, m = reps.build(s), reps.model(s)
    n, k = len(m.X), len(m.H)
    window = range(-3, 4)
    ints = list(itertools.product(window, repeat=k)) if k <= 2 else [(1, 2, -1), (0, 1, 1), (1, 0, 0)]
    ints = [t + (1,) * (k - len(t)) if len(t) < k else t for t in ints]
    for i, v in enumerate(points(n, "quick")):
        for t in ints if i % 3 == 1 or i == 0 else ints[:: max(1, len(ints) // 3)]:
            g = rep.exp_map(v, np.array(t, dtype=int))
            ref.is_array(g, "group element", 2)
            close(g, m.exp(v, t), f"exp_map at {np.round(v, 2)}, {t}", 1e-7)
            ctx.step()
            if m.dim > 8 and i > 4:
                break
    # negative coordinates give the inverse
    v = ref.params(n, 3)
    z = np.zeros(k, dtype=int)
    close(rep.exp_map(v, z) @ rep.exp_map(-v, z), np.eye(m.dim), "inverse", 1e-8)
    # one parameter groups
    close(rep.exp_map(0.3 * v, z) @ rep.exp_map(0.9 * v, z), rep.exp_map(1.2 * v, z), "one parameter group", 1e-8)
    for j in range(k):
        e = np.zeros(k, dtype=int)
        e[j] = 1
        close(rep.exp_map(0 * v, e), m.H[j], f"discrete generator {j}")
        close(rep.exp_map(0 * v, e) @ rep.exp_map(0 * v, -e), np.eye(m.dim), "inverse of a discrete generator")
    ctx.step(2 + k)
    ctx.state(s)


FAITHFUL = {
    "SU2": ["SU2", 1], "SO3": ["SU2", 1], "O3": ["SU2", 1], "SU2Real": ["SU2", 1],
    "SO13": ["SO13", 1, 1], "SL2C": ["red", [["SL2C", 1, 0], ["SL2C", 0, 1]], None],
}


def composition(ctx, case):
    """coordinates of a product, found in a faithful representation, are valid in every label"""
    g, s, k = case
    rep = reps.build(s)
    F = reps.model(FAITHFUL[g] if g in FAITHFUL else reps.suspec([1] + [0] * (len(s[1]) - 1)))
    n = len(F.X)
    a, b = 0.5 * ref.params(n, k), 0.5 * ref.params(n, k + 5)
    c = coords(F, F.exp(a) @ F.exp(b))
    z = np.zeros(len(rep.H), dtype=int)
    close(rep.exp_map(a, z) @ rep.exp_map(b, z), rep.exp_map(c, z), "product of two group elements", 1e-6)
    ctx.step()
    # the inversion acts by the parity
    if len(rep.H):
        o = np.ones(len(rep.H), dtype=int)
        close(rep.exp_map(a, o) @ rep.exp_map(b, o), rep.exp_map(c, 2 * o), "product of two inversions", 1e-6)
        ctx.step()
    ctx.state(case)


def coords(F, g):
    l = scipy.linalg.logm(g)
    v, res = np.linalg.lstsq(F.X.reshape(len(F.X), -1).T, l.reshape(-1), rcond=None)[:2]
    v = v.real
    assert np.allclose(np.einsum("a,aij->ij", v, F.X), l, atol=1e-9)
    return v


def turns(ctx, case):
    """a full turn in SU(2) is -1 in the spinor, and (-1)^2j in the irrep j"""
    g, s = case
    rep = reps.build(s)
    f = reps.model(["SU2", 1])
    for i in range(3):
        a = np.max(np.abs(np.linalg.eigvals(f.X[i])))
        t = np.pi / a
        want = {"SU2": lambda: (-1.0) ** s[1], "SU2Real": lambda: (-1.0) ** int(2 * s[1])}.get(g, lambda: 1.0)()
        z = np.zeros(len(rep.H), dtype=int)
        close(rep.exp_map(t * np.eye(3)[i], z), want * np.eye(rep.dim), "a full turn", 1e-7)
        close(rep.exp_map(2 * t * np.eye(3)[i], z), np.eye(rep.dim), "two full turns", 1e-7)
        ctx.step(2)
    ctx.state(case)


def jax_version(ctx, case):
    s, ts = case
    from lie_nn._src import jax_utils

    rep, m = reps.build(s), reps.model(s)
    n, k = len(m.X), len(m.H)
    for t in ts:
        for v in [np.zeros(n)] + [0.7 * ref.params(n, i) for i in range(2)]:
            import jax.numpy as jnp

            g = np.asarray(jax_utils.exp_map(rep, jnp.asarray(v), jnp.asarray(np.array(t, dtype=int).reshape(k))))
            close(g, rep.exp_map(v, np.array(t, dtype=int)), f"JAX exp_map at {np.round(v, 2)}, {t}", 2e-4)
            ctx.step()
    if n and s[0] in ("SU2", "SO3", "O3", "SU3", "SU2_", "SU2Real"):  # compact: long ways round
        for c in (3.0, 10.0, 40.0, 150.0):
            v = c * np.eye(n)[0] + 0.5 * c * np.eye(n)[n - 1]
            z = np.array(ts[-1], dtype=int).reshape(k)
            g = np.asarray(jax_utils.exp_map(rep, jnp.asarray(v), jnp.asarray(z)))
            close(g, rep.exp_map(v, z), f"JAX exp_map at {v}, {z}", 2e-4 * max(1, c / 3))
            ctx.step()
    for t in ts:
        for h, p in zip(m.H, t):
            for y in [h, 1j * h] + ([h.real] if np.allclose(h.imag, 0) else []) + ([h.real.round().astype(int)] if np.allclose(h, h.real.round()) else []):
                x = np.asarray(jax_utils.matrix_power(jnp.asarray(y), p))
                close(x, np.linalg.matrix_power(y, p), f"matrix_power {p} in {y.dtype}", 2e-4)
                ctx.step()
    ctx.state(case)


def jax_powers(ctx, case):
    """matrix_power at every exponent of a range, against powers by repeated multiplication"""
    from lie_nn._src import jax_utils
    import jax.numpy as jnp

    name, ps = case
    M = ORDERS[name]
    for p in ps:
        w = np.linalg.matrix_power(M, p % 12)
        close(np.asarray(jax_utils.matrix_power(jnp.asarray(M), p)), w, f"matrix_power {p} of {name}", 2e-4)
        close(np.asarray(jax_utils.matrix_power(jnp.asarray(M), jnp.asarray(p))), w, f"matrix_power {p} of {name}", 2e-4)
        ctx.step(2)
    ctx.state(case)


# matrices of order 12 with entries -1, 0, 1: their powers are exact
ORDERS = {
    "12": np.kron(np.array([[0, -1.0], [1, 0]]), np.array([[0, 0, 1.0], [1, 0, 0], [0, 1, 0]])),
    "4": np.array([[0, -1.0], [1, 0]]),
    "-1": -np.eye(1),
    "6": np.array([[0, -1.0], [1, 1]]),
}


def spaces(tier):
    q = tier == "quick"
    lab = labels(tier)
    mx = 16 if q else 40
    short = [[g, s] for g, v in lab.items() if g != "SU(3) as SUN" for s in v]
    from .c02 import expected_dim

    short = [(g, s) for g, s in short if expected_dim(g, s) <= mx]
    fam = [s for v in reps.families().values() for s in v]
    fam += [f for v in reps.GENERIC.values() for f in reps.generic_forms(v)]
    fam += [["cb", "cgen", s] for s in fam if s[0] in reps.LEAVES]
    fam += [["prod", ["Z2", -1], ["O3", 1, -1]], ["prod", ["O3", 1, -1], ["Sn", "standard", 3]], ["prod", ["Sn", "natural", 3], ["Z2", -1]]]
    comp = [[g, s, k] for g, s in short if g != "Z2" for k in range(2 if q else 5)]
    jx = []
    for g, v in reps.SMALL.items():
        for s in v:
            k = len(reps.model(s).H)
            jx.append([s, [[p] * k for p in ((0, 1, 2, 3, 7, 1000, 65537) if k else (0,))]])
    for s in (["Sn", "natural", 3], ["Sn", "standard", 4], ["dih", 5, 1], ["Sn", "natural", 2], ["o2", 1]):
        k = len(reps.model(s).H)
        jx.append([s, [list(t) for t in itertools.product(range(5 if q else 8), repeat=k)] + [[12] * k, [31] * k]])
    for s in [["O3", 1, -1], ["O3", 0, -1], ["O3", 2, 1]] + [["cyc", 4, 1], ["Sn", "standard", 3], ["prod", ["O3", 1, -1], ["Z2", -1]]]:
        k = len(reps.model(s).H)
        for f in (["mul", 2, s], ["gen", s], ["cb", "cgen", s], ["red", [s, ["mul", 2, s]], "gen"], ["red", [["mul", 2, s], s], None], ["conj", s]):
            jx.append([f, [[p] * k for p in (0, 1, 2, 5)]])
    if not q:
        jx += [[s, [[p] * len(reps.model(s).H) for p in range(3)]] for g, s in short if expected_dim(g, s) <= 8]
    top = 300 if q else 3000
    es = list(range(top)) + sorted({(1 << k) + i for k in range(8, 32) for i in (-2, -1, 0, 1, 2) if top <= (1 << k) + i < 2**31})
    jp = [[n, es[i : i + 100]] for n in ORDERS for i in range(0, len(es), 100)]
    return [
        Space("labels", [s for g, s in short], label, "every label: grid of coordinates and integer powers", f"dim <= {mx}"),
        Space("forms", fam, label, "other representations, finite groups, products"),
        Space("composition", comp, composition, "products of group elements in every label"),
        Space("turns", [[g, s] for g, s in short if g in ("SU2", "SO3", "O3", "SU2Real")], turns, "full turns about each axis"),
        Space("jax powers", jp, jax_powers, "every exponent", f"up to {top} and around every power of two up to 2^31"),
        Space("jax", jx, jax_version, "the JAX version against the numpy one"),
    ]
