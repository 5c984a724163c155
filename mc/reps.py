"""JSON specifications of representations -> objects of the implementation, and dense models."""
import functools

import numpy as np

from . import ref
from .ref import Dense


def lie():
    import lie_nn

    return lie_nn


def T(x):
    return tuple(T(y) for y in x) if isinstance(x, (list, tuple)) else x


LEAVES = ("SU2", "SU2Real", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU3", "SU4", "SUN", "Z2")


def irrep(spec):
    L = lie()
    name, args = spec[0], T(spec[1:])
    if name == "SUN":
        from lie_nn._src.irreps.sun import SUN

        return SUN(args[0])
    return getattr(L.irreps, name)(*args)


def build(spec):
    """Object of the implementation."""
    L = lie()
    k = spec[0]
    if k in LEAVES:
        return irrep(spec)
    if k == "mul":
        return L.MulIrrep(spec[1], build(spec[2]))
    if k == "red":  # ["red", [specs], basis | None]
        terms = [build(s) for s in spec[1]]
        r = L.ReducedRep.from_irreps(terms)
        if len(spec) > 2 and spec[2] is not None:
            r = L.ReducedRep.from_irreps(terms, ref.basis(spec[2], r.dim))
        return r
    if k == "gen":
        return L.GenericRep.from_rep(build(spec[1]))
    if k == "cb":
        r = build(spec[2])
        return L.change_basis(r, ref.basis(spec[1], r.dim))
    if k == "ca":
        r = build(spec[2])
        return L.change_algebra(r, ref.basis(spec[1], r.lie_dim))
    if k == "conj":
        return L.conjugate(build(spec[1]))
    if k == "sum":
        return L.direct_sum(build(spec[1]), build(spec[2]))
    if k == "tp":
        return L.tensor_product(build(spec[1]), build(spec[2]))
    if k == "pow":
        return L.tensor_power(build(spec[2]), spec[1])
    if k == "prod":
        return L.group_product(*[build(s) for s in spec[1:]])
    if k == "triv":
        return build(spec[1]).create_trivial()
    if k == "Sn":
        return getattr(L.finite, "Sn_" + spec[1])(spec[2])
    if k == "reduce":
        return L.reduce(build(spec[1]))
    if k == "pauli":  # quaternion group Q8 as a group of 2x2 complex matrices
        return L.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 2, 2)), Q8)
    if k == "cyc":  # ["cyc", n, k]: character k of the cyclic group of order n
        w = np.exp(2j * np.pi * spec[2] / spec[1])
        return L.GenericRep(
            np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[w]]], dtype=complex)
        )
    if k == "dih":  # ["dih", n, k]: 2-dimensional representation of the dihedral group
        t = 2 * np.pi * spec[2] / spec[1]
        r = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        return L.GenericRep(
            np.zeros((0, 0, 0)), np.zeros((0, 2, 2)), np.stack([r, np.diag([1.0, -1.0])])
        )
    if k == "u1":  # ["u1", [charges]]
        q = np.array(spec[1], dtype=float)
        return L.GenericRep(
            np.zeros((1, 1, 1)), np.diag(1j * q)[None], np.zeros((0, len(q), len(q)))
        )
    if k == "so2":  # ["so2", charge] real rotation in the plane
        q = float(spec[1])
        return L.GenericRep(
            np.zeros((1, 1, 1)), np.array([[[0, -q], [q, 0]]]), np.zeros((0, 2, 2))
        )
    if k == "o2":  # ["o2", charge]: rotations of the plane and a reflection
        q = float(spec[1])
        return L.GenericRep(
            np.zeros((1, 1, 1)), np.array([[[0, -q], [q, 0]]]), np.diag([1.0, -1.0])[None]
        )
    raise ValueError(spec)


Q8 = np.array([[[1j, 0], [0, -1j]], [[0, 1], [-1, 0]]])


def model(spec):
    """Dense model; the matrices of the leaves are those of the implementation (decided by C01
    and C02), everything built on top of them is computed here."""
    k = spec[0]
    if k in LEAVES or k in ("Sn", "pauli", "cyc", "dih", "u1", "so2", "o2"):
        return leaf_model(repr(spec), Lit(spec))
    if k == "mul":
        m = model(spec[2])
        if spec[1] == 0:
            return Dense(m.A, np.zeros((len(m.X), 0, 0)), np.zeros((len(m.H), 0, 0)))
        return Dense.sum(*[m] * spec[1])
    if k == "red":
        ms = [model(s) for s in spec[1]]
        r = Dense.sum(*ms)
        if len(spec) > 2 and spec[2] is not None:
            r = r.change_basis(ref.basis(spec[2], r.dim))
        return r
    if k in ("gen", "reduce"):
        return model(spec[1])
    if k == "cb":
        m = model(spec[2])
        return m.change_basis(ref.basis(spec[1], m.dim))
    if k == "ca":
        m = model(spec[2])
        return m.change_algebra(ref.basis(spec[1], len(m.A)))
    if k == "conj":
        return model(spec[1]).conjugate()
    if k == "sum":
        return Dense.sum(model(spec[1]), model(spec[2]))
    if k == "tp":
        return model(spec[1]).tensor(model(spec[2]))
    if k == "pow":
        return model(spec[2]).power(spec[1])
    if k == "prod":
        return functools.reduce(Dense.group, [model(s) for s in spec[1:]])
    if k == "triv":
        return model(spec[1]).trivial()
    raise ValueError(spec)


class Lit:
    """hashable by its text, so that leaves are cached"""

    def __init__(self, spec):
        self.spec = spec

    def __hash__(self):
        return hash(repr(self.spec))

    def __eq__(self, o):
        return repr(self.spec) == repr(o.spec)


@functools.lru_cache(maxsize=4096)
def leaf_model(key, lit):
    r = build(lit.spec)
    return Dense(np.array(r.A), np.array(r.X), np.array(r.H))


# ---------------------------------------------------------------- palettes


def su2(n):
    return [["SU2", j] for j in range(n + 1)]


def so3(n):
    return [["SO3", l] for l in range(n + 1)]


def o3(n):
    return [["O3", l, p] for l in range(n + 1) for p in (1, -1)]


def sl2c(n):
    return [["SL2C", l, s - l] for s in range(n + 1) for l in range(s + 1)]


def so13(n):
    return [["SO13", l, s - l] for s in range(0, n + 1, 2) for l in range(s + 1)]


def sun(N, top):
    """irreps of SU(N) with first row <= top"""
    import itertools

    S = [
        list(s) + [0]
        for s in itertools.product(range(top, -1, -1), repeat=N - 1)
        if all(a >= b for a, b in zip(s, s[1:]))
    ]
    return sorted(S, key=lambda s: (ref.su_dim(tuple(s)), s))


SUNAME = {2: "SU2_", 3: "SU3", 4: "SU4"}


def suspec(S):
    S = list(S)
    return [SUNAME[len(S)], S] if len(S) in SUNAME else ["SUN", S]


# families of representations of one same group (same algebra, same number of discrete generators)


def red(*terms, q=None):
    """["red", ...] from terms (mul, spec)"""
    return ["red", [["mul", m, s] for m, s in terms], q]


def families():
    """{group: representations}: irreps first, then sums with multiplicities; dimension <= 8"""
    f = {
        "SU2": [["SU2", j] for j in range(4)]
        + [red((1, ["SU2", 0]), (2, ["SU2", 1])), red((2, ["SU2", 2])), red((1, ["SU2", 1]), (1, ["SU2", 2]), (1, ["SU2", 1]))],
        "SO3": [["SO3", l] for l in range(3)]
        + [red((2, ["SO3", 0]), (1, ["SO3", 1])), red((2, ["SO3", 1])), red((1, ["SO3", 1]), (1, ["SO3", 2]))],
        "O3": [["O3", l, p] for l in range(2) for p in (1, -1)]
        + [red((1, ["O3", 0, -1]), (1, ["O3", 1, 1])), red((1, ["O3", 1, 1]), (1, ["O3", 1, -1])), red((2, ["O3", 0, -1]), (1, ["O3", 0, 1]))],
        "SU2Real": [["SU2Real", j / 2] for j in range(4)] + [red((1, ["SU2Real", 0.5]), (1, ["SU2Real", 1.0])), red((2, ["SU2Real", 1.0]))],
        "SL2C": [["SL2C", 0, 0], ["SL2C", 1, 0], ["SL2C", 0, 1], ["SL2C", 1, 1], ["SL2C", 2, 0]]
        + [red((1, ["SL2C", 1, 0]), (1, ["SL2C", 0, 1])), red((2, ["SL2C", 0, 1]), (1, ["SL2C", 0, 0]))],
        "SO13": [["SO13", 0, 0], ["SO13", 1, 1], ["SO13", 2, 0], ["SO13", 0, 2]]
        + [red((1, ["SO13", 1, 1]), (1, ["SO13", 0, 0])), red((1, ["SO13", 2, 0]), (1, ["SO13", 0, 2]))],
        "SU3": [["SU3", [0, 0, 0]], ["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SU3", [2, 0, 0]], ["SU3", [2, 1, 0]]]
        + [red((1, ["SU3", [1, 0, 0]]), (1, ["SU3", [1, 1, 0]])), red((2, ["SU3", [1, 0, 0]]))],
        "SU4": [["SU4", [0, 0, 0, 0]], ["SU4", [1, 0, 0, 0]], ["SU4", [1, 1, 0, 0]], ["SU4", [1, 1, 1, 0]]],
        "Z2": [["Z2", 1], ["Z2", -1], red((2, ["Z2", -1])), red((1, ["Z2", 1]), (2, ["Z2", -1])), red((1, ["Z2", -1]), (1, ["Z2", 1]), (1, ["Z2", -1]))],
        "S3": [["Sn", "trivial", 3], ["Sn", "standard", 3], ["Sn", "natural", 3]],
        "S4": [["Sn", "trivial", 4], ["Sn", "standard", 4], ["Sn", "natural", 4]],
        "Q8": [["pauli"], ["sum", ["pauli"], ["pauli"]], ["triv", ["pauli"]]],
        "C3": [["cyc", 3, 0], ["cyc", 3, 1], ["cyc", 3, 2], ["sum", ["cyc", 3, 1], ["cyc", 3, 2]], ["sum", ["cyc", 3, 1], ["cyc", 3, 1]]],
        "C4": [["cyc", 4, k] for k in range(4)],
        "D4": [["dih", 4, 1], ["dih", 4, 2], ["triv", ["dih", 4, 1]], ["sum", ["dih", 4, 1], ["dih", 4, 1]]],
        "D5": [["dih", 5, 1], ["dih", 5, 2], ["sum", ["dih", 5, 1], ["dih", 5, 2]]],
        "U1": [["u1", [0]], ["u1", [1]], ["u1", [-1]], ["u1", [2, 1]], ["u1", [1, 1, -1]], ["so2", 1], ["so2", 2]],
        "O2": [["o2", 1], ["o2", 2], ["triv", ["o2", 1]], ["sum", ["o2", 1], ["o2", 2]]],
        "SU2xZ2": [["prod", ["SU2", 1], ["Z2", -1]], ["prod", ["SU2", 0], ["Z2", -1]], ["prod", ["SU2", 2], ["Z2", 1]]],
        "SO3xO3": [["prod", ["SO3", 1], ["O3", 0, -1]], ["prod", ["SO3", 0], ["O3", 1, -1]], ["prod", ["SO3", 0], ["O3", 0, 1]]],
        "SU2xSU3": [["prod", ["SU2", 1], ["SU3", [1, 0, 0]]], ["prod", ["SU2", 1], ["SU3", [0, 0, 0]]], ["prod", ["SU2", 0], ["SU3", [1, 0, 0]]]],
    }
    return f


def dim(spec):
    return model(spec).dim


def decompose(spec):
    """Counter of the tabulated irreps (as text of their label) in a decomposed spec"""
    from collections import Counter

    k = spec[0]
    if k in LEAVES:
        return Counter({repr(spec): 1})
    if k == "mul":
        return Counter({s: spec[1] * m for s, m in decompose(spec[2]).items()})
    if k == "red":
        return sum((decompose(s) for s in spec[1]), Counter())
    if k == "cb":
        return decompose(spec[2])
    raise ValueError(spec)


def spec_of(ir):
    """spec of a tabulated irrep of the implementation"""
    n = type(ir).__name__
    if n in ("SU2", "SU2Real"):
        return [n, ir.j]
    if n == "SO3":
        return [n, ir.l]
    if n == "O3":
        return [n, ir.l, ir.p]
    if n in ("SL2C", "SO13"):
        return [n, ir.l, ir.k]
    if n == "Z2":
        return [n, ir.p]
    if hasattr(ir, "S"):
        return suspec(ir.S)
    raise ValueError(n)


def product_of(c1, c2):
    """Clebsch-Gordan series of two Counters of labels"""
    from collections import Counter
    import ast
    from .props.c04 import series

    res = Counter()
    for t1, m1 in c1.items():
        for t2, m2 in c2.items():
            s1, s2 = ast.literal_eval(t1), ast.literal_eval(t2)
            g = f"SU({len(s1[1])})" if isinstance(s1[1], list) else s1[0]
            for k, m in series(g, s1, s2).items():
                s3 = suspec(k[0]) if g.startswith("SU(") else [s1[0], *k]
                res[repr(s3)] += m1 * m2 * m
    return +res


# two or three small tabulated irreps of every group (integer only for the real form of SU(2):
# its half-integer irreps have no tabulated decomposition of their products)
SMALL = {
    "SU2": [["SU2", 1], ["SU2", 2], ["SU2", 0], ["SU2", 3]],
    "SU2Real": [["SU2Real", 1], ["SU2Real", 0], ["SU2Real", 2]],
    "SO3": [["SO3", 1], ["SO3", 0], ["SO3", 2]],
    "O3": [["O3", 1, -1], ["O3", 0, -1], ["O3", 1, 1], ["O3", 2, 1]],
    "SL2C": [["SL2C", 1, 0], ["SL2C", 0, 1], ["SL2C", 1, 1]],
    "SO13": [["SO13", 1, 1], ["SO13", 2, 0], ["SO13", 0, 0]],
    "SU(2)": [["SU2_", [1, 0]], ["SU2_", [2, 0]]],
    "SU(3)": [["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SU3", [0, 0, 0]]],
    "SU(4)": [["SU4", [1, 0, 0, 0]]],
    "Z2": [["Z2", -1], ["Z2", 1]],
}
GENERIC = {
    "S3": [["Sn", "standard", 3], ["Sn", "natural", 3]],
    "Q8": [["pauli"], ["triv", ["pauli"]]],
    "C3": [["cyc", 3, 1], ["sum", ["cyc", 3, 1], ["cyc", 3, 2]]],
    "U1": [["u1", [1, -2]], ["so2", 1]],
    "O2": [["o2", 1], ["o2", 2]],
    "D4": [["dih", 4, 1], ["dih", 4, 2]],
    "SU2xZ2": [["prod", ["SU2", 1], ["Z2", -1]], ["prod", ["SU2", 0], ["Z2", -1]]],
    "SU2xS3": [["prod", ["SU2", 1], ["Sn", "standard", 3]]],
}


def forms(irs, level=0):
    """the available forms of representations made of the tabulated irreps irs"""
    a = irs[0]
    b = irs[1] if len(irs) > 1 else irs[0]
    res = [
        a,
        b,
        ["gen", a],
        ["mul", 2, a],
        ["mul", 1, b],
        red((1, a), (2, b)),
        red((1, b), (1, a), q="gen"),
        red((2, a), (1, b), q="cgen"),
        ["cb", "unit", a],
        ["gen", red((1, a), (1, b))],
        red((1, b), (1, a), (1, b)),
        ["cb", "tri", ["mul", 2, b]],
        red((0, a), (1, b)),
        ["reduce", ["gen", a]],
    ]
    if level:
        res += [["conj", a], ["mul", 3, a], red((1, a), q="perm"), ["mul", 0, a], ["cb", "cgen", ["cb", "gen", b]],
                ["red", [["mul", 2, ["gen", a]], b], "rot"], *irs[2:]]
    return res


def generic_forms(v):
    a = v[0]
    b = v[1] if len(v) > 1 else v[0]
    return [a, b, ["mul", 2, a], ["red", [a, ["mul", 2, b]], None], ["red", [b, a], "gen"], ["cb", "cgen", a], ["reduce", ["cb", "unit", a]]]


TABULATED_FORMS = ("mul", "red", "cb") + LEAVES


def is_decomposed(spec):
    k = spec[0]
    if k in LEAVES:
        return True
    if k in ("mul", "cb"):
        return is_decomposed(spec[2])
    if k == "red":
        return all(is_decomposed(s) for s in spec[1])
    return False
