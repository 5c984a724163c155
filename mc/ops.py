"""An alphabet of calls of the public interface: name -> function building fresh arguments and
returning (arguments, call).  Shared by the exploration of histories and of interleavings."""
import dataclasses
import importlib
import itertools

import numpy as np

from . import ref, reps

B = reps.build


def U():
    return importlib.import_module("lie_nn.util")


def L():
    return reps.lie()


OPS = {}
CHEAP = []  # few executed lines: used for interleavings
SHARED = []  # sharing caches with others: used for deeper histories


def op(name, cheap=False, shared=False):
    def deco(f):
        OPS[name] = f
        if cheap:
            CHEAP.append(name)
        if shared:
            SHARED.append(name)
        return f

    return deco


def static(name, args, call, **kw):
    """args: function returning fresh arguments, call: function of these"""

    def make():
        a = args()
        return a, lambda: call(*a)

    op(name, **kw)(make)


def cgname(specs):
    return "cg " + " ".join("".join(map(str, s)) for s in specs)


# ---- tabulated coefficients, many with equal dimensions
CG = [
    [["SU2", 1], ["SU2", 1], ["SU2", 2]],
    [["SU2", 2], ["SU2", 2], ["SU2", 2]],
    [["SU2", 2], ["SU2", 2], ["SU2", 4]],
    [["SU2", 2], ["SU2", 4], ["SU2", 2]],
    [["SO3", 1], ["SO3", 1], ["SO3", 1]],
    [["SO3", 1], ["SO3", 1], ["SO3", 2]],
    [["SO3", 1], ["SO3", 2], ["SO3", 1]],
    [["O3", 1, -1], ["O3", 1, -1], ["O3", 1, 1]],
    [["O3", 1, -1], ["O3", 1, -1], ["O3", 1, -1]],
    [["SU2Real", 1], ["SU2Real", 1], ["SU2Real", 1]],
    [["SL2C", 1, 0], ["SL2C", 0, 1], ["SL2C", 1, 1]],
    [["SL2C", 1, 0], ["SL2C", 1, 0], ["SL2C", 2, 0]],
    [["SO13", 1, 1], ["SO13", 1, 1], ["SO13", 2, 0]],
    [["SU2_", [1, 0]], ["SU2_", [1, 0]], ["SU2_", [2, 0]]],
    [["SU2_", [2, 0]], ["SU2_", [2, 0]], ["SU2_", [2, 0]]],
    [["SU3", [1, 0, 0]], ["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]]],
    [["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SU3", [0, 0, 0]]],
    [["SU3", [1, 1, 0]], ["SU3", [1, 1, 0]], ["SU3", [1, 0, 0]]],
    [["Z2", 1], ["Z2", -1], ["Z2", -1]],
]
for _c in CG:
    static(
        cgname(_c), lambda c=_c: tuple(B(s) for s in c), lambda a, b, c: a.clebsch_gordan(a, b, c),
        cheap=_c in (CG[0], CG[4], CG[10], CG[13], CG[15]),
    )
for _c in (CG[1], CG[4], CG[10]):
    static("generic " + cgname(_c), lambda c=_c: tuple(B(["gen", s]) for s in c), lambda a, b, c: L().clebsch_gordan(a, b, c))
for _a, _b in [(["SU2", 2], ["SU2", 3]), (["SO3", 1], ["SO3", 2]), (["SU3", [2, 1, 0]], ["SU3", [1, 0, 0]]), (["SL2C", 1, 1], ["SL2C", 2, 0])]:
    static("times " + repr(_a) + repr(_b), lambda a=_a, b=_b: (B(a), B(b)), lambda a, b: list(a * b))

# ---- labels


def _labels(c):
    from .props.c03 import cls

    return cls(c)


def _dim(c, S):
    r = c(S)
    return r.dim, r.is_scalar(), repr(r)


for _c, _t in [("SU3", "2x(2,1,0)+(1,0,0)"), ("O3", "3x1o + 0e"), ("SL2C", "(1,0)+2x(0,3)"), ("SO3", "1+12+2x3")]:
    static(f"read {_c}", lambda c=_c, t=_t: (_labels(c), t), lambda c, t: [(m.mul, m.rep) for m in L().ReducedRep.from_string(t, c).irreps], cheap=_c == "O3")
for _c in ("SU3", "O3", "SL2C"):
    static(f"iterate {_c}", lambda c=_c: (_labels(c),), lambda c: list(itertools.islice(c.iterator(), 9)))
for _c, _S in (("SON", (1, 0, 2)), ("SPN", (1, 1, 0)), ("SUN", (4, 2, 1, 0))):
    static(f"dim {_c}", lambda c=_c, S=_S: (_labels(c), S), _dim)

# ---- generators
for _s in (["SU2", 2], ["SU2", 1], ["SO3", 1], ["O3", 1, -1], ["SU2Real", 1], ["SL2C", 1, 1], ["SO13", 1, 1],
           ["SU2_", [2, 0]], ["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]], ["Z2", -1], ["mul", 2, ["SO3", 1]],
           ["red", [["SO3", 1], ["mul", 2, ["SO3", 0]]], "gen"], ["prod", ["SO3", 1], ["Z2", -1]], ["Sn", "standard", 3]):
    static("rep " + repr(_s), lambda s=_s: (B(s),), lambda r: (r.A, r.X, r.H, r.dim, r.lie_dim),
           cheap=_s in (["SO3", 1], ["SU2_", [2, 0]], ["SU3", [1, 0, 0]], ["red", [["SO3", 1], ["mul", 2, ["SO3", 0]]], "gen"]))
static("exp O3", lambda: (B(["O3", 1, -1]), ref.params(3, 1), np.array([3])), lambda r, v, k: r.exp_map(v, k))
static("exp red", lambda: (B(["red", [["SU2", 1], ["SU2", 2]], "cgen"]), ref.params(3, 2), np.array([], dtype=int)), lambda r, v, k: r.exp_map(v, k))
static("trivial", lambda: (B(["gen", ["SO3", 1]]),), lambda r: r.create_trivial())
static("trivial SU3", lambda: (B(["SU3", [1, 0, 0]]),), lambda r: r.create_trivial())

# ---- operations on representations
static("change_basis gen", lambda: (B(["gen", ["SO3", 1]]), ref.basis("gen", 3)), lambda r, q: L().change_basis(r, q))
static("change_basis mul", lambda: (B(["mul", 2, ["SO3", 1]]), ref.basis("cgen", 6)), lambda r, q: L().change_basis(r, q))
static("change_basis red", lambda: (B(["red", [["SO3", 1], ["SO3", 0]], "rot"]), ref.basis("gen", 4)), lambda r, q: L().change_basis(r, q))
static("change_algebra", lambda: (B(["SU2", 1]), ref.basis("gen", 3)), lambda r, q: L().change_algebra(r, q))
static("conjugate", lambda: (B(["gen", ["SU2", 1]]),), lambda r: L().conjugate(r))
static("conjugate red", lambda: (B(["red", [["SU3", [1, 0, 0]]], "cgen"]),), lambda r: L().conjugate(r))
static("direct_sum", lambda: (B(["gen", ["SO3", 1]]), B(["SO3", 2])), lambda a, b: L().direct_sum(a, b), cheap=True)
static("direct_sum red", lambda: (B(["red", [["SO3", 1]], "gen"]), B(["red", [["SO3", 0], ["SO3", 1]], "rot"])), lambda a, b: L().direct_sum(a, b))
static("tensor irrep", lambda: (B(["SO3", 1]), B(["SO3", 1])), lambda a, b: L().tensor_product(a, b))
static("tensor red", lambda: (B(["red", [["SO3", 1], ["SO3", 0]], "gen"]), B(["mul", 2, ["SO3", 1]])), lambda a, b: L().tensor_product(a, b))
static("tensor gen", lambda: (B(["gen", ["SU2", 1]]), B(["gen", ["SU2", 2]])), lambda a, b: L().tensor_product(a, b), cheap=True)
static("power", lambda: (B(["SO3", 1]), 2), lambda a, n: L().tensor_power(a, n))
static("power SU2", lambda: (B(["SU2", 1]), 3), lambda a, n: L().tensor_power(a, n))
static("group_product", lambda: (B(["gen", ["SO3", 1]]), B(["Z2", -1])), lambda a, b: L().group_product(a, b), cheap=True)
static("infer", lambda: (B(["SO3", 1]), B(["cb", "rot", ["gen", ["SO3", 1]]])), lambda a, b: L().infer_change_of_basis(a, b))
static("infer none", lambda: (B(["SO3", 1]), B(["SO3", 2])), lambda a, b: L().infer_change_of_basis(a, b))
static("is_real", lambda: (B(["SU2", 2]),), lambda r: L().is_real(r))
static("is_real no", lambda: (B(["SU3", [1, 0, 0]]),), lambda r: L().is_real(r))
static("make_real", lambda: (B(["SU2", 2]),), lambda r: L().make_explicitly_real(r))
static("is_unitary", lambda: (B(["SO3", 1]),), lambda r: L().is_unitary(r))
static("is_irreducible", lambda: (B(["gen", ["SO3", 1]]),), lambda r: L().is_irreducible(r))
static("reduce", lambda: (B(["gen", ["red", [["SO3", 1], ["SO3", 0]], "rot"]]),), lambda r: L().reduce(r))
static("check triplet", lambda: tuple(B(["SO3", 1]) for _ in range(3)), lambda a, b, c: L().check_representation_triplet(a, b, c))


def refused_triplet():
    from .props import c21

    ms = [reps.model(["SO3", 1]) for _ in range(3)]
    cg = np.ones((2, 3, 3, 3))
    cls = c21.table_class(cg)
    return tuple(cls(f"t{k}", m) for k, m in enumerate(ms))


static("check triplet refused", refused_triplet, lambda a, b, c: L().check_representation_triplet(a, b, c))
static("from_generators", lambda: (np.array(B(["SU2", 1]).X),), lambda x: L().GenericRep.from_generators(x))

# ---- tensor bases: same index symmetries with different irreps of the same dimension and back
for _f, _d in [
    ("ij=ji", {"i": ["SO3", 1]}),
    ("ij=-ji", {"i": ["SO3", 1]}),
    ("ij=ji", {"i": ["SU2", 2]}),
    ("ij=ji", {"i": ["red", [["SO3", 0], ["SO3", 0], ["SO3", 0]]]}),
    ("ij=ji", {"i": ["red", [["SO3", 1]], "gen"]}),
    ("ji=ij", {"i": ["SO3", 1]}),
    ("ij=ji", {"i": ["O3", 1, -1]}),
    ("ij", {"i": ["SO3", 1], "j": ["SU2", 2]}),  # different groups
    ("ij", {"i": ["SO3", 1], "j": ["SO3", 2]}),
    ("ij", {"i": ["SO3", 2], "j": ["SO3", 1]}),
    ("ijk=jik=-ikj", {"i": ["SU2", 1]}),
    ("ijk=jik", {"i": ["SU2", 1], "k": ["SU2", 2]}),
    ("ijk=ikj", {"i": ["SU2", 2], "j": ["SU2", 1]}),
    ("ijk=jki", {"i": ["SU2", 1]}),
    ("ij=ik", {"i": ["SO3", 1], "j": ["SO3", 1]}),  # refused
    ("ij=ji", {"i": ["SO3", 1], "j": ["SO3", 2]}),  # refused
]:
    static(
        f"basis {_f} {_d}".replace("'", ""), lambda f=_f, d=_d: (f, {k: B(s) for k, s in d.items()}),
        lambda f, d: L().reduced_tensor_product_basis(f, **d), shared=True, cheap=_d == {"i": ["SU2", 1]},
    )
static("basis list", lambda: ([B(["SO3", 1]), B(["SO3", 1])],), lambda x: L().reduced_tensor_product_basis(x), shared=True)
static("symmetric 2", lambda: (B(["SO3", 1]),), lambda r: L().reduced_symmetric_tensor_product_basis(r, 2), shared=True)
static("symmetric 3", lambda: (B(["SU2", 1]),), lambda r: L().reduced_symmetric_tensor_product_basis(r, 3), shared=True, cheap=True)

# ---- numerical tools
M = np.array([[2.0, 1, 0, -1], [0, 1, 1, 3], [2, 2, 1, 2]])
static("gram_schmidt", lambda: (M.copy(),), lambda a: U().gram_schmidt(a), cheap=True)
static("extend_basis", lambda: (M[:2].copy(),), lambda a: U().extend_basis(a))
static("extend_basis E", lambda: ((M[:2] * (1 + 1j)).astype(complex),), lambda a: U().extend_basis(a, returns="E"))
static("nullspace", lambda: (M.copy(),), lambda a: U().nullspace(a), cheap=True)
static("nullspace rounded", lambda: (M.copy(),), lambda a: U().nullspace(a, round_fn=U().round_to_sqrt_rational))
static("sequential", lambda: ([M[:1].copy(), M[1:].copy()],), lambda a: U().sequential_nullspace(a, 1))
static("sequential refused", lambda: ([M[:1].copy()],), lambda a: U().sequential_nullspace(a, 1))
static("intersection", lambda: (M[:2].copy(), M[1:].copy()), lambda a, b: U().basis_intersection(a, b))
static("round", lambda: (np.sqrt(np.array([0.5, 2 / 3, 3.0])) + 1e-12,), lambda a: U().round_to_sqrt_rational(a), cheap=True)
static("limit_denominator", lambda: (np.array([31415926, 7]), np.array([10000000, 9])), lambda n, d: U().limit_denominator(n, d, 1000))
static("ratio", lambda: (np.array([0.5, -1 / 3, 0.0, 7.25]),), lambda x: U().as_approx_integer_ratio(x))
static("infer_algebra", lambda: (np.array(B(["SO3", 1]).X),), lambda x: U().infer_algebra_from_generators(x))
static("unique", lambda: (np.array([[1.0, 2], [1.0, 2 + 1e-9], [3, 4]]),), lambda a: importlib.import_module("lie_nn._src.util").unique_with_tol(a, tol=1e-6))
static("unique refused", lambda: (np.array([[0.0], [1.5e-6], [0.8e-6]]),), lambda a: importlib.import_module("lie_nn._src.util").unique_with_tol(a, tol=1e-6))
static("decompose", lambda: (np.real(B(["gen", ["red", [["SO3", 1], ["SO3", 0]], "rot"]]).X).copy(),), lambda x: U().decompose_rep_into_irreps(x))
static("regular", lambda: (np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]]),), lambda t: U().regular_representation(t))
static("vmap", lambda: (np.arange(6.0).reshape(2, 3), np.arange(4.0).reshape(2, 2)), lambda a, b: U().vmap(lambda x, y: (x * 2, y + 1))(a, b))
static("block", lambda: ([np.ones((2, 1, 2)), 2 * np.ones((2, 2, 1))],), lambda a: U().block_diagonal(a))
static("util direct_sum", lambda: (np.ones((2, 1, 2)), 2 * np.ones((2, 1))), lambda a, b: U().direct_sum(a, b))
static("util direct_sum same", lambda: (np.ones((2, 2)), 3 * np.ones((2, 2))), lambda a, b: U().direct_sum(a, b))
static("util kron", lambda: (M[:2, :2].copy(), M[1:, 1:].copy()), lambda a, b: U().kron(a, b))
static("commutator", lambda: (M[:2, :2].copy(), M[1:, 2:].copy()), lambda a, b: U().commutator(a, b))
static("structure B", lambda: ("B", 3), lambda s, n: importlib.import_module("lie_nn._src.lie_algebra_utils").structure_algebra(s, n))
static("structure C", lambda: ("C", 3), lambda s, n: importlib.import_module("lie_nn._src.lie_algebra_utils").structure_algebra(s, n))
static("vmap shaped", lambda: (np.arange(6.0).reshape(2, 3), [3]), lambda x, s: [U().vmap(lambda y: y + 1, out_shape=s)(x), U().vmap(lambda y: y - 1, out_axes=1, out_shape=s)(x[:0])])


def P():
    return importlib.import_module("lie_nn._src.discrete_groups.perm")


static("perm group", lambda: (3,), lambda n: P().group(n))
static("perm germinate", lambda: ({(1, 2, 0, 3), (0, 1, 3, 2)},), lambda g: P().germinate(g))
static("perm germinate one", lambda: ({(0, 1, 2)},), lambda g: P().germinate(g))
static("perm to_cycles", lambda: ((1, 2, 0, 4, 3),), lambda p: P().to_cycles(p))
static("perm is_group", lambda: ({(0, 1), (1, 0)},), lambda g: P().is_group(g))


# ---- variants: the same code with other data (of the same and of other shapes); interleavings only
VARIANTS = {}
EXTRA = {}


def variant(base, args, call=None):
    """other arguments for the call of an operation"""
    name = f"{base} ~{len(VARIANTS.setdefault(base, [])) + 1}"

    def make():
        a = args()
        return a, lambda: call(*a)

    EXTRA[name] = make
    VARIANTS[base].append(name)


def get(name):
    return OPS.get(name) or EXTRA[name]


def _cg(base, *triplets):
    for t in triplets:
        variant(cgname(base), lambda t=t: tuple(B(s) for s in t), lambda a, b, c: a.clebsch_gordan(a, b, c))


_cg(CG[0], [["SU2", 1], ["SU2", 1], ["SU2", 0]], [["SU2", 2], ["SU2", 1], ["SU2", 1]])
_cg(CG[4], [["SO3", 1], ["SO3", 1], ["SO3", 0]], [["SO3", 0], ["SO3", 1], ["SO3", 1]])
_cg(CG[7], [["O3", 1, 1], ["O3", 1, -1], ["O3", 1, -1]], [["O3", 1, 1], ["O3", 0, -1], ["O3", 1, -1]])
_cg(CG[9], [["SU2Real", 1], ["SU2Real", 0], ["SU2Real", 1]])
_cg(CG[10], [["SL2C", 0, 1], ["SL2C", 1, 0], ["SL2C", 1, 1]], [["SL2C", 1, 0], ["SL2C", 1, 0], ["SL2C", 2, 0]])
_cg(CG[13], [["SU2_", [1, 0]], ["SU2_", [1, 0]], ["SU2_", [0, 0]]], [["SU2_", [2, 0]], ["SU2_", [1, 0]], ["SU2_", [1, 0]]])
_cg(CG[15], [["SU3", [1, 1, 0]], ["SU3", [1, 1, 0]], ["SU3", [1, 0, 0]]])
for _b, _v in [
    (["SU2", 2], [["SU2", 3], ["SU2", 1]]),
    (["SO3", 1], [["SO3", 0], ["SO3", 2]]),
    (["O3", 1, -1], [["O3", 1, 1], ["O3", 0, -1]]),
    (["SU2Real", 1], [["SU2Real", 0.5]]),
    (["SL2C", 1, 1], [["SL2C", 3, 0], ["SL2C", 0, 1]]),
    (["SO13", 1, 1], [["SO13", 0, 0]]),
    (["SU2_", [2, 0]], [["SU2_", [1, 0]]]),
    (["SU3", [1, 0, 0]], [["SU3", [1, 1, 0]], ["SU3", [2, 0, 0]]]),
    (["mul", 2, ["SO3", 1]], [["mul", 6, ["SO3", 0]], ["mul", 3, ["SO3", 1]]]),
    (["red", [["SO3", 1], ["mul", 2, ["SO3", 0]]], "gen"], [["red", [["mul", 2, ["SO3", 0]], ["SO3", 1]], "rot"], ["red", [["SO3", 1], ["SO3", 0]], "rot"]]),
    (["Sn", "standard", 3], [["Sn", "standard", 4], ["Sn", "natural", 3]]),
]:
    for _s in _v:
        variant("rep " + repr(_b), lambda s=_s: (B(s),), lambda r: (r.A, r.X, r.H, r.dim, r.lie_dim))
for _a, _b, _v in [
    (["SU2", 2], ["SU2", 3], (["SU2", 1], ["SU2", 4])),
    (["SU3", [2, 1, 0]], ["SU3", [1, 0, 0]], (["SU3", [1, 0, 0]], ["SU3", [3, 0, 0]])),
    (["SL2C", 1, 1], ["SL2C", 2, 0], (["SL2C", 0, 3], ["SL2C", 1, 2])),
]:
    variant("times " + repr(_a) + repr(_b), lambda v=_v: (B(v[0]), B(v[1])), lambda a, b: list(a * b))
variant("read SU3", lambda: (_labels("SU3"), "(3,0,0)+5x(1,1,0)"), lambda c, t: [(m.mul, m.rep) for m in L().ReducedRep.from_string(t, c).irreps])
variant("read O3", lambda: (_labels("O3"), "2o+4x11e"), lambda c, t: [(m.mul, m.rep) for m in L().ReducedRep.from_string(t, c).irreps])
variant("iterate SU3", lambda: (_labels("SU4"),), lambda c: list(itertools.islice(c.iterator(), 9)))
variant("iterate SL2C", lambda: (_labels("SO13"),), lambda c: list(itertools.islice(c.iterator(), 9)))
variant("dim SON", lambda: (_labels("SON"), (0, 2, 1)), _dim)
variant("dim SON", lambda: (_labels("SON"), (0, 1, 0, 2)), _dim)
variant("dim SPN", lambda: (_labels("SPN"), (0, 2, 1)), _dim)
variant("dim SUN", lambda: (_labels("SUN"), (5, 5, 1, 0)), _dim)
variant("exp O3", lambda: (B(["O3", 1, 1]), ref.params(3, 2), np.array([2])), lambda r, v, k: r.exp_map(v, k))
variant("exp red", lambda: (B(["red", [["SU2", 2], ["SU2", 1]], "gen"]), ref.params(3, 1), np.array([], dtype=int)), lambda r, v, k: r.exp_map(v, k))
variant("change_basis red", lambda: (B(["red", [["SO3", 0], ["SO3", 1]], "gen"]), ref.basis("cgen", 4)), lambda r, q: L().change_basis(r, q))
variant("change_basis gen", lambda: (B(["gen", ["SO3", 1]]), ref.basis("tri", 3)), lambda r, q: L().change_basis(r, q))
variant("change_algebra", lambda: (B(["SU2", 2]), ref.basis("tri", 3)), lambda r, q: L().change_algebra(r, q))
variant("conjugate red", lambda: (B(["red", [["SU3", [1, 1, 0]]], "rot"]),), lambda r: L().conjugate(r))
variant("direct_sum", lambda: (B(["gen", ["SO3", 2]]), B(["SO3", 1])), lambda a, b: L().direct_sum(a, b))
variant("direct_sum red", lambda: (B(["red", [["SO3", 1]], "rot"]), B(["red", [["SO3", 1], ["SO3", 0]], "gen"])), lambda a, b: L().direct_sum(a, b))
variant("tensor irrep", lambda: (B(["SO3", 1]), B(["SO3", 2])), lambda a, b: L().tensor_product(a, b))
variant("tensor red", lambda: (B(["red", [["SO3", 0], ["SO3", 1]], "rot"]), B(["mul", 2, ["SO3", 1]])), lambda a, b: L().tensor_product(a, b))
variant("tensor gen", lambda: (B(["gen", ["SU2", 2]]), B(["gen", ["SU2", 1]])), lambda a, b: L().tensor_product(a, b))
variant("power", lambda: (B(["SO3", 0]), 3), lambda a, n: L().tensor_power(a, n))
variant("group_product", lambda: (B(["gen", ["SO3", 0]]), B(["Z2", 1])), lambda a, b: L().group_product(a, b))
variant("infer", lambda: (B(["SO3", 1]), B(["cb", "perm", ["gen", ["SO3", 1]]])), lambda a, b: L().infer_change_of_basis(a, b))
variant("is_real", lambda: (B(["SU3", [1, 0, 0]]),), lambda r: L().is_real(r))
variant("make_real", lambda: (B(["cb", "unit", ["gen", ["SO3", 1]]]),), lambda r: L().make_explicitly_real(r))
variant("is_unitary", lambda: (B(["cb", "gen", ["gen", ["SO3", 1]]]),), lambda r: L().is_unitary(r))
variant("is_irreducible", lambda: (B(["gen", ["mul", 2, ["SO3", 0]]]),), lambda r: L().is_irreducible(r))
variant("reduce", lambda: (B(["gen", ["red", [["SO3", 0], ["SO3", 1]], "cgen"]]),), lambda r: L().reduce(r))
variant("from_generators", lambda: (np.array(B(["SO3", 1]).X),), lambda x: L().GenericRep.from_generators(x))
variant("check triplet", lambda: (B(["SO3", 1]), B(["SO3", 1]), B(["SO3", 2])), lambda a, b, c: L().check_representation_triplet(a, b, c))
for _b, _f, _d in [
    ("basis ij=-ji {i: [SO3, 1]}", "ij=ji", {"i": ["SO3", 1]}),
    ("basis ij=-ji {i: [SO3, 1]}", "ij=-ji", {"i": ["SU2", 2]}),
    ("basis ij=-ji {i: [SO3, 1]}", "ij=-ji", {"i": ["SU2", 1]}),
    ("basis ij {i: [SO3, 1], j: [SO3, 2]}", "ij", {"i": ["SO3", 2], "j": ["SO3", 0]}),
    ("basis ijk=jki {i: [SU2, 1]}", "ijk=kji", {"i": ["SU2", 1]}),
    ("basis ijk=jki {i: [SU2, 1]}", "ijk=-jik", {"i": ["SU2", 1]}),
]:
    variant(_b, lambda f=_f, d=_d: (f, {k: B(s) for k, s in d.items()}), lambda f, d: L().reduced_tensor_product_basis(f, **d))
variant("symmetric 2", lambda: (B(["SU2", 2]),), lambda r: L().reduced_symmetric_tensor_product_basis(r, 2))
variant("symmetric 2", lambda: (B(["SU2", 1]),), lambda r: L().reduced_symmetric_tensor_product_basis(r, 2))
M2 = np.array([[0.0, 1, 3, -1], [1, 1, 1, 1], [1, 2, 4, 0]])
variant("gram_schmidt", lambda: (M2.copy(),), lambda a: U().gram_schmidt(a))
variant("gram_schmidt", lambda: (M[:, :2] * (1 + 1j),), lambda a: U().gram_schmidt(a))
variant("extend_basis", lambda: (M2[:2].copy(),), lambda a: U().extend_basis(a))
variant("extend_basis", lambda: (M2[:1, :3].copy(),), lambda a: U().extend_basis(a))
variant("nullspace", lambda: (M2.copy(),), lambda a: U().nullspace(a))
variant("nullspace", lambda: (M2[:1, :3].copy(),), lambda a: U().nullspace(a))
variant("sequential", lambda: ([M2[:1].copy(), M2[1:].copy()],), lambda a: U().sequential_nullspace(a, 1))
variant("sequential", lambda: ([M2[:1, :3].copy(), M[1:2, :3].copy()],), lambda a: U().sequential_nullspace(a, 1))
variant("intersection", lambda: (M2[:2].copy(), M2[1:].copy()), lambda a, b: U().basis_intersection(a, b))
variant("intersection", lambda: (M2[:2, :3].copy(), M[1:, :3].copy()), lambda a, b: U().basis_intersection(a, b))
variant("round", lambda: (np.sqrt(np.array([0.25, 1 / 3, 2.0])) + 1e-12,), lambda a: U().round_to_sqrt_rational(a))
variant("round", lambda: (np.array([[0.5 + 1j * np.sqrt(3) / 2, 1j]]),), lambda a: U().round_to_sqrt_rational(a))
variant("limit_denominator", lambda: (np.array([27182818, 1]), np.array([10000000, 3])), lambda n, d: U().limit_denominator(n, d, 1000))
variant("limit_denominator", lambda: (np.array([[27182818], [1], [2]]), np.array([[10000000], [3], [12345]])), lambda n, d: U().limit_denominator(n, d, 100))
variant("ratio", lambda: (np.array([0.75, 1 / 3, 2.0, -0.125]),), lambda x: U().as_approx_integer_ratio(x))
variant("ratio", lambda: (np.array([[0.3]]),), lambda x: U().as_approx_integer_ratio(x))
variant("infer_algebra", lambda: (np.array(B(["SU2", 2]).X),), lambda x: U().infer_algebra_from_generators(x))
variant("unique", lambda: (np.array([[3.0, 4], [1, 2], [3, 4 + 1e-9]]),), lambda a: importlib.import_module("lie_nn._src.util").unique_with_tol(a, tol=1e-6))
variant("decompose", lambda: (np.real(B(["gen", ["red", [["SO3", 0], ["SO3", 1]], "gen"]]).X).copy(),), lambda x: U().decompose_rep_into_irreps(x))
variant("regular", lambda: (np.array([[0, 1, 2, 3], [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]]),), lambda t: U().regular_representation(t))
variant("vmap", lambda: (-np.arange(6.0).reshape(2, 3), 5 - np.arange(4.0).reshape(2, 2)), lambda a, b: U().vmap(lambda x, y: (x * 3, y + 2))(a, b))
variant("perm group", lambda: (4,), lambda n: P().group(n))
variant("perm group", lambda: (2,), lambda n: P().group(n))
variant("perm germinate", lambda: ({(1, 0, 2, 3), (0, 1, 3, 2)},), lambda g: P().germinate(g))
variant("perm to_cycles", lambda: ((3, 2, 1, 0),), lambda p: P().to_cycles(p))
variant("vmap shaped", lambda: (-np.arange(6.0).reshape(2, 3), [3]), lambda x, s: U().vmap(lambda y: y * 2, out_shape=s)(x))
variant("block", lambda: ([3 * np.ones((2, 1, 2)), 4 * np.ones((2, 2, 1))],), lambda a: U().block_diagonal(a))
variant("block", lambda: ([3 * np.ones((1, 2, 2)), 4 * np.ones((1, 2, 2))],), lambda a: U().block_diagonal(a))
variant("util direct_sum", lambda: (3 * np.ones((2, 1, 2)), 4 * np.ones((2, 1))), lambda a, b: U().direct_sum(a, b))
variant("util kron", lambda: (M2[:2, :2].copy(), M2[1:, 1:].copy()), lambda a, b: U().kron(a, b))
variant("commutator", lambda: (M2[:2, :2].copy(), M2[1:, 2:].copy()), lambda a, b: U().commutator(a, b))
for _s, _n in (("B", 2), ("D", 4), ("B", 3)):
    variant("structure C", lambda s=_s, n=_n: (s, n), lambda s, n: importlib.import_module("lie_nn._src.lie_algebra_utils").structure_algebra(s, n))


# ---------------------------------------------------------------- values


def canon(x, depth=0):
    """nested tuples of copies of arrays and of plain values"""
    from lie_nn import Rep

    if isinstance(x, np.ndarray):
        return ("array", x.dtype.kind, np.array(x))
    if isinstance(x, np.generic):
        return ("array", x.dtype.kind, np.array(x))
    if isinstance(x, (tuple, list, map)):
        return tuple(canon(y, depth + 1) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(canon(y, depth + 1) for y in sorted(x))
    if isinstance(x, dict):
        return tuple((k, canon(v, depth + 1)) for k, v in sorted(x.items()))
    if isinstance(x, Rep):
        return (type(x).__name__, repr(x), canon(x.A), canon(x.X), canon(x.H))
    if isinstance(x, Exception):
        return ("raised", type(x).__name__)
    if isinstance(x, (str, int, float, complex, bool, type(None), type)):
        return x
    raise TypeError(type(x))


def outcome(name, res):
    """what is compared of a result: of the random decompositions, only what does not depend on the random numbers"""
    base = name.split(" ~")[0]
    if isinstance(res, Exception) or base not in ("reduce", "decompose"):
        return canon(res)
    if base == "decompose":
        inv = []
        for Y in res:
            t = np.concatenate([np.einsum("aii->a", Y), np.einsum("aij,bji->ab", Y, Y).ravel()])
            inv.append((len(Y), Y.shape[-1], tuple(float(x) for x in np.round(np.concatenate([t.real, t.imag]), 6) + 0.0)))
        return tuple(sorted(inv))
    # the decomposed representation is the one that was given
    return (type(res).__name__, tuple(sorted((m.mul, m.rep.dim) for m in getattr(res, "irreps", ()))), canon(np.asarray(res.X, complex)), canon(np.asarray(res.H, complex)))


def differ(a, b, where="result", tol=1e-7):
    """None, or the first difference"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 3 and a[0] == "array" and b[0:1] == ("array",):
            if a[1] != b[1]:
                return f"{where}: dtype kind {b[1]} instead of {a[1]}"
            if a[2].shape != b[2].shape:
                return f"{where}: shape {b[2].shape} instead of {a[2].shape}"
            if a[2].size:
                e = np.max(np.abs(a[2] - b[2]))
                if not e <= tol * max(1, np.max(np.abs(a[2]))):
                    return f"{where}: off by {e:.3g}"
            return None
        if len(a) != len(b):
            return f"{where}: {len(b)} items instead of {len(a)}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{where}[{k}]", tol)
            if d:
                return d
        return None
    if isinstance(a, str) and isinstance(b, str):
        return None if a == b or where.endswith("[1]") else f"{where}: {b!r} instead of {a!r}"
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) <= tol * max(1, abs(a)) else f"{where}: {b} instead of {a}"
    return None if a == b else f"{where}: {b!r} instead of {a!r}"


def scribble(x, seen=None):
    """overwrites every array and list that can be reached from a result"""
    from lie_nn import Rep

    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = True if x.dtype.kind == "b" else 7
        return
    if isinstance(x, (tuple, list)):
        for y in x:
            scribble(y, seen)
        if isinstance(x, list):
            x.append(None)
        return
    if isinstance(x, set):
        x.clear()
        x.add((0, 0, 0, 7))
        return
    if isinstance(x, dict):
        for y in list(x.values()):
            scribble(y, seen)
        x.clear()
        return
    if isinstance(x, Rep):
        for y in list(getattr(x, "__dict__", {}).values()):
            scribble(y, seen)


def run(name):
    """-> (arguments, result); a refusal counts as a result"""
    args, call = get(name)()
    try:
        res = call()
    except (RuntimeError, ValueError, AssertionError, TypeError, KeyError, IndexError) as e:
        res = e
    if isinstance(res, map):
        res = list(res)
    return args, res
