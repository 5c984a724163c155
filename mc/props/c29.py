"""Irreps as static values under the transformations of JAX."""
import dataclasses
import itertools

import numpy as np
import scipy.linalg

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect, fail

ASSUMPTIONS = [
    "JAX in single precision on the CPU (compared at 2e-4), real coordinates, non-negative powers of real matrices",
    "compiled functions take irreps as static arguments, or as values of classes made static by the library",
]
TOL = 2e-4


def J():
    reps.lie()
    import jax

    from lie_nn._src import jax_utils

    return jax, jax_utils


def params(n, k, i):
    return 0.6 * ref.params(n, i), np.array([(i + j) % 3 for j in range(k)], dtype=int)


def want(m, v, t):
    """the element of the group, by dense matrices"""
    d = m.dim
    x = scipy.linalg.expm(np.einsum("a,aij->ij", v, m.X)) if len(m.X) else np.eye(d)
    for h, p in reversed(list(zip(m.H, t))):
        x = np.linalg.matrix_power(h, int(p)) @ x
    return x


PROD = [["prod", ["SU2", 1], ["Z2", -1]], ["prod", ["Z2", -1], ["SU2", 1]], ["prod", ["SU2", 1], ["Z2", 1]], ["prod", ["SO3", 1], ["O3", 1, -1]], ["prod", ["O3", 1, -1], ["SO3", 1]],
        ["prod", ["SU2", 1], ["SU2", 2]], ["prod", ["SU2", 2], ["SU2", 1]]]
MORE = [["O3", 0, 1], ["O3", 1, 1], ["O3", 2, -1], ["SO3", 3], ["SU2", 4], ["SL2C", 0, 0], ["SL2C", 2, 0], ["SL2C", 0, 2], ["SO13", 2, 2], ["SO13", 0, 2],
        ["SU2_", [3, 0]], ["SU3", [2, 0, 0]], ["SU3", [2, 1, 0]], ["SU3", [2, 2, 0]], ["SU4", [1, 1, 1, 0]], ["SU4", [1, 1, 0, 0]], ["SU4", [0, 0, 0, 0]],
        ["SUN", [1, 0]], ["SUN", [1, 0, 0]], ["SUN", [1, 1, 0]], ["SUN", [1, 0, 0, 0]]]


def history(ctx, case):
    """one compiled function serves labels in the order given, twice over; it must never mix them up"""
    specs, first = case
    jax, ju = J()
    f = jax.jit(ju.exp_map, static_argnums=0)
    order = specs[first:] + specs[:first]
    for rnd, seq in enumerate((order, order[::-1])):
        for s in seq:
            rep, m = reps.build(s), reps.model(s)
            v, t = params(len(m.X), len(m.H), rnd)
            g = np.asarray(f(rep, v, t))
            close(g, want(m, v, t), f"compiled exp_map of {s} after {seq[:seq.index(s)]}", TOL)
            ctx.step()
            ctx.state(specs.index(s), first, rnd)


def static_class(spec, ju):
    c = type(reps.build(spec))
    return ju.static_jax_pytree(type(c.__name__, (c,), {}))


def pytree(ctx, case):
    """classes made static: all ordered pairs of labels"""
    specs = case
    jax, ju = J()
    tu = jax.tree_util
    cls = static_class(specs[0], ju)

    def make(s):
        r = reps.build(s)
        return cls(**{f.name: getattr(r, f.name) for f in dataclasses.fields(r)})

    f = jax.jit(ju.exp_map)
    g = jax.jit(lambda d, x: {"out": d["rep"], "x": x * d["rep"].dim + d["w"]})
    objs = [make(s) for s in specs]
    for i, (s, a) in enumerate(zip(specs, objs)):
        leaves, tree = tu.tree_flatten(a)
        expect(leaves == [], f"{s}: leaves {leaves}")
        b = tu.tree_unflatten(tree, leaves)
        expect(type(b) is cls and b == a and hash(b) == hash(a) and repr(b) == repr(a), f"{s}: unflattened to {b!r}")
        b = tu.tree_map(lambda x: 1 / 0, a)
        expect(type(b) is cls and b == a, f"{s}: mapped to {b!r}")
        arr = np.arange(3.0)
        leaves, tree = tu.tree_flatten({"r": (a, arr), "n": [a, a]})
        expect(len(leaves) == 1 and leaves[0] is arr, f"{s}: leaves of a container {leaves}")
        b = tu.tree_unflatten(tree, [arr + 1])
        expect(b["r"][0] == a and b["n"] == [a, a] and np.array_equal(b["r"][1], arr + 1), f"{s}: container {b!r}")
        try:
            setattr(a, dataclasses.fields(a)[0].name, None)
        except Exception:
            pass
        else:
            fail(f"{s} can be modified")
        for j, (s2, c) in enumerate(zip(specs, objs)):
            same = i == j
            expect((tu.tree_structure(a) == tu.tree_structure(c)) == same, f"structures of {s} and {s2}")
            expect((a == c) == same, f"{s} == {s2}")
            expect(tu.tree_structure(make(s)) == tu.tree_structure(a), f"structures of two objects {s}")
            for x, k in ((a, i), (c, j)):
                m = reps.model(specs[k])
                v, t = params(len(m.X), len(m.H), i % 3)
                close(np.asarray(f(x, v, t)), want(m, v, t), f"compiled exp_map of {specs[k]} after {s}", TOL)
                o = g({"rep": x, "w": 2.0}, np.ones(2))
                expect(type(o["out"]) is cls and o["out"] == x, f"{specs[k]} comes out of a compiled function as {o['out']!r}")
                close(np.asarray(o["x"]), np.full(2, m.dim + 2.0), f"dimension of {specs[k]} in a compiled function")
                ctx.step(2)
            ctx.state(s, s2)


def user_class(ctx, case):
    """a class of the user with fields of its own"""
    fields, values = case
    jax, ju = J()
    L = reps.lie()
    ns = {"__annotations__": {n: object for n in fields}, "dim": property(lambda r: 1),
          "continuous_generators": lambda r: np.zeros((0, 1, 1)), "discrete_generators": lambda r: np.full((1, 1, 1), -1.0), "algebra": lambda r: np.zeros((0, 0, 0))}
    cls = ju.static_jax_pytree(type("User", (L.TabulatedIrrep,), ns))
    objs = [cls(*v) for v in map(reps.T, values)]
    keyw = [cls(**dict(zip(fields, v))) for v in map(reps.T, values)]
    tu = jax.tree_util
    for (a, k, v) in zip(objs, keyw, values):
        expect(a == k and hash(a) == hash(k) and repr(a) == repr(k), f"{a!r} and {k!r}")
        expect([getattr(a, n) for n in fields] == list(reps.T(v)), f"fields of {a!r}")
        expect(tu.tree_leaves(a) == [] and tu.tree_unflatten(tu.tree_structure(a), []) == a, f"{a!r} as a tree")
        for c, w in zip(objs, values):
            expect((a == c) == (v == w), f"{a!r} == {c!r}")
            expect((tu.tree_structure(a) == tu.tree_structure(c)) == (v == w), f"structures of {a!r} and {c!r}")
            ctx.step(2)
        f = jax.jit(ju.exp_map)
        for p in range(4):
            close(np.asarray(f(a, np.zeros(0), np.array([p]))), [[(-1.0) ** p]], f"{a!r} to the power {p}")
            ctx.step()
        ctx.state(fields, v)


def transforms(ctx, case):
    """vmap, jit and derivatives against loops and Frechet derivatives"""
    s, deep = case
    jax, ju = J()
    import jax.numpy as jnp

    rep, m = reps.build(s), reps.model(s)
    n, k = len(m.X), len(m.H)
    V = np.stack([params(n, k, i)[0] for i in range(4)])
    T = np.array([[(i * 2 + j) % 5 for j in range(k)] for i in range(4)], dtype=int).reshape(4, k)
    f = lambda v, t: ju.exp_map(rep, v, t)
    ww = np.stack([want(m, v, t) for v, t in zip(V, T)])
    variants = [("vmap", jax.vmap(f), (V, T), ww), ("jit of vmap over coordinates", jax.jit(jax.vmap(f, in_axes=(1, None))), (V.T, T[1]), np.stack([want(m, v, T[1]) for v in V]))]
    if k:
        variants.append(("nested vmap", jax.vmap(jax.vmap(f, in_axes=(None, 0)), in_axes=(0, None)), (V, T), np.stack([[want(m, v, t) for t in T] for v in V])))
    if deep:
        variants += [("jit of vmap", jax.jit(jax.vmap(f)), (V, T), ww), ("vmap of jit", jax.vmap(jax.jit(f)), (V, T), ww),
                     ("vmap over coordinates", jax.vmap(f, in_axes=(0, None)), (V, T[1]), np.stack([want(m, v, T[1]) for v in V]))]
        if k:
            variants.append(("vmap over powers", jax.vmap(f, in_axes=(None, 0)), (V[1], T), np.stack([want(m, V[1], t) for t in T])))
    for name, g, args, w in variants:
        close(np.asarray(g(*args)), w, f"{s}: {name}", TOL)
        ctx.step()
    if n:
        fwd = jax.jit(jax.jacfwd(f))
        rev = jax.jit(jax.jacrev(lambda v, t: jnp.stack([jnp.real(f(v, t)), jnp.imag(f(v, t))])))
        push = jax.jit(lambda v, dv, t: jax.jvp(lambda v: f(v, t), (v,), (dv,)))
        for v, t in ((np.zeros(n), T[0] * 0), (V[1], T[1]), (V[2], T[2])):
            x = np.einsum("a,aij->ij", v, m.X)
            h = want(m, np.zeros(n), t)
            d = np.stack([h @ scipy.linalg.expm_frechet(x, g, compute_expm=False) for g in m.X], -1)
            v = np.asarray(v, dtype=np.float32)
            close(np.asarray(fwd(v, t)), d, f"{s}: derivative at {v}", 5 * TOL)
            re = rev(v, t)
            close(np.asarray(re[0]) + 1j * np.asarray(re[1]), d, f"{s}: reverse derivative at {v}", 5 * TOL)
            for i in range(n):
                dv = np.eye(n, dtype=np.float32)[i]
                y, dy = push(v, dv, t)
                close(np.asarray(y), h @ scipy.linalg.expm(x), f"{s}: value of the jvp", TOL)
                close(np.asarray(dy), d[..., i], f"{s}: jvp {i}", 5 * TOL)
            ctx.step(2 + n)
    ctx.state(s)


def powers(ctx, case):
    """matrix_power compiled, batched, in all integer types"""
    name, dt = case
    jax, ju = J()
    from .c11 import ORDERS

    M = ORDERS[name]
    ps = np.arange(127 if dt.endswith("8") else 200)
    w = np.stack([np.linalg.matrix_power(M, p % 12) for p in ps.tolist()])
    p = ps.astype(dt)
    d = len(M)
    close(np.asarray(jax.vmap(ju.matrix_power, in_axes=(None, 0))(M, p)), w, f"{name}: batch of powers ({dt})", TOL)
    Ms = np.stack([np.linalg.matrix_power(M, i % 12) for i in range(len(p))])
    w2 = np.stack([np.linalg.matrix_power(M, (i * int(q)) % 12) for i, q in enumerate(ps)])
    close(np.asarray(jax.vmap(ju.matrix_power)(Ms, p)), w2, f"{name}: batch of matrices and powers ({dt})", TOL)
    close(np.asarray(jax.vmap(ju.matrix_power, in_axes=(0, None))(Ms, p[7])), np.stack([np.linalg.matrix_power(M, (7 * i) % 12) for i in range(len(p))]), f"{name}: batch of matrices ({dt})", TOL)
    f = jax.jit(lambda M, p: ju.matrix_power(M, p) @ ju.matrix_power(M, p + 1))
    for i in range(0, len(p) - 1, 5):
        close(np.asarray(f(M, p[i])), np.linalg.matrix_power(M, (2 * i + 1) % 12), f"{name}: compiled power {i} ({dt})", TOL)
    ctx.step(3 + len(p) // 5)
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    small = [s for v in reps.SMALL.values() for s in v]
    alls = small + PROD + MORE
    spin = [["SU2", 1], ["SU2_", [1, 0]], ["SUN", [1, 0]], ["SL2C", 1, 0], ["SL2C", 0, 1], ["SU3", [1, 0, 0]], ["SO3", 1], ["SU2Real", 1], ["O3", 1, 1], ["O3", 1, -1], ["SU2", 2], ["SU3", [1, 1, 0]]]
    sun = [["SU3", [1, 0, 0]], ["SUN", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SUN", [1, 1, 0]], ["SU4", [1, 0, 0, 0]], ["SUN", [1, 0, 0, 0]], ["SU4", [1, 1, 1, 0]], ["SU4", [2, 1, 1, 0]], ["SU2_", [3, 0]]]
    hist = [[spin, i] for i in range(0, len(spin), 3 if q else 1)] + [[sun, i] for i in range(0, len(sun), 3 if q else 1)] + [[PROD, i] for i in range(0, len(PROD), 2 if q else 1)]
    hist += [[alls, i] for i in range(0, len(alls), 20 if q else 3)]
    trees = [v if len(v) > 1 else v + [["SU4", [1, 1, 0, 0]], ["SU4", [1, 1, 1, 0]]] for v in reps.SMALL.values()]
    trees += [[["O3", l, p] for l in range(3) for p in (1, -1)], [["SL2C", a, b] for a in range(3) for b in range(3)], [["SU3", list(S)] for S in reps.sun(3, 2)],
              [["SUN", [1, 0, 0]], ["SUN", [1, 1, 0]], ["SUN", [2, 0, 0]], ["SUN", [1, 0]]], [["SO13", a, b] for a in range(3) for b in range(3) if (a + b) % 2 == 0]]
    if not q:
        trees += [[["SU2", j] for j in range(10)], [["SU4", list(S)] for S in reps.sun(4, 2)], [["SO3", l] for l in range(6)]]
    user = []
    for fields in ([], ["a"], ["a", "b"], ["name", "S", "flag"]):
        vals = [[]] if not fields else [list(c) for c in itertools.product((0, 1, 2)[: 2 if len(fields) > 2 and q else 3], repeat=len(fields))]
        user.append([fields, vals])
    user += [[["S"], [[[1, 0]], [[0, 1]], [[1, 0, 0]], [[]]]], [["s", "n"], [["a", 1], ["b", 1], ["a", 2], ["", 0]]]]
    tr = [s for v in reps.SMALL.values() for s in (v if not q else v[:2])] + MORE[:2 if q else 8] + PROD[: 1 if q else 4] + [["gen", ["O3", 1, -1]], ["mul", 2, ["SU2", 1]], reps.red((1, ["SO3", 1]), (2, ["SO3", 0]), q="gen"), reps.red((1, ["SU2", 1]), (1, ["SU2", 2]), q="cgen"),
                                        ["Sn", "natural", 3], ["Sn", "standard", 4], ["dih", 5, 1], ["o2", 2], ["u1", [1, -2]], ["ca", "gen", ["SU2", 1]], ["cb", "tri", ["O3", 1, 1]]]
    if not q:
        tr += [s for s in MORE[8:] + PROD[4:]]
    # complex discrete generators are outside of the claims
    tr = [s for s in tr if not np.any(np.iscomplex(reps.model(s).H))]
    from .c11 import ORDERS

    return [
        Space("histories", hist, history, "labels served by one compiled function, from every starting point, forwards and back", f"{len(alls)} labels of all groups"),
        Space("static classes", trees, pytree, "all ordered pairs of labels of a class made static: structure, containers, compiled functions"),
        Space("user classes", user, user_class, "classes of the user with up to three fields, all values in a box"),
        Space("transformations", [[s, not q] for s in tr], transforms, "vmap over every argument, jit, forward and reverse derivatives, in both orders"),
        Space("powers", [[n, d] for n in ORDERS for d in ("int32", "int8", "int16", "uint8", "int64", "uint32")], powers, "batched and compiled powers in all integer types", "exponents below 200"),
    ]
