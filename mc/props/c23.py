"""Histories: every sequence of calls, each in a fresh process of the imported library."""
import itertools
import os
import pickle
import resource
import time
import traceback

import numpy as np

from .. import engine, ops, reps
from ..engine import Space
from .. import ref
from ..ref import Dense, close, expect, fail

ASSUMPTIONS = [
    "arguments are built anew for every call (objects keep references to the arrays they were built from)",
    "calls that draw random numbers are seeded before each call",
    "results are compared up to 1e-7 (rounding may depend on the alignment of memory)",
]


def forked(f, *args):
    """f(*args) in a fork of this (pristine) process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (engine.CASE_CPU, engine.CASE_CPU + 5))
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # refusals of the library print
            try:
                out = ("ok", f(*args))
            except BaseException:
                out = ("error", traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as fd:
                fd.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fd:
        data = fd.read()
    os.waitpid(pid, 0)
    if not data:
        return "error", "the process died"
    return pickle.loads(data)


def settings():
    s = np.random.get_state()
    return repr((sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()))), hash((s[1].tobytes(), s[2]))


RANDOM = ("reduce", "decompose")


def baseline_(name):
    np.random.seed(0)
    args, res = ops.run(name)
    return ops.outcome(name, res)


_base = {}


def baseline(name):
    if name not in _base:
        k, v = forked(baseline_, name)
        if k != "ok":
            fail(f"{name} alone: {v}")
        _base[name] = v
    return _base[name]


def history(names, mode, base):
    """-> None or message"""
    kept = []
    # settings of the user, all different from the defaults
    np.set_printoptions(precision=5, suppress=True, threshold=77, linewidth=99)
    np.seterr(under="warn", divide="ignore", invalid="ignore")
    for n, name in enumerate(names):
        np.random.seed(0)
        s0 = settings()
        args, call = ops.OPS[name]()
        before = ops.canon(args)
        s1 = settings()
        try:
            res = call()
            if isinstance(res, map):
                res = list(res)
        except (RuntimeError, ValueError, AssertionError, TypeError, KeyError, IndexError) as e:
            res = e
        s2 = settings()
        got = ops.canon(res)
        after = f" after {names[:n]}" + (" whose results were overwritten" if mode == "scribble" else "") if n else ""
        d = ops.differ(base[n], ops.outcome(name, res))
        if d:
            return f"{name}{after}: {d}"
        d = ops.differ(before, ops.canon(args), "argument", 0.0)
        if d:
            return f"{name}: its arguments were modified: {d}"
        if s0[0] != s2[0]:
            return f"{name} changes the settings of numpy: {s0[0]} -> {s2[0]}"
        if name not in RANDOM and s1[1] != s2[1]:
            return f"{name} changes the state of the random generator"
        for (m, r, a, c, b) in kept if len(names) < 4 or n == len(names) - 1 else ():
            d = ops.differ(c, ops.canon(r), f"result of the earlier {m}", 0.0) or ops.differ(b, ops.canon(a), f"argument of the earlier {m}", 0.0)
            if d:
                return f"{name} modifies an earlier value: {d}"
        if mode == "scribble":
            ops.scribble(res)
            ops.scribble(args)
        else:
            kept.append((name, res, args, got, before))
    return None


def tree(ctx, case):
    prefix, seconds, mode = case
    for s in seconds:
        names = prefix + s
        base = [baseline(n) for n in names]
        k, v = forked(history, names, mode, base)
        if k != "ok":
            fail(f"history {names}: {v}")
        expect(v is None, v)
        ctx.step(len(names))
        ctx.state(mode, names)


def reseeding(ctx, case):
    """the random decompositions draw numbers, they do not set the state of the generator"""
    def states(name):
        res = []
        for seed in (0, 1, 2):
            np.random.seed(seed)
            ops.run(name)
            res.append(settings()[1])
        return res

    k, v = forked(states, case)
    if k != "ok":
        fail(f"{case}: {v}")
    expect(len(set(v)) == 3, f"{case} puts the random generator in the same state whatever its state was")
    ctx.state(case)
    ctx.step(3)


# ---------------------------------------------------------------- one object, several methods

METHODS = {
    "A": lambda r: r.A,
    "X": lambda r: r.X,
    "H": lambda r: r.H,
    "algebra": lambda r: r.algebra(),
    "continuous": lambda r: r.continuous_generators(),
    "discrete": lambda r: r.discrete_generators(),
    "dims": lambda r: (r.dim, r.lie_dim),
    "exp": lambda r: r.exp_map(0.3 + np.arange(r.lie_dim) / 7.0, np.arange(1, 1 + len(r.H))),
    "trivial": lambda r: r.create_trivial(),
    "square": lambda r: list(r * r),
    "cg": lambda r: r.clebsch_gordan(r, r, list(r * r)[0]),
    "hash": lambda r: (hash(r) == hash(type(r)(**vars(r))), r == r, repr(r)),
}


def methods(spec):
    if spec[0] == "Sn":
        return ["A", "X", "H", "algebra", "continuous", "discrete", "dims", "exp", "trivial"]
    if spec[0] == "mul":
        return ["A", "X", "H", "algebra", "continuous", "discrete", "dims", "exp"]
    return list(METHODS)


def one(spec, names, mode, base):
    r = reps.build(spec)
    kept = []
    for n, m in enumerate(names):
        res = METHODS[m](r)
        got = ops.canon(res)
        d = ops.differ(base[n], got) if base is not None else None
        if d:
            return f"{spec}: {m} after {names[:n]}: {d}"
        for q, x, c in kept if len(names) < 4 or n == len(names) - 1 else ():
            d = ops.differ(c, ops.canon(x), f"result of the earlier {q}", 0.0)
            if d:
                return f"{spec}: {m} modifies an earlier value: {d}"
        if mode == "scribble":
            ops.scribble(res)
        else:
            kept.append((m, res, got))
    return None if base is not None else [got]


_obj = {}


def objects(ctx, case):
    spec, first, depth, mode = case
    ms = methods(spec)
    if depth == 0:  # the method, then all the others in order
        k = ms.index(first)
        todo = [[first] + ms[k + 1 :] + ms[:k] + [first]]
    else:
        todo = [[first] + list(rest) for rest in itertools.product(ms, repeat=depth - 1)]
    for names in todo:
        base = []
        for m in names:
            key = (repr(spec), m)
            if key not in _obj:
                k, v = forked(one, spec, [m], "keep", None)
                if k != "ok":
                    fail(f"{spec} {m} alone: {v}")
                _obj[key] = v[0]
            base.append(_obj[key])
        k, v = forked(one, spec, names, mode, base)
        if k != "ok":
            fail(f"{spec} {names}: {v}")
        expect(v is None, v)
        ctx.step(len(names))
        for n in range(len(names)):
            ctx.state(mode, spec, names if len(names) < 4 else first, n)


def rotation(ctx, case):
    """one call first, then all the others, each checked: every ordered pair occurs with its first
    member at the very beginning of a process"""
    first, step, mode = case
    names = list(ops.OPS)
    k = names.index(first)
    names = (names[k:] + names[:k])[::step]
    if step < 0:
        names = [first] + names[:-1]
    names = names + [first]
    base = [baseline(n) for n in names]
    k, v = forked(history, names, mode, base)
    if k != "ok":
        fail(f"history {names}: {v}")
    expect(v is None, v)
    ctx.step(len(names))
    for n in range(len(names)):
        ctx.state(mode, first, step, n)


# --- attributes that are replaced between uses

def _mats(d):
    R = np.random.RandomState(d)
    return {"none": None, "real": np.eye(d) + 0.3 * R.randn(d, d), "complex": np.eye(d) + 0.2 * (R.randn(d, d) + 1j * R.randn(d, d)), "diag": np.diag(1.0 + np.arange(d))}


def _shape(state):
    """(terms, name of the change of basis) -> model"""
    terms, q, scale = state
    m = Dense.sum(*[Dense.sum(*[reps.model(s)] * k) for k, s in terms])
    q = _mats(m.dim)[q]
    return m if q is None else m.change_basis(q @ np.diag([scale] + [1.0] * (m.dim - 1)))


def _see(r, m, how):
    L = reps.lie()
    n, h = len(m.X), len(m.H)
    if how == "X":
        close(r.X, m.X, "continuous generators", 1e-7)
        expect(r.X.shape == m.X.shape, f"generators of shape {r.X.shape}")
    elif how == "H":
        close(r.H, m.H, "discrete generators", 1e-7)
        expect(r.H.shape == m.H.shape, f"discrete generators of shape {r.H.shape}")
    elif how == "dim":
        expect((r.dim, r.lie_dim) == (m.dim, n), f"dimensions {(r.dim, r.lie_dim)}")
    elif how == "exp":
        v, t = 0.4 * ref.params(n, 1) if n else np.zeros(0), np.ones(h, dtype=int)
        close(r.exp_map(v, t), m.exp(v, t), "element", 1e-7)
    elif how == "tensor":
        o = L.GenericRep(np.real(m.A), m.X, m.H)
        ref.same_rep(L.tensor_product(r, o), m.tensor(m), "tensor product")
    elif how == "square":
        ref.same_rep(L.tensor_product(r, r), m.tensor(m), "square")
    elif how == "change":
        q = np.diag(1.0 + np.arange(m.dim)[::-1])
        ref.same_rep(L.change_basis(r, q), m.change_basis(q), "change of basis")
    elif how == "conj":
        ref.same_rep(L.conjugate(r), m.conjugate(), "conjugate")
    elif how == "sum":
        ref.same_rep(L.direct_sum(r, r), Dense.sum(m, m), "sum")


SEE = ["X", "H", "dim", "exp", "tensor", "square", "change", "conj", "sum"]


def replaced(ctx, case):
    """uses and assignments of attributes in turn: a use only depends on the present attributes"""
    kind, start, moves = case
    L = reps.lie()
    terms, q, scale = [list(t) for t in start[0]], start[1], 1.0

    def make(k, s):
        return L.MulIrrep(k, reps.build(s))

    if kind == "mul":
        r = make(*terms[0])
    elif kind == "Sn":
        r = reps.build(terms[0][1])
    else:
        r = L.ReducedRep.from_irreps([make(*t) for t in terms], _mats(sum(k * reps.dim(s) for k, s in terms))[q])
    for move in moves:
        if move[0] == "see":
            _see(r, _shape((terms, q, scale)), move[1])
            ctx.step()
            ctx.state(kind, terms, q, scale, move[1])
            continue
        try:
            if move[0] == "n":
                r.n = move[1]
                terms[0][1] = terms[0][1][:2] + [move[1]]
            elif move[0] == "mul":
                (r if kind == "mul" else r.irreps[0]).mul = move[1]
                terms[0][0] = move[1]
            elif move[0] == "rep":
                (r if kind == "mul" else r.irreps[0]).rep = reps.build(move[1])
                terms[0][1] = move[1]
            elif move[0] == "irreps":
                terms = [list(t) for t in move[1]]
                r.irreps = tuple(make(*t) for t in terms)
            elif move[0] == "scale":  # in place
                r.Q[:, 0] *= move[1]
                scale *= move[1]
            if kind == "red" and (move[0] in ("mul", "rep", "irreps") or move[0] == "Q"):
                q, scale = (move[1] if move[0] == "Q" else q), 1.0
                r.Q = _mats(sum(k * reps.dim(s) for k, s in terms))[q]
        except (AttributeError, TypeError, ValueError):  # values that cannot be modified cannot be stale
            return


def replacements(q):
    out = []
    for a, b in ((["SU2", 1], ["SU2", 2]), (["O3", 1, -1], ["O3", 0, -1]), (["gen", ["SO3", 1]], ["SO3", 1]), (["Sn", "standard", 3], ["Sn", "natural", 3])):
        changes = [("mul", 1), ("mul", 2), ("mul", 3), ("rep", a), ("rep", b)]
        for k in (1, 2):
            out.append(("mul", [[[k, a]], "none"], changes))
        changes = [("Q", x) for x in ("none", "real", "complex", "diag")] + [("scale", 3.0), ("mul", 2), ("rep", b), ("irreps", [[1, b], [1, a]]), ("irreps", [[2, b]])]
        for x in ("none", "real", "complex"):
            out.append(("red", [[[1, a], [1, b]], x], changes))
    for k in ("natural", "standard", "trivial"):
        out.append(("Sn", [[[1, ["Sn", k, 3]]], "none"], [("n", n) for n in (2, 3, 4, 5)]))
    cases = []
    for kind, start, changes in out:
        for f, c, g in itertools.product(SEE, changes, SEE):
            if c[0] == "scale" and start[1] == "none":
                continue
            cases.append([kind, start, [["see", f], list(c), ["see", g]]])
            if f == g or not q:
                for d in changes:
                    if not (d[0] == "scale" and (c[1] if c[0] == "Q" else start[1]) == "none"):
                        cases.append([kind, start, [["see", f], list(c), ["see", g], list(d), ["see", f]]])
    return cases


OBJECTS = [["SU2", 2], ["SO3", 1], ["O3", 1, -1], ["SU2Real", 1], ["SL2C", 1, 0], ["SO13", 1, 1], ["SU2_", [1, 0]], ["SU3", [1, 0, 0]], ["Z2", -1], ["Sn", "natural", 3], ["Sn", "standard", 3], ["mul", 2, ["SO3", 1]]]


def chunks(xs, n):
    return [xs[i : i + n] for i in range(0, len(xs), n)]


def spaces(tier):
    q = tier == "quick"
    names = list(ops.OPS)
    modes = ("scribble", "keep")
    rot = [[a, st, m] for a in names for st, m in ([(1, "scribble"), (-1, "keep")] if q else itertools.product((1, -1), modes))]
    fam = [[n for n in names if f(n)] for f in FAMILIES]
    assert sorted(sum(fam, [])) == sorted(names)
    if q:
        pairs = [[[a], [[b] for b in g], "scribble"] for g in fam for a in g]
    else:
        pairs = [[[a], [[b] for b in c], m] for m in modes for a in names for c in chunks(names, 32)]
    sh = ops.SHARED
    if q:  # three calls: those with index symmetries of two indices
        two = [n for n in sh if "ijk" not in n and n != "symmetric 3"][:6]
        deep = [[[a, b], [[c] for c in two], "scribble"] for a in two for b in two]
    else:
        deep = [[[a, b], [[c] for c in sh], m] for m in modes for a in sh for b in sh]
    ob = [[s, m, d, mode] for s in OBJECTS for m in methods(s) for mode in modes for d in ((0,) if q else (0, 2, 3)) if d < 3 or s[0] in ("SO3", "SU3", "O3", "mul")]
    res = [
        Space("long", rot, rotation, f"every one of the {len(names)} calls, followed by all the others", f"depth {len(names) + 1}"),
        Space("pairs", pairs, tree, "every ordered pair of " + ("related calls, results overwritten in between" if q else "calls, results overwritten or kept"), "depth 2"),
        Space("bases", deep, tree, "every sequence of calls for tensor bases, which share memoized permutation bases", "depth 3"),
        Space("seeds", [n for n in names if n.startswith(RANDOM)], reseeding, "the calls that draw random numbers", "three states of the generator"),
        Space("replaced", replacements(q), replaced, "attributes replaced between two uses of one object (multiplicity, irrep, change of basis, list of irreps, size), or modified in place", "two uses and one replacement" + (", three and two for equal uses" if q else ", and three and two")),
        Space("objects", ob, objects, "every method of one object followed by all the others" + ("" if q else "; every sequence of methods"), "" if q else "depth 2 (3 for some)"),
    ]
    if not q:
        some = [n for n in names if n in ops.CHEAP or n.startswith("rep ")][:20]
        res.append(Space("triples", [[[a, b], [[c] for c in some], "scribble"] for a in some for b in some], tree, "every triple of the short calls", "depth 3"))
    return res


FAMILIES = [
    lambda n: "cg " in n or n.startswith("times"),
    lambda n: n.startswith(("rep ", "exp ", "trivial", "read ", "iterate ", "dim ")),
    lambda n: n.startswith(("change_", "conjugate", "direct_sum", "tensor ", "power", "group", "infer", "is_", "make_real", "reduce", "check", "from_gen")) and n != "infer_algebra",
    lambda n: n.startswith(("basis", "symmetric")),
    lambda n: n.startswith(("gram", "extend", "nullspace", "sequential", "intersection", "round", "limit", "ratio", "infer_algebra", "unique", "decompose", "regular", "vmap", "block", "util", "commutator", "structure", "perm ")),
]
