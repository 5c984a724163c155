"""Array helpers against their loop definition."""
import importlib
import itertools

import numpy as np

from .. import ref
from ..engine import Space
from ..ref import close, expect, fail

ASSUMPTIONS = [
    "clusters: the documented rule (the first free element opens a cluster containing everything nearer than tol; refused when it reaches an element of another cluster)",
]


def mod(name):
    return getattr(importlib.import_module("lie_nn._src.util"), name, None)


DT = {"f": float, "c": complex, "i": int}


def arr(shape, kind, seed):
    """deterministic entries, all different"""
    n = int(np.prod(shape))
    x = (np.arange(n) * 7 + 3 * seed) % (2 * n + 5) - seed - n // 2
    if kind == "c":
        x = x + 1j * ((np.arange(n) * 5 + seed) % (n + 3) - 1)
    elif kind == "f":
        x = x * 0.5
    return np.asarray(x, dtype=DT[kind]).reshape(shape)


# ---------------------------------------------------------------- vmap


def body(kind):
    """functions of the slices"""
    if kind == "outer":
        return lambda *xs: sum(np.sum(x) * (k + 1) for k, x in enumerate(xs)) + xs[0] * 1
    if kind == "scalar":
        return lambda *xs: sum(np.sum(x) * (k + 1) for k, x in enumerate(xs))
    if kind == "tuple":
        return lambda *xs: (xs[0] * 2, xs[-1] + 1)
    raise ValueError(kind)


def vm(ctx, case):
    shapes, axes, out, kind, fn = case
    f = mod("vmap")
    if not f:
        return
    axes_ = tuple(axes) if isinstance(axes, list) else axes
    xs = [arr(s, kind, k) for k, s in enumerate(shapes)]
    per = axes_ if isinstance(axes_, tuple) else (axes_,) * len(xs)
    n = [x.shape[a] for x, a in zip(xs, per) if a is not None][0]
    fun = body(fn)
    calls = []

    def traced(*ys):
        calls.append([np.array(y) for y in ys])
        return fun(*ys)

    one = [None if a is None else [i for i in range(x.ndim)][a] for x, a in zip(xs, per)]
    slices = [
        [x if a is None else x[(slice(None),) * a + (i,)] for x, a in zip(xs, one)] for i in range(n)
    ]
    want = [fun(*s) for s in slices]
    kw = {}
    if n == 0 or fn == "shape":
        probe = fun(*[x if a is None else np.zeros([d for k, d in enumerate(x.shape) if k != a]) for x, a in zip(xs, one)])
        if isinstance(probe, tuple):
            return
        kw["out_shape"] = np.shape(probe)
    got = f(traced, in_axes=axes_, out_axes=out, **kw)(*xs)
    expect(len(calls) == n, f"{len(calls)} calls of the function instead of {n}")
    for c, s in zip(calls, slices):
        for y, z in zip(c, s):
            close(y, z, "argument of the function")
    if n == 0:
        shape = list(kw["out_shape"])
        shape.insert(out % (len(shape) + 1), 0)
        expect(got.shape == tuple(shape), f"empty result of shape {got.shape} instead of {tuple(shape)}")
    elif isinstance(want[0], tuple):
        expect(isinstance(got, tuple) and len(got) == len(want[0]), "result is not a tuple")
        for k, g in enumerate(got):
            same(g, stack([w[k] for w in want], out), f"output {k}")
    else:
        same(got, stack(want, out), "result")
        # the function can be applied again, also with an output shape given
        g = f(fun, in_axes=axes_, out_axes=out, out_shape=np.shape(want[0]))
        for _ in range(2):
            same(g(*xs), stack(want, out), "result with an output shape")
    if n == 0 and not isinstance(got, tuple):
        g = f(fun, in_axes=axes_, out_axes=out, **kw)
        expect(g(*xs).shape == got.shape and g(*xs).shape == got.shape, "applied twice")
    ctx.step(n + 2)
    ctx.state(case)


def stack(ws, axis):
    """definition of stacking, by assignment"""
    w0 = np.asarray(ws[0])
    nd = w0.ndim + 1
    axis = axis % nd
    res = np.zeros(w0.shape[:axis] + (len(ws),) + w0.shape[axis:], dtype=np.result_type(*ws))
    for i, w in enumerate(ws):
        res[(slice(None),) * axis + (i,)] = w
    return res


def same(a, b, what):
    ref.is_array(a, what)
    expect(np.asarray(a).dtype.kind == np.asarray(b).dtype.kind, f"{what}: dtype {a.dtype} instead of {b.dtype}")
    close(a, b, what, 1e-12)


def vmap_cases(tier):
    dims = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)
    for nd in (1, 2, 3):
        for shape in itertools.product(dims, repeat=nd):
            for a in range(-nd, nd):
                for out in range(-nd, nd):
                    for kind in "fc":
                        yield [[list(shape)], a, out, kind, "outer"]
                        yield [[list(shape)], [a], out, kind, "outer"]
                yield [[list(shape)], a, 0, "f", "scalar"]
                yield [[list(shape)], a, 0, "i", "scalar"]
    for n in dims:
        for s1, s2 in itertools.product([(), (2,), (1, 3), (0,), (3, 2)], repeat=2):
            for a1 in [None] + list(range(len(s1) + 1)):
                for a2 in [None] + list(range(len(s2) + 1)):
                    if a1 is None and a2 is None:
                        continue
                    x = list(s1) if a1 is None else list(s1[:a1]) + [n] + list(s1[a1:])
                    y = list(s2) if a2 is None else list(s2[:a2]) + [n] + list(s2[a2:])
                    for out in range(min(len(s1), len(s2)) + 1):
                        for fn in ("outer", "tuple"):
                            if n == 0 and fn == "tuple":
                                continue
                            yield [[x, y], [a1, a2], out, "f", fn]
                    yield [[x, y], [a1, a2], 0, "c", "scalar"]


def refuse(ctx, case):
    """different lengths of the mapped axis are refused"""
    shapes, axes = case
    f = mod("vmap")
    if not f:
        return
    xs = [arr(s, "f", k) for k, s in enumerate(shapes)]
    try:
        f(lambda *y: sum(np.sum(a) for a in y), in_axes=tuple(axes))(*xs)
    except (AssertionError, ValueError, IndexError):
        ctx.step()
        ctx.state(case)
        return
    fail("mapped axes of different lengths are accepted")


# ---------------------------------------------------------------- blocks and products


def block(ctx, case):
    shapes, kind = case
    f = mod("block_diagonal")
    if not f:
        return
    kinds = {"m": "fci", "n": "ifc"}.get(kind, kind * 3)  # also blocks of different types
    xs = [arr(s, kinds[k], k) for k, s in enumerate(shapes)]
    got = f([x.copy() for x in xs])
    n = shapes[0][0]
    want = np.zeros((n, sum(s[1] for s in shapes), sum(s[2] for s in shapes)), complex)
    i = j = 0
    for x in xs:
        for a, b, c in np.ndindex(*x.shape):
            want[a, i + b, j + c] = x[a, b, c]
        i, j = i + x.shape[1], j + x.shape[2]
    close(got, want, "block diagonal", 1e-12)
    ctx.step()
    ctx.state(case)


def dsum(ctx, case):
    shapes, kinds = case
    f = mod("direct_sum")
    if not f:
        return
    xs = [arr(s, k, n) for n, (s, k) in enumerate(zip(shapes, kinds))]
    got = f(*[x.copy() for x in xs])
    lead = np.broadcast_shapes(*[x.shape[:-2] for x in xs])
    want = np.zeros(lead + (sum(x.shape[-2] for x in xs), sum(x.shape[-1] for x in xs)), complex)
    for idx in np.ndindex(*lead):
        i = j = 0
        for x in xs:
            y = np.broadcast_to(x, lead + x.shape[-2:])[idx]
            for b, c in np.ndindex(*y.shape):
                want[idx + (i + b, j + c)] = y[b, c]
            i, j = i + y.shape[0], j + y.shape[1]
    close(got, want, "direct sum", 1e-12)
    ctx.step()
    ctx.state(case)


def kr(ctx, case):
    shapes, kinds = case
    f = mod("kron")
    if not f:
        return
    xs = [arr(s, k, n) for n, (s, k) in enumerate(zip(shapes, kinds))]
    got = f(*[x.copy() for x in xs])
    rows, cols = [x.shape[0] for x in xs], [x.shape[1] for x in xs]
    want = np.zeros((int(np.prod(rows)), int(np.prod(cols))), dtype=np.result_type(*xs))
    for r, I in enumerate(np.ndindex(*rows)):
        for c, J in enumerate(np.ndindex(*cols)):
            v = 1
            for x, i, j in zip(xs, I, J):
                v = v * x[i, j]
            want[r, c] = v
    same(got, want, "Kronecker product")
    ctx.step()
    ctx.state(case)


def commu(ctx, case):
    lead1, lead2, n, kinds = case
    f = mod("commutator")
    if not f:
        return
    a, b = arr(list(lead1) + [n, n], kinds[0], 0), arr(list(lead2) + [n, n], kinds[1], 1)
    got = f(a, b)
    lead = np.broadcast_shapes(tuple(lead1), tuple(lead2))
    want = np.zeros(lead + (n, n), np.result_type(a, b))
    A, B = np.broadcast_to(a, lead + (n, n)), np.broadcast_to(b, lead + (n, n))
    for idx in np.ndindex(*lead):
        for i, j, k in itertools.product(range(n), repeat=3):
            want[idx + (i, j)] += A[idx + (i, k)] * B[idx + (k, j)] - B[idx + (i, k)] * A[idx + (k, j)]
    same(got, want, "commutator")
    ctx.step()
    ctx.state(case)


# ---------------------------------------------------------------- clusters


def clusters(a, tol):
    """-> labels or None when refused"""
    n = len(a)
    lab = [-1] * n
    k = 0
    for i in range(n):
        if lab[i] != -1:
            continue
        near = [j for j in range(n) if np.linalg.norm((a[j] - a[i]).ravel()) < tol]
        if any(lab[j] != -1 for j in near):
            return None
        for j in near:
            lab[j] = k
        k += 1
    return lab


def unique(ctx, case):
    """points on a grid of step 0.4 tol: near, chained and separated ones"""
    pts, shape, kind = case
    f = mod("unique_with_tol")
    if not f:
        return
    tol = 2.5 if kind == "i" else 1e-3
    vals = {"i": lambda v: v, "f": lambda v: 1.0 + 0.4 * tol * v, "c": lambda v: (2 - 1j) + 0.4 * tol * v * np.exp(1j)}[kind]
    a = np.zeros([len(pts)] + shape, DT[kind])
    for i, p in enumerate(pts):
        a[i] = 3.0  # all entries equal but one
        if a[i].ndim:
            a[i].reshape(-1)[-1:] = vals(p)
        else:
            a[i] = vals(p)
    want = clusters(a, tol)
    before = a.copy()
    if not pts:
        c, inv = f(a, tol=tol)
        expect(np.shape(c) == a.shape and np.shape(inv) == (0,), f"clusters of no points: {c}, {inv}")
        ctx.step()
        ctx.state(case)
        return
    try:
        got = f(a, tol=tol)
    except ValueError:
        expect(want is None, f"clusters of {pts} refused, expected {want}")
        ctx.step()
        ctx.state(case)
        return
    expect(np.array_equal(a, before), "the argument was modified")
    expect(want is not None, lambda: f"clusters of {pts} not clearly distinct, but accepted: {got[1]}")
    c, inv = got
    expect(list(inv) == want, f"clusters of {pts}: {list(inv)} instead of {want}")
    centers = np.stack([np.mean([a[i] for i in range(len(pts)) if want[i] == k], axis=0) for k in range(max(want) + 1)])
    expect(np.asarray(c).dtype.kind == kind.replace("i", "f"), f"dtype {c.dtype} of the centers")
    close(c, centers, "centers", 1e-12)
    ctx.step(2)
    ctx.state(case)


def eig(ctx, case):
    vals, kind, d = case
    f = mod("eigenspaces")
    if not f:
        return
    eps = 1e-6
    v = np.array([x[0] + eps * 0.2 * x[1] for x in vals], DT[kind])
    if kind == "c":
        v = v * np.exp(0.3j)
    vec = arr([d, len(v)], kind, 2)
    got = f(v, vec, epsilon=eps)
    lab = clusters(v, eps)
    assert lab is not None
    expect(len(got) == max(lab, default=-1) + 1, f"{len(got)} spaces instead of {max(lab, default=-1) + 1}")
    for k, (x, W) in enumerate(got):
        cols = [i for i in range(len(v)) if lab[i] == k]
        expect(abs(x - np.mean(v[cols])) < 1e-12, f"eigenvalue {x}")
        close(W, vec[:, cols], f"eigenvectors {k}", 1e-12)
        ctx.step()
    ctx.state(case)


# ---------------------------------------------------------------- numbers


def sign(ctx, case):
    f = mod("permutation_sign")
    if not f:
        return
    n = case
    seen = {}
    start = tuple(range(n))
    todo = [(start, 1)]
    seen[start] = 1
    while todo:  # breadth first over adjacent transpositions
        p, s = todo.pop(0)
        expect(f(p) == s, f"sign of {p}: {f(p)}")
        ctx.step()
        for i in range(n - 1):
            q = p[:i] + (p[i + 1], p[i]) + p[i + 2 :]
            if q not in seen:
                seen[q] = -s
                todo.append((q, -s))
            else:
                assert seen[q] == -s
    ctx.state(n)


def numbers(ctx, case):
    which, lo, hi = case
    if which == "ratio":
        f = mod("normalize_integer_ratio")
        if not f:
            return
        n, d = np.meshgrid(np.arange(lo, hi), [x for x in range(-40, 41) if x], indexing="ij")
        a, b = f(n, d)
        expect(a.shape == n.shape and b.shape == n.shape, "shapes")
        expect(np.all(b > 0), "denominators are positive")
        expect(np.all(a * d == b * n), "values of the ratios")
        g = np.array([[np.gcd(int(x), int(y)) for x, y in zip(r, s)] for r, s in zip(a, b)])
        expect(np.all(g == 1), "lowest terms")
        ctx.step(n.size)
    if which == "half":
        f, g = mod("is_integer"), mod("is_half_integer")
        for k in range(lo, hi):
            x = k / 8
            if f:
                expect(bool(f(x)) == (k % 8 == 0), f"is_integer({x})")
            if g:
                expect(bool(g(x)) == (k % 4 == 0), f"is_half_integer({x})")
            ctx.step(2)
    if which == "prod":
        f = mod("prod")
        if not f:
            return
        for n in range(0, 5):
            for t in itertools.product(range(lo, hi), repeat=n):
                w = 1
                for x in t:
                    w *= x
                expect(f(list(t)) == w and f(t) == w, f"prod({t})")
                ctx.step()
        expect(abs(f([0.5, 3, 2.0]) - 3) < 1e-15, "prod of floats")
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    d = (0, 1, 2) if q else (0, 1, 2, 3)
    bl = [[[[n, *s] for s in ss], k] for n in d for m in (1, 2, 3) for ss in itertools.product(itertools.product((0, 1, 2), repeat=2), repeat=m) for k in ("fic" if m == 1 else "ficmn") if m < 3 or n == 2]
    mats = list(itertools.product((0, 1, 2), repeat=2))
    leads = [(), (1,), (2,), (3, 1), (1, 2), (3, 2), (0,)]
    ds = []
    for m in (1, 2, 3):
        for ll in itertools.product(leads, repeat=m):
            try:
                np.broadcast_shapes(*ll)
            except ValueError:
                continue
            for mm in itertools.product(mats if m < 3 else [(1, 2), (2, 2), (0, 1)], repeat=m):
                if m == 2 and q and (sum(mm[0]) + sum(mm[1])) % 2 == 0 and ll[0] != ll[1]:
                    continue
                kinds = ["fc", "cf", "ff", "ic"][len(ds) % 4] + "f"
                ds.append([[list(l) + list(s) for l, s in zip(ll, mm)], kinds[:m]])
    kron = [[[list(s) for s in ss], k[:m]] for m in (1, 2, 3) for ss in itertools.product(itertools.product((1, 2, 3), repeat=2), repeat=m) for k in ("fff", "cfc", "iii") if m < 3 or k != "iii"]
    cm = [[list(a), list(b), n, k] for a in leads for b in leads for n in (0, 1, 2, 3) for k in ("ff", "fc", "cc", "ii") if ok(a, b)]
    npt = 4 if q else 6
    un = [[list(p), s, k] for n in range(0, npt + 1) for p in itertools.product((0, 1, 2, 3, 7), repeat=n) for s in ([], [1], [2, 2], [0], [2, 0]) for k in "fci" if n < 3 or 0 not in s]
    ev = [[[list(x) for x in t], k, dd] for n in range(0, 5 if q else 6) for t in itertools.product([(1, 0), (1, 1), (-1, 0), (2, 1)], repeat=n) for k in "fc" for dd in (1, n, 4)]
    rf = [[[[n, 2], [m, 2]], [0, 0]] for n in range(4) for m in range(4) if n != m] + [[[[2, n], [m, 2]], [1, 0]] for n in range(4) for m in range(4) if n != m] + [[[[2, 3], [3], [2]], [0, None, None]]][:0]
    return [
        Space("vmap", list(vmap_cases(tier)), vm, "every small shape, mapped axis, output axis, dtype and result form, against explicit loops; order and arguments of the calls", f"sizes in {d}"),
        Space("vmap-refused", rf, refuse, "mapped axes of different lengths", ""),
        Space("block", bl, block, "every list of up to 3 small blocks", ""),
        Space("direct-sum", ds, dsum, "every list of up to 3 small matrices with broadcast leading dimensions", ""),
        Space("kron", kron, kr, "every list of up to 3 small matrices", "sizes 1..3"),
        Space("commutator", cm, commu, "every pair of leading shapes that broadcast", ""),
        Space("unique", un, unique, "every list of points on a grid of step 0.4 tol", f"up to {npt} points"),
        Space("eigenspaces", ev, eig, "every list of close and distinct eigenvalues", ""),
        Space("sign", list(range(1, 8 if q else 9)), sign, "the whole symmetric group, breadth first over adjacent transpositions", ""),
        Space("numbers", [["ratio", a, a + 20] for a in range(-100, 100, 20)] + [["half", a, a + 100] for a in range(-400, 400, 100)] + [["prod", -3, 4]], numbers, "all small ratios, eighths and lists", ""),
    ]


def ok(a, b):
    try:
        np.broadcast_shapes(a, b)
        return True
    except ValueError:
        return False
