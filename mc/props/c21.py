"""Structure constants: inference, and detection of every single-entry fault."""
import itertools

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, close, expect, fail
from .c20 import rank

ASSUMPTIONS = [
    "faults of size 1e-4 or more (and missing or infinite numbers); the tolerance of the checks is 1e-10",
    "the triplet check speaks of the continuous generators only",
]


def U():
    reps.lie()
    import lie_nn.util

    return lie_nn.util


# ------------------------------------------------------------ inference on all small sets


def alphabet(name):
    def E(d, i, j):
        m = np.zeros((d, d))
        m[i, j] = 1
        return m

    if name == "gl2":  # entries 0, 1, -1 up to sign, 2x2
        return [np.array(v, dtype=float).reshape(2, 2) for v in itertools.product((0, 1, -1), repeat=4) if next((x for x in v if x), 0) == 1]
    if name == "gl2c":
        b = [E(2, i, j) for i in range(2) for j in range(2)] + [np.eye(2), np.diag([1.0, -1.0]), E(2, 0, 1) + E(2, 1, 0), E(2, 0, 1) - E(2, 1, 0)]
        return [c * m for m in b for c in (1, 1j)]
    if name == "gl3":
        b = [E(3, i, j) for i in range(3) for j in range(3)]
        b += [E(3, i, j) - E(3, j, i) for i in range(3) for j in range(i)] + [np.diag([1.0, -1, 0]), np.diag([0, 1.0, -1]), np.eye(3)]
        return b
    if name == "gl3c":
        b = [E(3, i, j) + s * E(3, j, i) for i in range(3) for j in range(i) for s in (1, -1)] + [np.diag([1.0, -1, 0]), np.diag([0, 1.0, -1])]
        return [c * m for m in b for c in (1, 1j)]
    if name == "so3c":
        L = [E(3, 1, 0) - E(3, 0, 1), E(3, 2, 0) - E(3, 0, 2), E(3, 2, 1) - E(3, 1, 2)]
        return [m.astype(complex) for m in L] + [1j * m for m in L]
    raise ValueError(name)


def real_rows(X):
    """coordinates over the reals; entries are small integers"""
    X = np.asarray(X, dtype=complex)
    X = X.reshape(len(X), int(np.prod(X.shape[1:])))
    return np.concatenate([X.real, X.imag], 1)


def solve(X):
    """exact-rank verdict: independent?, closed?, and the structure constants"""
    n = len(X)
    V = real_rows(X)
    if rank(V) < n:
        return None, None
    C = np.array([[x @ y - y @ x for y in X] for x in X]).reshape(n * n, *X[0].shape)
    W = real_rows(C)
    # only the commutators that are not zero matter
    keep = [w for w in W if np.any(w)]
    if keep and rank(np.concatenate([V, np.array(keep)])) > n:
        return True, None
    A = np.linalg.lstsq(V.T, W.T, rcond=None)[0].T.reshape(n, n, n)
    return True, A


def infer(ctx, case):
    name, size, first = case
    u = U()
    L = reps.lie()
    al = alphabet(name)
    rest = range(len(al)) if size <= 2 else range(first + 1, len(al))
    for idx in itertools.combinations([i for i in rest if i != first], size - 1):
        X = np.stack([al[i] for i in (first, *idx)])
        ind, A = solve(X)
        if ind is None:
            continue
        what = f"{name} {(first, *idx)}"
        keep = X.copy()
        got = u.infer_algebra_from_generators(X)
        rep = L.GenericRep.from_generators(X)
        if A is None:
            expect(got is None, lambda: f"{what}: constants returned for a set that is not closed: {np.round(got, 3).tolist()}")
            expect(rep is None, f"{what}: a representation was made of a set that is not closed")
        else:
            expect(got is not None, f"{what}: no constants for a closed set")
            close(got, A, f"{what}: constants")
            expect(not np.iscomplexobj(got), f"{what}: complex constants")
            ref.same_rep(rep, ref.Dense(A, X, np.zeros((0,) + X.shape[1:])), what)
        expect(np.array_equal(X, keep), f"{what}: argument modified")
        ctx.step(2)
        ctx.state(name, first, idx)


def infer_rep(ctx, case):
    """faithful representations, in any basis of the algebra and of the space"""
    spec, qb, qa = case
    u = U()
    m = reps.model(spec)
    if qb:
        m = m.change_basis(ref.basis(qb, m.dim))
    if qa:
        m = m.change_algebra(ref.basis(qa, len(m.A)))
    V = real_rows(m.X)
    if len(m.X) and np.linalg.matrix_rank(V, tol=1e-9) < len(m.X):
        ctx.state("unfaithful", case)
        return
    got = u.infer_algebra_from_generators(m.X)
    expect(got is not None, f"{case}: no constants")
    close(got, m.A, f"{case}: constants", 1e-7)
    L = reps.lie()
    r = L.GenericRep.from_generators(m.X, m.H)
    ref.same_rep(r, m, f"{case}: from_generators", 1e-7)
    got = u.infer_algebra_from_generators(m.X, round_fn=u.round_to_sqrt_rational)
    if got is not None:
        close(got, m.A, f"{case}: rounded constants", 1e-6)
    ctx.step(3)
    ctx.state(case)


# ------------------------------------------------------------ single faults


def faults(a, part=0, parts=1):
    """every entry (of one part of them), every kind of change"""
    for idx in list(np.ndindex(*a.shape))[part::parts]:
        v = a[idx]
        for kind in ("1e-4", "1", "neg", "zero", "imag", "nan", "inf"):
            b = np.array(a, dtype=complex if kind == "imag" or np.iscomplexobj(a) else float)
            b[idx] = {"1e-4": v + 1e-4, "1": v + 1, "neg": -v, "zero": 0, "imag": v + 1e-3j, "nan": np.nan, "inf": np.inf}[kind]
            if not np.isfinite(b[idx]) or b[idx] != v:
                yield idx, kind, b


def holds(A, X):
    """do the relations hold: True, False, or None when too close to call"""
    if not (np.all(np.isfinite(A)) and np.all(np.isfinite(X))):
        return False
    c = np.einsum("iab,jbc->ijac", X, X)
    r = c - c.transpose(1, 0, 2, 3) - np.einsum("ijk,kab->ijab", A, X)
    e = np.max(np.abs(r)) if r.size else 0
    return True if e < 1e-12 else False if e > 1e-7 else None


def verdicts(L, u, A, X, H):
    """what the library says about (A, X), through all its entry points"""
    with np.errstate(all="ignore"):
        yield "util.check_algebra_vs_generators", bool(u.check_algebra_vs_generators(A, X))
        for name, f in (
            ("util.check_algebra_vs_generators(assert_=True)", lambda: u.check_algebra_vs_generators(A, X, assert_=True)),
            ("Rep.check_algebra_vs_generators", lambda: L.GenericRep(A, X, H).check_algebra_vs_generators()),
        ):
            try:
                f()
            except AssertionError:
                yield name, False
            else:
                yield name, True


def detect(ctx, case):
    spec, which, part, parts = case
    u, L = U(), reps.lie()
    m = reps.model(spec)
    A, X, H = np.array(m.A), np.array(m.X), np.array(m.H)
    if np.all(A.imag == 0):
        A = A.real.copy()
    if np.all(X.imag == 0):
        X = X.real.copy()
    for name, v in verdicts(L, u, A, X, H):
        expect(v, f"{spec}: refused by {name}")
    n = 0
    for idx, kind, b in faults(A if which == "A" else X, part, parts):
        a, x = (b, X) if which == "A" else (A, b)
        h = holds(a, x)
        if h is None:
            continue
        for name, v in verdicts(L, u, a, x, H):
            expect(v == h, f"{spec}: {which}{list(idx)} {kind}: {name} says {v}, relations hold: {h}")
            n += 1
        ctx.state(spec, which, idx, kind)
    ctx.step(n)


def loose(ctx, case):
    """the tolerances given are the ones used"""
    spec, delta = case
    u, L = U(), reps.lie()
    m = reps.model(spec)
    A, X = m.A.real.copy(), m.X.copy()
    k = int(np.argmax(np.abs(A).reshape(-1)))
    A.reshape(-1)[k] += delta
    res = np.max(np.abs(np.einsum("ijk,kab->ijab", A - m.A.real, X)))
    for atol in (1e-12, 1e-8, 1e-4, 1e-1, 10.0):
        if 0.3 < res / atol < 3:
            continue
        want = res < atol
        got = bool(u.check_algebra_vs_generators(A, X, rtol=0, atol=atol))
        expect(got == want, f"{spec} off by {res:.2g}: atol={atol} says {got}")
        try:
            L.GenericRep(A, X, m.H).check_algebra_vs_generators(rtol=0, atol=atol)
            got = True
        except AssertionError:
            got = False
        expect(got == want, f"{spec} off by {res:.2g}: atol={atol} says {got} (method)")
        ctx.step(2)
    ctx.state(case)


def loose_infer(ctx, case):
    """nearly closed families: inferred exactly when the best constants are within the tolerance given"""
    spec, delta, entry = case
    u = U()
    X = reps.model(spec).X.copy()
    n, d = X.shape[:2]
    X[entry % n, (entry // n) % d, (entry // n // d + entry) % d] += delta
    rows = real_rows(X)
    if np.linalg.matrix_rank(rows, 1e-6) < n:
        return
    C = np.array([x @ y - y @ x for x in X for y in X])
    A = np.linalg.lstsq(rows.T, real_rows(C).T, rcond=None)[0].T.reshape(n, n, n)
    res = np.max(np.abs(C.reshape(n, n, d, d) - np.einsum("ijk,kab->ijab", A, X)))
    for atol in (1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 1.0):
        if 0.3 < res / atol < 3:
            continue
        want = res < atol
        for kw in ({"rtol": 0, "atol": atol},) + (({},) if atol == 1e-10 and (res > 1e-4 or res < 1e-12) else ()):
            got = u.infer_algebra_from_generators(X, **kw)
            expect((got is not None) == want, lambda: f"{spec} off by {res:.2g}: tolerance {kw} gives {got}")
            if want:
                close(got, A, f"{spec} {kw}: best constants", 1e-6)
            ctx.step()
    # a large relative tolerance cannot excuse the commutators that should vanish, nor refuse closed sets
    if res < 1e-12:
        for kw in ({"rtol": 1e-5}, {"rtol": 1e-5, "atol": 1e-5}, {"atol": 1.0}):
            expect(u.infer_algebra_from_generators(X, **kw) is not None, f"{spec}: closed set refused with {kw}")
            ctx.step()
    ctx.state(case)


def accepted(f):
    import contextlib
    import io

    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            f()
    except AssertionError:
        return False
    return True


def triplet(ctx, case):
    """right triplets are accepted; a fault in any entry of one of the three is refused"""
    specs, which = case
    L = reps.lie()
    rs = [reps.build(s) for s in specs]
    expect(accepted(lambda: L.check_representation_triplet(*rs)), f"{specs} refused")
    ctx.step()
    if which is None:
        ctx.state(specs)
        return
    g = [L.GenericRep(np.array(r.A), np.array(r.X), np.array(r.H)) for r in rs]
    expect(accepted(lambda: L.check_representation_triplet(*g)), f"{specs} refused as generic representations")
    pos, part = which
    base = g[pos]
    for idx, kind, b in faults(np.array(base.A if part == "A" else base.X)):
        if kind in ("imag", "neg"):
            continue
        bad = L.GenericRep(b, base.X, base.H) if part == "A" else L.GenericRep(base.A, b, base.H)
        same = all(np.array_equal(bad.A, r.A) for r in g)
        if same and holds(bad.A, bad.X) is not False:
            continue
        args = list(g)
        args[pos] = bad
        try:
            ok = accepted(lambda: L.check_representation_triplet(*args))
        except Exception:
            ok = False
        expect(not ok, f"{specs}: {part}{list(idx)} of representation {pos} {kind}: accepted")
        ctx.step()
        ctx.state(specs, which, idx, kind)


def triplet_cg(ctx, case):
    """tabulated triplets: every single fault in the coefficients is refused"""
    specs = case
    L = reps.lie()
    rs = [reps.build(s) for s in specs]
    cls = type(rs[0])
    cg = np.array(L.clebsch_gordan(*rs))
    if cg.size == 0:
        return
    X1, X2, X3 = (np.array(r.X) for r in rs)
    orig = cls.__dict__.get("clebsch_gordan")
    if not isinstance(orig, classmethod):
        return
    n = 0
    try:
        for idx, kind, b in faults(cg):
            if np.all(np.isfinite(b)):
                l = np.einsum("zijk,dlk->zdijl", b, X3)
                r = np.einsum("dil,zijk->zdljk", X1, b) + np.einsum("djl,zijk->zdilk", X2, b)
                if np.max(np.abs(l - r)) < 1e-7:
                    continue
            # only this triplet: the generators of some groups are built with other coefficients
            cls.clebsch_gordan = classmethod(
                lambda c, *a, b=b: b if list(a) == rs else orig.__get__(None, c)(*a)
            )
            if not np.array_equal(np.asarray(L.clebsch_gordan(*rs)), b, equal_nan=True):
                return  # the coefficients do not come from there
            with np.errstate(all="ignore"):
                moved = [np.array(r.X) for r in rs]
            if not all(np.array_equal(x, y) for x, y in zip(moved, (X1, X2, X3))):
                continue  # the generators are built with these coefficients
            expect(not accepted(lambda: L.check_representation_triplet(*rs)), f"{specs}: coefficient {list(idx)} {kind}: accepted")
            n += 1
            ctx.state(specs, idx, kind)
    finally:
        cls.clebsch_gordan = orig
    ctx.step(n)


def table_class(cg):
    """a user's own class of irreps, with the given coefficients; its irreps carry the given matrices"""
    L = reps.lie()

    class Table(L.TabulatedIrrep):
        def __init__(self, name, m):
            self.name, self.m = name, m

        @classmethod
        def from_string(cls, s):
            raise NotImplementedError

        @classmethod
        def iterator(cls):
            raise NotImplementedError

        @classmethod
        def create_trivial(cls):
            raise NotImplementedError

        def __mul__(self, other):
            raise NotImplementedError

        def __lt__(self, other):
            return False

        def __repr__(self):
            return self.name

        @classmethod
        def clebsch_gordan(cls, *reps):
            return cg

        dim = property(lambda self: self.m.dim)

        def is_scalar(self):
            return False

        def algebra(self):
            return self.m.A.real

        def continuous_generators(self):
            return self.m.X

        def discrete_generators(self):
            return self.m.H

    return Table


def tables(ctx, case):
    """triplets of user tables: refused exactly when one member of any solution, or of any irrep, is wrong"""
    specs, copies, wrong = case
    L = reps.lie()
    ms = [reps.model(s) for s in specs]
    S = ref.intertwiners(ms[0].tensor(ms[1]), ms[2])
    good = np.moveaxis(S.reshape(-1, ms[2].dim, ms[0].dim, ms[1].dim), 1, 3)
    cg = np.concatenate([good] * copies) if copies else np.zeros((0,) + good.shape[1:])

    def verdict(ms, cg, n):
        cls = table_class(cg)
        t = [cls(f"{s}", m) for s, m in zip(specs, ms)]
        try:
            return accepted(lambda: L.check_representation_triplet(*t))
        except Exception:
            return False

    if wrong is None:
        expect(verdict(ms, cg, 0), f"{specs}, {len(cg)} solutions: refused")
        ctx.step()
    elif wrong == "solution":
        for z in range(len(cg)):
            for i in (0, cg[0].size // 2, cg[0].size - 1):
                b = np.array(cg)
                b[(z, *np.unravel_index(i, b[z].shape))] += 0.01
                l = np.einsum("zijk,dlk->zdijl", b, ms[2].X)
                r = np.einsum("dil,zijk->zdljk", ms[0].X, b) + np.einsum("djl,zijk->zdilk", ms[1].X, b)
                if np.max(np.abs(l - r)) < 1e-6:
                    continue
                expect(not verdict(ms, b, z), f"{specs}: solution {z} of {len(cg)} is wrong at {i}: accepted")
                ctx.step()
    elif wrong == "shape":
        for b in (cg[0] if len(cg) else cg[..., None], np.swapaxes(cg, 1, 3), np.swapaxes(cg, 2, 3), cg[..., :-1]):
            if b.shape == cg.shape:
                continue
            expect(not verdict(ms, b, 0), f"{specs}: coefficients of shape {b.shape}: accepted")
            ctx.step()
    else:  # one irrep of another algebra, or whose generators are wrong
        kind, pos = wrong
        m = ms[pos]
        n = len(m.A)
        Q = {"twice": 2.0 * np.eye(n), "order": np.eye(n)[::-1], "basis": ref.basis("gen", n)}.get(kind)
        if Q is not None:
            bad = m.change_algebra(Q)
        elif kind == "zero":
            bad = Dense(0 * m.A, 0 * m.X, m.H)
        else:
            X = np.array(m.X)
            X[-1] *= 1 + {"generator": 0.5, "slightly": 1e-3, "barely": 1e-6}[kind]
            bad = Dense(m.A, X, m.H)
            if holds(bad.A, bad.X) is not False:
                return
        if Q is not None and np.max(np.abs(bad.A - m.A)) < 1e-6:
            return
        ms2 = list(ms)
        ms2[pos] = bad
        expect(not verdict(ms2, cg, 0), f"{specs}: irrep {pos} with {kind} changed: accepted")
        ctx.step()
    ctx.state(case)


def table_cases(tier):
    t = [
        [["SU2", 1], ["SU2", 1], ["SU2", 2]], [["SU2", 1], ["SU2", 2], ["SU2", 2]], [["SO3", 1], ["SO3", 1], ["SO3", 1]],
        [["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SU3", [2, 1, 0]]], [["SU3", [2, 1, 0]]] * 3,
        [["SL2C", 1, 0], ["SL2C", 0, 1], ["SL2C", 1, 1]], [["SO13", 1, 1], ["SO13", 1, 1], ["SO13", 2, 0]],
        [["O3", 1, -1], ["O3", 1, 1], ["O3", 1, -1]], [["gen", ["mul", 2, ["SU2", 1]]], ["SU2", 1], ["SU2", 2]],
    ]
    if tier != "quick":
        t += [[["SU2", a], ["SU2", b], ["SU2", c]] for a in range(4) for b in range(4) for c in range(5)]
        t += [[["mul", 2, ["SO3", 1]], ["mul", 2, ["SO3", 1]], ["SO3", 1]], [["SU4", [1, 0, 0, 0]], ["SU4", [1, 1, 1, 0]], ["SU4", [2, 1, 1, 0]]]]
    out = []
    for s in t:
        for copies in (0, 1, 2, 3):
            out += [[s, copies, w] for w in (None, "solution", "shape")]
            out += [[s, copies, [k, p]] for k in ("twice", "order", "basis", "zero", "generator", "slightly", "barely") for p in range(3)]
    return out


def spaces(tier):
    q = tier == "quick"
    inf = []
    for name, sizes in (("gl2", (1, 2, 3)), ("gl2c", (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)), ("gl3", (1, 2, 3) if q else (1, 2, 3, 4)), ("gl3c", (1, 2, 3) if q else (1, 2, 3, 4)), ("so3c", (1, 2, 3, 4, 5, 6))):
        n = len(alphabet(name))
        inf += [[name, s, f] for s in sizes for f in range(n)]
    rp = []
    fam = reps.families()
    small = []
    for g, v in fam.items():
        for s in v:
            small.append(s)
            for qb, qa in ((None, None), ("gen", None), (None, "gen"), ("cgen", "tri"), ("perm", "perm")) + (() if q else tuple(itertools.product(ref.REAL_BASES + ref.CPLX_BASES, ref.REAL_BASES))):
                rp.append([s, qb, qa])
    for s in [["SU2", j] for j in range(5, 12)] + [["SUN", [1, 0, 0, 0, 0]], ["SU4", [2, 1, 1, 0]], ["SU3", [3, 0, 0]], ["SO13", 2, 2]]:
        rp.append([s, None, None])
    det = []
    for s in small + [["SU2", 5], ["SO3", 3], ["gen", ["SU2", 2]], ["cb", "cgen", ["SO3", 1]], ["ca", "gen", ["SU2", 1]], ["prod", ["SU2", 1], ["SO3", 1]]]:
        m = reps.model(s)
        if not len(m.A) or (len(m.A) > 8) and q:
            continue
        cost = {"A": m.A.size, "X": m.X.size}
        for which in ("A", "X"):
            if cost[which] <= (110 if q else 1100):
                n = 1 + cost[which] // 60
                det += [[s, which, p, n] for p in range(n)]
    lo = [[s, d] for s in small if len(reps.model(s).A) and np.any(reps.model(s).A) and np.any(reps.model(s).X) for d in (1e-9, 1e-5, 1e-2, 1.0)]
    li = [[s, d, e] for s in small + [["SU2", 3], ["SO3", 2], ["cb", "cgen", ["SU2", 1]]] if len(reps.model(s).A) and len(reps.model(s).A) <= 8 and np.any(reps.model(s).X)
          for d in (0, 1e-9, 1e-7, 1e-5, 1e-3, 1e-1) for e in range(6 if q else 24)]
    tri = []
    from .c04 import series

    for g, irs in reps.SMALL.items():
        gg = {"SU(2)": "SU(2)", "SU(3)": "SU(3)", "SU(4)": "SU(4)"}.get(g, g)
        for a, b in itertools.product(irs, repeat=2):
            for lab in series(gg, a, b):
                c = reps.suspec(lab[0]) if gg.startswith("SU(") else [a[0], *lab]
                tri.append([[a, b, c], None])
    faulty = [[["SU2", 1], ["SU2", 1], ["SU2", 2]], [["SO3", 1], ["SO3", 1], ["SO3", 1]], [["SU2", 1], ["SU2", 0], ["SU2", 1]], [["SU2", 2], ["SU2", 1], ["SU2", 1]], [["O3", 1, -1], ["O3", 0, -1], ["O3", 1, 1]],
              [["SU2", 1], ["SU2", 1], ["SU2", 3]], [["SO3", 1], ["SO3", 0], ["SO3", 2]], [["SU2", 2], ["SU2", 0], ["SU2", 1]]]  # no solution
    if not q:
        faulty += [[["SU3", [1, 0, 0]], ["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]]], [["SL2C", 1, 0], ["SL2C", 0, 1], ["SL2C", 1, 1]], [["SU2Real", 1], ["SU2Real", 1], ["SU2Real", 1]]]
    tri += [[t, [p, w]] for t in faulty for p in range(3) for w in ("A", "X")]
    tcg = [t for t, w in tri if w is None and np.prod([reps.dim(s) for s in t]) <= (60 if q else 200) and t[0][0] not in ("Z2",)]
    return [
        Space("inference", inf, infer, "all sets of matrices of an alphabet", "up to 6 matrices of size 2, 3 (4) of size 3"),
        Space("representations", rp, infer_rep, "faithful representations in all bases of space and algebra"),
        Space("faults", det, detect, "every single-entry fault of structure constants and generators"),
        Space("tolerance", lo, loose, "the tolerance given is the one used"),
        Space("tolerance_inference", li, loose_infer, "nearly closed families: the tolerance given decides"),
        Space("triplets", tri, triplet, "triplets, and every single-entry fault of one member"),
        Space("tables", table_cases(tier), tables, "triplets of user tables with several solutions: each solution, each irrep and the shape wrong in turn"),
        Space("coefficients", tcg, triplet_cg, "every single-entry fault of tabulated Clebsch-Gordan coefficients"),
    ]
