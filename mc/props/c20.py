"""Linear algebra kernels on all small matrices, against exact elimination."""
import itertools

import numpy as np

from .. import reps
from ..engine import Space
from ..ref import expect, fail

ASSUMPTIONS = [
    "float64 or complex128 matrices whose non-zero singular values stay clear of the tolerances",
    "the intersection is asked for two independent families",
]
ALPHA = {
    "01": [0, 1],
    "pm": [0, 1, -1],
    "i": [0, 1, 1j],
    "ipm": [0, 1, 1j, -1],
    "gauss": [0, 1, -1, 1j, -1j, 1 + 1j],
    "012": [0, 1, 2],
}


def U():
    reps.lie()
    import lie_nn.util

    return lie_nn.util


def matrix(alpha, shape, k):
    a = ALPHA[alpha]
    n = int(np.prod(shape))
    v = []
    for _ in range(n):
        v.append(a[k % len(a)])
        k //= len(a)
    dt = complex if any(isinstance(x, complex) for x in a) else float
    return np.array(v, dtype=dt).reshape(shape)


def rank(M):
    """exact: fraction-free elimination of integers (a complex matrix counts as a real one)"""
    M = np.asarray(M)
    if np.iscomplexobj(M):
        re, im = M.real, M.imag
        r = rank(np.block([[re, -im], [im, re]]))
        assert r % 2 == 0
        return r // 2
    rows = [[int(x) for x in r] for r in M]
    r = 0
    ncol = M.shape[1] if M.ndim == 2 else 0
    for c in range(ncol):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        a = rows[r]
        for i in range(r + 1, len(rows)):
            b = rows[i]
            if b[c]:
                f, g = a[c], b[c]
                rows[i] = [f * y - g * x for x, y in zip(a, b)]
        r += 1
        if r == len(rows):
            break
    return r


def orthonormal(X, what, tol=1e-8):
    if X.shape[0]:
        err = np.max(np.abs(X @ X.conj().T - np.eye(len(X))))
        expect(err < tol, lambda: f"{what}: rows are not orthonormal ({err:.2g})")


def zero(Y, what, tol=1e-8):
    if Y.size:
        err = np.max(np.abs(Y))
        expect(err < tol, lambda: f"{what}: {err:.2g} instead of 0")


def in_span(Q, A, what, tol=1e-8):
    """rows of A in the span of the orthonormal rows Q"""
    zero(A - (A @ Q.conj().T) @ Q, what, tol)


def show(M):
    return str(np.asarray(M).tolist())


def check_nullspace(u, A, **kw):
    tol = 1e-5 if kw else 1e-8
    n = A.shape[1]
    keep = A.copy()
    X = u.nullspace(A, **kw)
    r = rank(A)
    what = f"nullspace of {show(A)}"
    expect(X.shape == (n - r, n), lambda: f"{what}: shape {X.shape} instead of {(n - r, n)}")
    zero(A @ X.T, what, tol)
    orthonormal(X, what, tol)
    expect(np.array_equal(A, keep), f"{what}: argument modified")


def check_gram_schmidt(u, A, **kw):
    tol = 1e-5 if kw else 1e-8
    keep = A.copy()
    Q = u.gram_schmidt(A, **kw)
    what = f"gram_schmidt of {show(A)}"
    r = rank(A)
    expect(Q.shape == (r, A.shape[1]), lambda: f"{what}: shape {Q.shape} instead of {(r, A.shape[1])}")
    orthonormal(Q, what, tol)
    in_span(Q, A, what, tol)
    for i in range(1, len(A)):  # the first rows span what the first rows of A span
        in_span(Q[: rank(A[:i])], A[:i], f"{what}: first {i} rows", tol)
    expect(np.array_equal(A, keep), f"{what}: argument modified")


def check_extend(u, A, **kw):
    tol = 1e-5 if kw else 1e-8
    keep = A.copy()
    n, r = A.shape[1], rank(A)
    Q = u.extend_basis(A, **kw)
    what = f"extend_basis of {show(A)}"
    expect(Q.shape == (n, n), lambda: f"{what}: shape {Q.shape} instead of {(n, n)}")
    orthonormal(Q, what, tol)
    in_span(Q[:r], A, what, tol)
    E = u.extend_basis(A, returns="E", **kw)
    expect(E.shape == (n - r, n), lambda: f"{what} (E): shape {E.shape} instead of {(n - r, n)}")
    orthonormal(E, what + " (E)", tol)
    zero(E.conj() @ A.T, what + " (E)", tol)
    expect(np.array_equal(A, keep), f"{what}: argument modified")


CHECKS = {"nullspace": check_nullspace, "gram_schmidt": check_gram_schmidt, "extend_basis": check_extend}


def block(ctx, case):
    """all matrices of a shape, numbers start to stop"""
    fn, alpha, shape, start, stop, rounded = case
    u = U()
    kw = {"round_fn": u.round_to_sqrt_rational} if rounded else {}
    for k in range(start, stop):
        A = matrix(alpha, shape, k)
        CHECKS[fn](u, A, **kw)
        ctx.step()
        ctx.state(fn, alpha, shape, k, rounded)


def empty(ctx, case):
    fn, shape, dt = case
    u = U()
    CHECKS[fn](u, np.zeros(shape, dtype=dt))
    ctx.step()
    ctx.state(case)


def sequential(ctx, case):
    """all sequences of matrices: common null space; too small a target is refused"""
    alpha, shapes, start, stop = case
    u = U()
    sizes = [len(ALPHA[alpha]) ** int(np.prod(s)) for s in shapes]
    for k in range(start, stop):
        As, j = [], k
        for s, m in zip(shapes, sizes):
            As.append(matrix(alpha, s, j % m))
            j //= m
        n = shapes[0][1]
        A = np.concatenate(As)
        d = n - rank(A)
        what = f"sequential_nullspace of {[show(a) for a in As]}"
        for gen in (list(As), iter(As)):
            X = u.sequential_nullspace(gen, d)
            expect(X.shape == (d, n), lambda: f"{what}: shape {X.shape} instead of {(d, n)}")
            zero(A @ X.T, what)
            orthonormal(X, what)
        if d > 0:
            try:
                X = u.sequential_nullspace(As, d - 1)
            except ValueError:
                pass
            else:
                fail(f"{what}: dimension {d - 1} accepted, result {X.shape}")
        for t in range(d + 1, n + 1):  # stops at the first matrices with so small a common null space
            for m in range(1, len(As) + 1):
                A = np.concatenate(As[:m])
                if n - rank(A) <= t:
                    break
            X = u.sequential_nullspace(list(As), t)
            expect(X.shape == (n - rank(A), n), lambda: f"{what}, target {t}: shape {X.shape} instead of {(n - rank(A), n)}")
            zero(A @ X.T, what)
            ctx.step()
        ctx.step(3)
        ctx.state("seq", alpha, shapes, k)


def intersection(ctx, case):
    alpha, n1, n2, shape, k1, start, stop = case
    u = U()
    dim = int(np.prod(shape))
    A = matrix(alpha, (n1, dim), k1)
    if rank(A) < n1:
        return
    for k in range(start, stop):
        B = matrix(alpha, (n2, dim), k)
        if rank(B) < n2:
            continue
        d = n1 + n2 - rank(np.concatenate([A, B]))
        P1, P2 = u.basis_intersection(A.reshape((n1, *shape)), B.reshape((n2, *shape)))
        what = f"basis_intersection of {show(A)} and {show(B)}"
        expect(P1.shape == (d, n1) and P2.shape == (d, n2), lambda: f"{what}: shapes {P1.shape}, {P2.shape}, dimension {d}")
        if d:
            for V, O, name in ((P1 @ A, B, "first"), (P2 @ B, A, "second")):
                q = np.linalg.qr(O.T)[0].T
                in_span(q, V, f"{what}: {name}", 1e-7)
                s = np.linalg.svd(V, compute_uv=False)
                expect(s[-1] > 1e-3, lambda: f"{what}: {name}: dependent vectors")
            orthonormal(P1, what)
            orthonormal(P2, what)
        ctx.step()
        ctx.state("inter", alpha, shape, k1, k)


SCALES = [(1, 1, 1), (30, 30, 30), (300, 300, 300), (1, 10, 1), (1000, 1, 1), (1, 300, 1), (3000, 1, 1)]


def scaled(ctx, case):
    """families of vectors of various lengths"""
    alpha, n1, n2, shape, k1, i1, start, stop = case
    u = U()
    dim = int(np.prod(shape))
    A0 = matrix(alpha, (n1, dim), k1)
    if rank(A0) < n1:
        return
    A = A0 * np.array((SCALES[i1] * 2)[:n1])[:, None]
    for k in range(start, stop):
        B0 = matrix(alpha, (n2, dim), k)
        if rank(B0) < n2:
            continue
        d = n1 + n2 - rank(np.concatenate([A0, B0]))
        for i2, sc in enumerate(SCALES):
            B = B0 * np.array((sc * 2)[:n2])[:, None]
            # the coefficients of the intersection, from scratch; clear of the default tolerance
            M = np.concatenate([A, -B]).T
            Uu, s, Vh = np.linalg.svd(M)
            r = n1 + n2 - d
            if r and s[r - 1] ** 2 < 1e-2:
                continue
            N = Vh[r:].conj().T
            ok = True
            for x in (N[:n1], N[n1:]):
                t = np.linalg.eigvalsh(x @ x.conj().T)
                ok = ok and (not d or t[-d] > 1e-2)
            if not ok or np.max(s) > 1e4:
                continue
            what = f"basis_intersection of {show(A)} and {show(B)}"
            P1, P2 = u.basis_intersection(A.reshape((n1, *shape)), B.reshape((n2, *shape)))
            expect(P1.shape == (d, n1) and P2.shape == (d, n2), lambda: f"{what}: shapes {P1.shape}, {P2.shape}, dimension {d}")
            if d:
                for V, O, name in ((P1 @ A, B, "first"), (P2 @ B, A, "second")):
                    q = np.linalg.qr(O.T)[0].T
                    in_span(q, V, f"{what}: {name}", 1e-6 * np.max(s))
                orthonormal(P1, what)
                orthonormal(P2, what)
            ctx.step()
            ctx.state("scaled", alpha, shape, k1, k, i1, i2)


def intertwiners(ctx, case):
    """all S with X1 S = S X2"""
    alpha, n, d1, d2, k1, start, stop = case
    u = U()
    X1 = matrix(alpha, (n, d1, d1), k1)
    for k in range(start, stop):
        X2 = matrix(alpha, (n, d2, d2), k)
        S = u.infer_change_of_basis(X1, X2)
        A = np.concatenate([np.kron(x, np.eye(d2)) - np.kron(np.eye(d1), y.T) for x, y in zip(X1, X2)])
        m = d1 * d2 - rank(A)
        what = f"intertwiners of {show(X1)} and {show(X2)}"
        expect(S.shape == (m, d1, d2), lambda: f"{what}: shape {S.shape}, {m} expected")
        zero(np.einsum("nij,mjk->mnik", X1, S) - np.einsum("mij,njk->mnik", S, X2), what)
        orthonormal(S.reshape(m, d1 * d2), what)
        if n == 1:
            T = u.infer_change_of_basis(X1[0], X2[0])
            expect(T.shape == S.shape and np.allclose(T, S), f"{what}: single matrices")
        ctx.step()
        ctx.state("intertwiners", alpha, n, d1, d2, k1, k)


def refused(ctx, case):
    """integer and three-dimensional input is refused rather than misread"""
    fn, kind = case
    u = U()
    A = {"int": np.array([[1, 2], [2, 4]]), "3d": np.zeros((2, 2, 2)), "1d": np.zeros(3)}[kind]
    try:
        r = getattr(u, fn)(A)
    except Exception:
        ctx.step()
        ctx.state(case)
        return
    fail(f"{fn} of a {kind} array: {r!r}")


def chunks(total, size):
    return [(i, min(total, i + size)) for i in range(0, total, size)]


def spaces(tier):
    q = tier == "quick"
    mats = []
    shapes = [("gauss", (1, 1)), ("gauss", (1, 2)), ("gauss", (2, 1)), ("gauss", (2, 2)), ("gauss", (1, 3)), ("gauss", (3, 1)),
              ("pm", (2, 3)), ("pm", (3, 2)), ("ipm", (2, 3)), ("ipm", (3, 2)), ("i", (2, 4)), ("01", (3, 4)), ("01", (4, 3)), ("01", (6, 2)), ("pm", (1, 5)), ("012", (2, 3))]
    big = [("pm", (3, 3)), ("i", (3, 3)), ("01", (4, 4)), ("01", (5, 3)), ("i", (4, 2)), ("pm", (2, 4))]
    for fn in CHECKS:
        for alpha, s in shapes + ([b for b in big if fn != "extend_basis" or b[1] == (3, 3)] if q else big + [("ipm", (3, 3)), ("gauss", (2, 3)), ("gauss", (3, 2)), ("pm", (4, 3))]):
            total = len(ALPHA[alpha]) ** int(np.prod(s))
            if q and total > 10000:  # every other matrix number in the quick tier would be sampling: cut by shape
                if fn == "nullspace" and s == (4, 4):
                    continue
            if fn == "extend_basis" and s[0] > s[1] and s[0] > 3:
                continue
            mats += [[fn, alpha, list(s), a, b, 0] for a, b in chunks(total, 250)]
        for alpha, s in [("gauss", (2, 2)), ("pm", (2, 3)), ("pm", (3, 2)), ("01", (3, 3)), ("i", (2, 3))]:
            total = len(ALPHA[alpha]) ** int(np.prod(s))
            mats += [[fn, alpha, list(s), a, b, 1] for a, b in chunks(total, 250)]
    em = [[fn, [m, n], t] for fn in ("gram_schmidt", "extend_basis", "nullspace") for m in range(0, 4) for n in range(1, 4) for t in ("float64", "complex128")]
    seq = []
    for alpha, ss in [("pm", [(1, 2), (1, 2), (1, 2)]), ("i", [(1, 3), (1, 3)]), ("01", [(2, 2), (1, 2), (2, 2)]), ("01", [(1, 3), (1, 3), (1, 3), (1, 3)]), ("ipm", [(1, 2), (2, 2)])] + (
        [] if q else [("pm", [(1, 3), (2, 3)]), ("i", [(1, 3), (1, 3), (1, 3)]), ("01", [(1, 4), (2, 4), (1, 4)])]
    ):
        total = len(ALPHA[alpha]) ** sum(int(np.prod(s)) for s in ss)
        seq += [[alpha, [list(s) for s in ss], a, b] for a, b in chunks(total, 200)]
    inter = []
    for alpha, n1, n2, s in [("pm", 1, 1, (2,)), ("pm", 1, 2, (2,)), ("pm", 2, 2, (2,)), ("gauss", 1, 1, (2,)), ("ipm", 1, 2, (2,)), ("ipm", 1, 1, (3,)), ("i", 1, 1, (2, 2)),
                             ("01", 2, 2, (3,)), ("01", 1, 3, (3,)), ("01", 1, 2, (2, 2)), ("i", 2, 2, (2,)), ("i", 1, 2, (3,)), ("01", 0, 2, (2,)), ("01", 2, 0, (2,))] + (
        [] if q else [("01", 2, 3, (3,)), ("01", 2, 2, (2, 2)), ("pm", 1, 2, (3,)), ("i", 2, 1, (3,)), ("01", 3, 3, (3,)), ("ipm", 2, 2, (2,))]
    ):
        dim = int(np.prod(s))
        t1, t2 = len(ALPHA[alpha]) ** (n1 * dim), len(ALPHA[alpha]) ** (n2 * dim)
        for k1 in range(t1):
            inter += [[alpha, n1, n2, list(s), k1, a, b] for a, b in chunks(t2, 1000)]
    scl = []
    for alpha, n1, n2, s in [("pm", 1, 1, (2,)), ("01", 2, 2, (2,)), ("01", 1, 2, (3,)), ("01", 2, 2, (3,)), ("i", 1, 1, (2,))] + ([] if q else [("01", 2, 3, (3,)), ("i", 2, 2, (2,)), ("pm", 2, 2, (2,)), ("01", 2, 2, (2, 2))]):
        dim = int(np.prod(s))
        t1, t2 = len(ALPHA[alpha]) ** (n1 * dim), len(ALPHA[alpha]) ** (n2 * dim)
        for k1 in range(t1):
            for i1 in range(len(SCALES)):
                scl += [[alpha, n1, n2, list(s), k1, i1, a, b] for a, b in chunks(t2, 1000)]
    tw = []
    for alpha, n, d1, d2 in [("gauss", 1, 1, 1), ("gauss", 2, 1, 1), ("pm", 1, 1, 2), ("gauss", 1, 2, 1), ("pm", 1, 2, 2), ("i", 1, 2, 2), ("01", 2, 2, 2), ("01", 1, 1, 3), ("i", 2, 1, 2)] + (
        [] if q else [("ipm", 1, 2, 2), ("01", 1, 3, 2), ("01", 1, 2, 3), ("01", 3, 1, 2)]
    ):
        t1, t2 = len(ALPHA[alpha]) ** (n * d1 * d1), len(ALPHA[alpha]) ** (n * d2 * d2)
        for k1 in range(t1):
            tw += [[alpha, n, d1, d2, k1, a, b] for a, b in chunks(t2, 300)]
    ref_ = [[fn, k] for fn in ("gram_schmidt", "nullspace") for k in ("int", "3d", "1d")]
    return [
        Space("matrices", mats, block, "every matrix over an alphabet: null space, Gram-Schmidt, completion", "shapes up to 3x3, 2x4, 3x4, 4x3, 6x2"),
        Space("empty", em, empty, "zero matrices and matrices without rows"),
        Space("sequential", seq, sequential, "common null space of all sequences of matrices"),
        Space("intersection", inter, intersection, "all pairs of independent families"),
        Space("scaled", scl, scaled, "pairs of families of vectors of various lengths", f"{len(SCALES)} scalings of each family"),
        Space("intertwiners", tw, intertwiners, "all pairs of families of matrices"),
        Space("refused", ref_, refused, "input of another kind"),
    ]
