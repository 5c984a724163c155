"""Reference models, written without the code under test.

* exact integer combinatorics of weights (characters, Clebsch-Gordan series, dimensions)
* dense matrices (Kronecker products, block sums, exponentials)
* comparisons that do not depend on choices of sign or basis
"""
import functools
import itertools
from collections import Counter
from fractions import Fraction

import numpy as np
import scipy.linalg

from .engine import Violation

TOL = 1e-8


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        fail(msg() if callable(msg) else msg)


def close(a, b, what, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        fail(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        fail(f"{what}: not finite")
    err = float(np.max(np.abs(a - b)))
    if err > tol * max(1.0, float(np.max(np.abs(b)))):
        fail(f"{what}: off by {err:.3g}")


def is_array(x, what, ndim=None):
    if not isinstance(x, np.ndarray):
        fail(f"{what}: {type(x).__name__} instead of an array")
    if x.dtype.kind not in "fciu":
        fail(f"{what}: dtype {x.dtype}")
    if ndim is not None and x.ndim != ndim:
        fail(f"{what}: {x.ndim} dimensions instead of {ndim}")


# ---------------------------------------------------------------- dense models


def kron(*ms):
    r = np.eye(1)
    for m in ms:
        r = np.kron(r, m)
    return r


def block(*ms):
    n = sum(m.shape[0] for m in ms)
    r = np.zeros((n, n), dtype=complex)
    i = 0
    for m in ms:
        r[i : i + len(m), i : i + len(m)] = m
        i += len(m)
    return r


class Dense:
    """The plain model of a representation: structure constants and dense generators."""

    def __init__(self, A, X, H):
        self.A = np.array(A, dtype=complex)
        self.X = np.array(X, dtype=complex)
        self.H = np.array(H, dtype=complex)

    @property
    def dim(self):
        return self.X.shape[1] if self.X.ndim == 3 else self.H.shape[1]

    @staticmethod
    def of(rep):
        return Dense(rep.A, rep.X, rep.H)

    def tensor(a, b):
        d = a.dim * b.dim
        X = [np.kron(x, np.eye(b.dim)) + np.kron(np.eye(a.dim), y) for x, y in zip(a.X, b.X)]
        H = [np.kron(x, y) for x, y in zip(a.H, b.H)]
        return Dense(a.A, _st(X, d), _st(H, d))

    def sum(*rs):
        d = sum(r.dim for r in rs)
        X = [block(*xs) for xs in zip(*[r.X for r in rs])]
        H = [block(*xs) for xs in zip(*[r.H for r in rs])]
        return Dense(rs[0].A, _st(X, d), _st(H, d))

    def change_basis(a, Q):
        iQ = np.linalg.inv(Q)
        return Dense(a.A, _st([Q @ x @ iQ for x in a.X], a.dim), _st([Q @ x @ iQ for x in a.H], a.dim))

    def change_algebra(a, Q):
        iQ = np.linalg.inv(Q)
        n = len(a.A)
        # one index at a time: A'_ijk = Q_ia Q_jb A_abc iQ_ck
        A = np.zeros((n, n, n), dtype=complex)
        if n:
            B = (Q @ a.A.reshape(n, n * n)).reshape(n, n, n)
            A = np.stack([Q @ b @ iQ for b in B])
        X = [sum((Q[i, p] * a.X[p] for p in range(n)), np.zeros((a.dim, a.dim))) for i in range(n)]
        return Dense(A, _st(X, a.dim), a.H)

    def conjugate(a):
        return Dense(a.A, np.conj(a.X), np.conj(a.H))

    def is_trivial(self):
        """Dimension one, generators 0 and 1 up to rounding (None when too close to tell)"""
        if self.dim != 1:
            return False
        off = max([0.0] + [float(np.max(np.abs(x))) for x in (self.X, self.H - 1) if x.size])
        return None if 1e-10 < off < 1e-6 else off <= 1e-10

    def trivial(a):
        return Dense(a.A, np.zeros((len(a.X), 1, 1)), np.ones((len(a.H), 1, 1)))

    def group(a, b):
        n1, n2 = len(a.X), len(b.X)
        A = np.zeros((n1 + n2,) * 3, dtype=complex)
        A[:n1, :n1, :n1] = a.A
        A[n1:, n1:, n1:] = b.A
        d = a.dim * b.dim
        X = [np.kron(x, np.eye(b.dim)) for x in a.X] + [np.kron(np.eye(a.dim), x) for x in b.X]
        H = [np.kron(x, np.eye(b.dim)) for x in a.H] + [np.kron(np.eye(a.dim), x) for x in b.H]
        return Dense(A, _st(X, d), _st(H, d))

    def power(a, n):
        r = a.trivial()
        for _ in range(n):
            r = r.tensor(a)
        return r

    def exp(a, params, ints=()):
        g = scipy.linalg.expm(
            sum((p * x for p, x in zip(params, a.X)), np.zeros((a.dim, a.dim), dtype=complex))
        )
        for k, h in reversed(list(zip(ints, a.H))):
            for _ in range(abs(int(k))):
                g = (h if k > 0 else np.linalg.inv(h)) @ g
        return g


def _st(ms, d):
    return np.stack(ms) if len(ms) else np.zeros((0, d, d))


def same_rep(rep, model, what, tol=TOL):
    """rep (of the implementation) is exactly the model: same algebra, same matrices."""
    A, X, H = rep.A, rep.X, rep.H
    for n, v in (("A", A), ("X", X), ("H", H)):
        is_array(v, f"{what}: {n}", 3)
    close(A, model.A, f"{what}: algebra", tol)
    close(X, model.X, f"{what}: continuous generators", tol)
    close(H, model.H, f"{what}: discrete generators", tol)
    expect(rep.dim == model.dim, f"{what}: dim {rep.dim} instead of {model.dim}")
    expect(
        rep.lie_dim == len(model.A), f"{what}: lie_dim {rep.lie_dim} instead of {len(model.A)}"
    )


def commutant_dim(rep1, rep2, tol=1e-7):
    """dim { S : S rho1 = rho2 S } by the singular values of the dense linear system."""
    return len(intertwiners(rep1, rep2, tol))


def intertwiners(rep1, rep2, tol=1e-7):
    """Orthonormal basis of { S : S rho1 = rho2 S }, shape (m, d2, d1)."""
    a, b = _den(rep1), _den(rep2)
    d1, d2 = a.dim, b.dim
    if d1 == 0 or d2 == 0:
        return np.zeros((0, d2, d1))
    rows = [
        np.kron(np.eye(d2), x.T) - np.kron(y, np.eye(d1))
        for x, y in list(zip(a.X, b.X)) + list(zip(a.H, b.H))
    ]
    if not rows:
        return np.eye(d1 * d2).reshape(d1 * d2, d2, d1)
    M = np.concatenate(rows, 0)
    if M.shape[0] > 4 * M.shape[1]:
        w, v = np.linalg.eigh(M.conj().T @ M)
        s = np.sqrt(np.abs(w))
        N = v[:, s < max(tol, 3e-7) * max(1, s[-1])].T
        return N.conj().reshape(-1, d2, d1).conj()
    u, s, vh = np.linalg.svd(M)
    s = np.concatenate([s, np.zeros(vh.shape[0] - len(s))])
    return vh[s < tol * max(1, s[0])].conj().reshape(-1, d2, d1)


def _den(r):
    return r if isinstance(r, Dense) else Dense.of(r)


def span_dim(V, tol=1e-7):
    V = np.asarray(V)
    if V.size == 0:
        return 0
    s = np.linalg.svd(V.reshape(V.shape[0], -1), compute_uv=False)
    return int(np.sum(s > tol * max(1, s[0])))


def same_span(V, W, what, tol=1e-6):
    """The rows of V and W span the same space, V having no superfluous row."""
    V, W = np.asarray(V), np.asarray(W)
    V, W = V.reshape(V.shape[0], -1), W.reshape(W.shape[0], -1)
    expect(V.shape[1] == W.shape[1] or not len(V) or not len(W), f"{what}: sizes differ")
    r = span_dim(W)
    expect(
        len(V) == r, lambda: f"{what}: {len(V)} vectors for a space of dimension {r}"
    )
    if r == 0:
        return
    q = np.linalg.svd(W, full_matrices=False)[2][:r]
    res = V - V @ q.conj().T @ q
    expect(
        np.max(np.abs(res)) < tol * max(1, np.max(np.abs(V))),
        lambda: f"{what}: a vector outside of the space ({np.max(np.abs(res)):.3g})",
    )
    expect(span_dim(V) == r, lambda: f"{what}: dependent vectors")


# ---------------------------------------------------------------- exact characters

# A character is a Counter {weight: multiplicity}. Weights of SU(N) are tuples of N integers
# (content of the tableaux) modulo (1,...,1); of SU(2) an integer 2m; O(3) adds the parity.


@functools.lru_cache(maxsize=None)
def su_weights(S):
    """Contents of the semistandard tableaux of shape S with entries 1..N, by removing
    horizontal strips (interlacing partitions)."""
    n = len(S)
    if n == 1:
        return Counter({(S[0],): 1})
    res = Counter()
    for T in itertools.product(*[range(S[i + 1], S[i] + 1) for i in range(n - 1)]):
        last = sum(S) - sum(T)
        for w, m in su_weights(T).items():
            res[w + (last,)] += m
    return res


def su_norm(w):
    """modulo (1, ..., 1)"""
    return tuple(x - w[-1] for x in w)


def su_char(S):
    c = Counter()
    for w, m in su_weights(tuple(S)).items():
        c[su_norm(w)] += m
    return c


def su_dim(S):
    d = Fraction(1)
    n = len(S)
    for i in range(n):
        for j in range(i + 1, n):
            d *= Fraction(S[i] - S[j] + j - i, j - i)
    return int(d)


def su_dual(S):
    return tuple(S[0] - s for s in reversed(S))


@functools.lru_cache(maxsize=None)
def su_product(S1, S2):
    """Clebsch-Gordan series of SU(N): Counter {S3: multiplicity}, by peeling off the highest
    weights of the product of the characters."""
    prod = Counter()
    for w1, m1 in su_weights(S1).items():
        for w2, m2 in su_weights(S2).items():
            prod[tuple(a + b for a, b in zip(w1, w2))] += m1 * m2
    res = Counter()
    while True:
        prod = +prod
        if not prod:
            return res
        top = max(prod)  # the lexicographically largest weight is a highest weight
        m = prod[top]
        res[su_norm(top)] += m
        for w, k in su_weights(top).items():
            prod[w] -= m * k
            assert prod[w] >= 0


def su2_char(j):
    return Counter({m: 1 for m in range(-j, j + 1, 2)})


def su2_series(a, b):
    return list(range(abs(a - b), a + b + 1, 2))


def eig_counter(M, scale, what, tol=1e-6):
    """Eigenvalues of M / scale, which have to be integers, with their multiplicities."""
    ev = np.linalg.eigvals(M) / scale
    r = np.round(ev.real)
    if len(ev) and np.max(np.abs(ev - r)) > tol:
        fail(f"{what}: eigenvalues are not integers: {np.sort(ev.real)[:6]}")
    return Counter(int(x) for x in r)


# ---------------------------------------------------------------- deterministic bases


def basis(kind, d, seed=0):
    """Deterministic invertible matrices, of condition number at most 2.5 unless told otherwise."""
    rng = np.random.RandomState(1000 + seed)

    def q(c):
        m = rng.normal(size=(d, d)) + (1j * rng.normal(size=(d, d)) if c else 0)
        return np.linalg.qr(m)[0]

    if kind == "eye":
        return np.eye(d)
    if kind == "perm":
        return np.roll(np.eye(d), 1 + seed, axis=0)
    if kind == "diag":
        return np.diag(np.linspace(1, 2, d) * (-1.0) ** np.arange(d))
    if kind == "tri":
        return np.eye(d) + 0.25 * np.eye(d, k=1)
    if kind == "rot":
        return q(False)
    if kind == "gen":
        return q(False) @ np.diag(np.linspace(1, 2, d)) @ q(False)
    if kind == "unit":
        return q(True)
    if kind == "cgen":
        return q(True) @ np.diag(np.linspace(1, 2, d)) @ q(True)
    if kind == "sign":
        return np.diag((-1.0) ** (np.arange(d) + 1 + seed))
    if kind == "phase":
        return np.diag(1j ** (np.arange(d) + 1 + seed))
    if kind == "scale":
        return 2.0 * np.eye(d)
    if kind == "swap":
        return np.eye(d)[::-1]
    if kind == "shear":  # determinant 1
        m = np.eye(d)
        m[0, -1] += 1.0
        return m
    if kind == "frob1":  # norm of an orthogonal matrix
        v = np.linspace(1, 2, d)
        return np.diag(v * np.sqrt(d / np.sum(v**2)))
    if kind == "frob2":  # Q Q^H of the norm of the identity
        v = np.linspace(1, 2, d)
        return np.diag((v**4 * d / np.sum(v**4)) ** 0.25)
    if kind == "corth":  # Q Q^T = 1, not unitary
        m = np.eye(d, dtype=complex)
        if d > 1:
            c, s = np.cosh(0.4), np.sinh(0.4)
            m[:2, :2] = [[c, 1j * s], [-1j * s, c]]
        return m
    if kind in ("cond8", "ccond8"):
        c = kind[0] == "c" and kind[1] == "c"
        return q(c) @ np.diag(np.linspace(1, 8, d)) @ q(c)
    if kind == "long":
        return q(False) @ np.diag(np.geomspace(1, 300, d)) @ q(False)
    if kind == "clong":
        return q(True) @ np.diag(np.geomspace(1, 300, d)) @ q(True)
    if kind == "near":  # close to the identity
        return np.eye(d) + 1e-4 * np.eye(d, k=1)
    if kind == "close":  # the identity up to a few millionths
        return np.diag(1 + 8e-6 * (np.arange(d) + 1) / d)
    if kind == "tiny":  # in very small units
        return 1e-9 * q(True)
    raise ValueError(kind)


# matrices that pass for others: of determinant or norm one, nearly the identity, diagonal, orthogonal over C
ODD_REAL = ["sign", "scale", "swap", "shear", "frob1", "frob2", "near", "close"]
ODD_BASES = ODD_REAL + ["phase", "corth", "tiny"]
COND_BASES = ["cond8", "ccond8"]  # of condition number 8
LONG_BASES = ["long", "clong"]  # of condition number 300
REAL_BASES = ["perm", "diag", "tri", "rot", "gen"]
CPLX_BASES = ["unit", "cgen"]


def params(n, k):
    """k-th deterministic vector of Lie algebra coordinates, incommensurable entries"""
    return np.array([((i * 0.7548776662 + (k + 1) * 0.5698402910) % 1.0) * 1.6 - 0.8 for i in range(n)])
