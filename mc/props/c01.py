"""Generators of every tabulated irrep satisfy the relations of one group."""
import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect, is_array

ASSUMPTIONS = ["numpy linear algebra in double precision; equalities up to 1e-8 relative"]


def labels(tier):
    q = tier == "quick"
    out = {
        "SU2": [["SU2", j] for j in range(0, 49 if q else 81)],
        "SO3": [["SO3", l] for l in range(0, 17 if q else 31)],
        "O3": [["O3", l, p] for l in range(0, 15 if q else 29) for p in (1, -1)],
        "SU2Real": [["SU2Real", j / 2] for j in range(0, 21 if q else 41)]
        + [["SU2Real", j] for j in range(0, 9 if q else 16)],
        "SL2C": reps.sl2c(9 if q else 14),
        "SO13": reps.so13(6 if q else 10),
        "Z2": [["Z2", 1], ["Z2", -1]],
    }
    lim = {2: 16, 3: 48 if q else 120, 4: 50 if q else 140, 5: 45 if q else 75, 6: 21 if q else 70}
    for N, m in lim.items():
        top = {2: 16, 3: 12, 4: 6, 5: 3, 6: 2}[N]
        out[f"SU({N})"] = [reps.suspec(S) for S in reps.sun(N, top) if ref.su_dim(tuple(S)) <= m]
    # equal groups written through the generic class
    out["SU(3) as SUN"] = [["SUN", S] for S in reps.sun(3, 3)]
    return out


KILLING = {  # number of compact directions, number of non compact ones (None: not claimed)
    "SU2": (3, 0),
    "SO3": (3, 0),
    "O3": (3, 0),
    "SU2Real": (3, 0),
    "SO13": (3, 3),
    "SL2C": None,
    "Z2": (0, 0),
}


def check_label(ctx, case):
    group, spec, other = case
    ir = reps.build(spec)
    A, X, H = ir.algebra(), ir.continuous_generators(), ir.discrete_generators()
    for n, v in (("A", A), ("X", X), ("H", H)):
        is_array(v, n, 3)
    n = A.shape[0]
    close(A, np.transpose(-A, (1, 0, 2)), "structure constants are antisymmetric")
    expect(not np.iscomplexobj(A) or np.all(A.imag == 0), "structure constants are real")
    J = np.einsum("ijm,mkl->ijkl", A, A)
    close(J + J.transpose(1, 2, 0, 3) + J.transpose(2, 0, 1, 3), 0 * J, "Jacobi identity")
    ctx.step(3)
    expect(ir.lie_dim == n, f"lie_dim {ir.lie_dim} for {n} structure constants")
    expect(X.shape == (n, ir.dim, ir.dim), f"X has shape {X.shape}, dim {ir.dim}")
    expect(H.shape[1:] == (ir.dim, ir.dim), f"H has shape {H.shape}, dim {ir.dim}")
    left = np.einsum("iab,jbc->ijac", X, X)
    left = left - left.transpose(1, 0, 2, 3)
    close(left, np.einsum("ijk,kab->ijab", A, X), "[X_i, X_j] = A_ijk X_k")
    ctx.step(n * n)
    # the same algebra and number of discrete generators for all the labels of the group
    ref_ir = reps.build(other)
    close(A, ref_ir.algebra(), f"same structure constants as {other}", 1e-10)
    expect(len(H) == len(ref_ir.discrete_generators()), f"as many discrete generators as {other}")
    N = len(spec[1]) if isinstance(spec[1], list) else None
    expected_n = {"Z2": 0, "SL2C": 6, "SO13": 6}.get(group, N * N - 1 if N else 3)
    expect(n == expected_n, f"Lie algebra of dimension {n} instead of {expected_n}")
    expected_h = 1 if group in ("O3", "Z2") else 0
    expect(len(H) == expected_h, f"{len(H)} discrete generators instead of {expected_h}")
    for h in H:  # the inversion: of order two, in the center of the group
        close(h @ h, np.eye(ir.dim), "H H = 1")
        for x in X:
            close(h @ x, x @ h, "H commutes with X")
            ctx.step()
    # real form
    K = np.einsum("ikl,jlk->ij", A, A)
    sig = KILLING.get(group, (n, 0))
    if sig is not None:
        w = np.linalg.eigvalsh((K + K.T) / 2)
        got = (int(np.sum(w < -1e-6)), int(np.sum(w > 1e-6)))
        expect(got == sig, f"signature of the Killing form {got} instead of {sig}")
    elif n:
        expect(abs(np.linalg.det(K)) > 1e-6, "the Killing form is degenerate")
    ctx.step(2)
    # properties and methods agree, attributes are stable
    close(ir.A, A, "A", 1e-14), close(ir.X, X, "X", 1e-14), close(ir.H, H, "H", 1e-14)
    ctx.step(3)
    ctx.state(group, spec)


def spaces(tier):
    lab = labels(tier)
    cases = [[g, s, v[0] if s != v[0] else v[-1]] for g, v in lab.items() for s in v]
    cases.sort(key=lambda c: str(c).count("9"))
    return [
        Space(
            "labels",
            cases,
            check_label,
            "every label of every tabulated group: shapes, antisymmetry, Jacobi, commutators, "
            "discrete relations, real form, equality of the algebra over the labels",
            {g: len(v) for g, v in lab.items()},
        )
    ]
