"""Rounding to (square roots of) rationals, against exact arithmetic."""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import reps
from ..engine import Space
from ..ref import expect

ASSUMPTIONS = [
    "float64 (or complex128) numbers; ratios for magnitudes up to 2**50; rounding for magnitudes up to 1e7",
]


def U():
    reps.lie()
    import lie_nn.util

    return lie_nn.util


def ints(x):
    return [int(v) for v in np.ravel(x)]


# ------------------------------------------------------------ best approximation


def limit_row(ctx, case):
    """all numerators of one denominator, all bounds; scalars and arrays"""
    d, top = case["d"], case["top"]
    u = U()
    ns = [n for n in range(-top, top + 1) if math.gcd(n, d) == 1]
    for M in case["bounds"]:
        want = [Fraction(n, d).limit_denominator(M) for n in ns]
        a, b = u.limit_denominator(np.array(ns), np.full(len(ns), d), M)
        for n, p, q, w in zip(ns, ints(a), ints(b), want):
            check_best(n, d, M, p, q, w)
        n = ns[M % len(ns)]
        p, q = u.limit_denominator(np.array(n), np.array(d), M)
        check_best(n, d, M, int(p), int(q), Fraction(n, d).limit_denominator(M))
        ctx.step(len(ns) + 1)
    ctx.state("limit", d)


def normalized(ctx, case):
    """lowest terms with a positive denominator, of all fractions of small terms with signs"""
    f = getattr(u_src(), "normalize_integer_ratio", None)
    if f is None:
        return
    ds = [d for d in range(-case, case + 1) if d]
    for n in range(-case, case + 1):
        a, b = f(np.full(len(ds), n), np.array(ds))
        for d, p, q in zip(ds, ints(a), ints(b)):
            w = Fraction(n, d)
            expect((p, q) == (w.numerator, w.denominator), f"{n}/{d} is normalized to {p}/{q}")
        ctx.step(len(ds))
        ctx.state("normal", case, n)


def u_src():
    reps.lie()
    import lie_nn._src.util as u

    return u


def check_best(n, d, M, p, q, w):
    expect(0 < q <= M, f"limit_denominator({n}, {d}, {M}) = {p}/{q}")
    f = Fraction(n, d)
    expect(
        abs(Fraction(p, q) - f) == abs(w - f),
        f"limit_denominator({n}, {d}, {M}) = {p}/{q}, but {w} is closer",
    )
    expect(math.gcd(p, q) == 1, f"limit_denominator({n}, {d}, {M}) = {p}/{q} is not in lowest terms")


def limit_brute(ctx, case):
    """the reference itself against all fractions"""
    d, M = case
    u = U()
    for n in range(-2 * d, 2 * d + 1):
        if math.gcd(n, d) != 1:
            continue
        p, q = u.limit_denominator(np.array([n]), np.array([d]), M)
        p, q = int(p[0]), int(q[0])
        best = min(abs(Fraction(round(Fraction(n * k, d)), k) - Fraction(n, d)) for k in range(1, M + 1))
        expect(0 < q <= M and abs(Fraction(p, q) - Fraction(n, d)) == best, f"limit_denominator({n}, {d}, {M}) = {p}/{q}")
        ctx.step()
    ctx.state("brute", d, M)


def mixed(ctx, case):
    """entries of one array are treated independently (different numbers of iterations)"""
    fr, M, shape = case
    u = U()
    n = np.array([f[0] for f in fr]).reshape(shape)
    d = np.array([f[1] for f in fr]).reshape(shape)
    keep = n.copy(), d.copy()
    a, b = u.limit_denominator(n, d, M)
    expect(np.shape(a) == tuple(shape) and np.shape(b) == tuple(shape), f"shape {np.shape(a)} instead of {shape}")
    for (x, y), p, q in zip(fr, ints(a), ints(b)):
        check_best(x, y, M, p, q, Fraction(x, y).limit_denominator(M))
    expect(np.array_equal(n, keep[0]) and np.array_equal(d, keep[1]), "arguments modified")
    ctx.step(len(fr))
    ctx.state(case)


def floats(case):
    kind, k = case
    if kind == "ratio":
        return [n / k for n in range(0, 201)]
    if kind == "pow":
        x = 2.0**k
        return [x, np.nextafter(x, 2 * x), np.nextafter(x, 0), 3 * x / 4, x / 3, x * math.pi / 4, x * (1 + 2.0**-30)]
    if kind == "grid":
        return [((k * 500 + i) * 0.6180339887498949) % 1.0 * 10 ** ((k + i) % 13 - 6) for i in range(500)]
    if kind == "sqrt":
        return [math.sqrt(n / k) for n in range(0, 101)]
    raise ValueError(kind)


def ratio(ctx, case):
    """a float becomes an integer ratio within its precision, in lowest terms"""
    u = U()
    xs = [x for x in floats(case)]
    xs = [s * x for x in xs for s in (1, -1)]
    n, d = u.as_approx_integer_ratio(np.array(xs))
    for x, a, b in zip(xs, ints(n), ints(d)):
        expect(b > 0 and math.gcd(a, b) == 1, f"{x!r} -> {a}/{b}")
        f = Fraction(x)
        if f == 0 or abs(f) < Fraction(1, 1 << 51):
            expect(abs(Fraction(a, b) - f) <= Fraction(1, 1 << 51), f"{x!r} -> {a}/{b}")
        else:
            expect(
                abs(Fraction(a, b) - f) <= abs(f) * Fraction(1, 1 << 50),
                lambda: f"{x!r} -> {a}/{b}, off by {float(abs(Fraction(a, b) - f) / abs(f)):.2g} relatively",
            )
        ctx.step()
    p, q = u.as_approx_integer_ratio(np.array(xs[3]))
    expect(int(p) == ints(n)[3] and int(q) == ints(d)[3] and np.shape(p) == (), f"scalar {xs[3]!r} -> {p}/{q}")
    ctx.state(case)


# ------------------------------------------------------------ square roots of rationals


def rounded(u, x, M):
    y = u.round_to_sqrt_rational(x, M) if M is not None else u.round_to_sqrt_rational(x)
    expect(np.shape(y) == np.shape(x), f"shape {np.shape(y)} instead of {np.shape(x)}")
    return y


def representable(ctx, case):
    """+-sqrt(n/d), d up to the square of the bound plus one, is left unchanged"""
    d, ns, M = case
    u = U()
    x = np.array([s * math.sqrt(n / d) for n in ns for s in (1, -1)])
    y = rounded(u, x, M)
    bad = np.abs(y - x) > 4 * np.spacing(np.abs(x))
    expect(not bad.any(), lambda: f"d={d}, bound {M}: {x[bad][0]!r} becomes {y[bad][0]!r}")
    # a small error is removed
    e = 2e-12
    if M is not None and M <= 100:
        z = rounded(u, x + e, M)
        bad = (np.abs(z - x) > 4 * np.spacing(np.abs(x))) & (np.abs(x) > 1e-3)
        expect(not bad.any(), lambda: f"d={d}, bound {M}: {x[bad][0]!r} + {e} becomes {z[bad][0]!r}")
    ctx.step(2 * len(x))
    ctx.state(case[0], case[2], "repr")


def small_change(ctx, case):
    """moves by at most 1e-7, idempotent, odd, real and imaginary parts independently"""
    xs, M = case["x"], case["M"]
    u = U()
    x = np.array(xs)
    y = rounded(u, x, M)
    expect(y.dtype == np.float64, f"dtype {y.dtype}")
    bad = np.abs(y - x) > 1e-7 * (1 + 1e-6) + 2 * np.spacing(np.abs(x))
    expect(not bad.any(), lambda: f"bound {M}: {x[bad][0]!r} becomes {y[bad][0]!r}")
    z = rounded(u, y, M)
    bad = np.abs(z - y) > 4 * np.spacing(np.abs(y))
    expect(not bad.any(), lambda: f"bound {M}: {x[bad][0]!r} becomes {y[bad][0]!r}, then {z[bad][0]!r}")
    expect(np.array_equal(rounded(u, -x, M), -y), "not odd")
    w = rounded(u, x[0] + 1j * x[::-1], M)
    expect(np.array_equal(np.real(w), np.full(len(x), y[0])) and np.array_equal(np.imag(w), y[::-1]), "complex entries: not entry by entry")
    w = rounded(u, 1j * x, M)
    expect(np.array_equal(np.real(w), 0 * x) and np.array_equal(np.imag(w), y), "imaginary entries")
    w = rounded(u, x + 0j, M)
    expect(np.array_equal(np.real(w), y) and not np.any(np.imag(w)), "complex dtype, real entries")
    expect(np.array_equal(x, np.array(xs)), "argument modified")
    ctx.step(6 * len(x))
    ctx.state(xs[:2], M)


def shapes(ctx, case):
    shape, dtype, M = case
    u = U()
    n = int(np.prod(shape))
    v = [math.sqrt((i + 1) / (i + 3)) * (-1) ** i + 1e-10 * i for i in range(n)]
    x = np.array(v, dtype=float).reshape(shape)
    if dtype == "complex":
        x = x + 1j * x[..., ::-1] / 2 if len(shape) else x + 0.5j
    if dtype == "fortran":
        x = np.asfortranarray(x)
    keep = x.copy()
    y = rounded(u, x, M)
    for i in np.ndindex(*shape):
        one = rounded(u, x[i], M)
        expect(np.array_equal(y[i], one), f"entry {i}: {y[i]!r} and {one!r}")
    expect(np.array_equal(keep, x), "argument modified")
    if n and shape:
        y[(0,) * len(shape)] = 7
        expect(np.array_equal(keep, x), "the result shares memory with the argument")
    ctx.step(n)
    ctx.state(case)


def symbolic(ctx, case):
    n, d, M = case
    u = U()
    for s in (1, -1):
        for x in (s * math.sqrt(n / d), 1j * s * math.sqrt(n / d), complex(s * math.sqrt(n / d), math.sqrt(d / n) / 3 if n else 0)):
            v = u.round_to_sqrt_rational_sympy(np.complex128(x), M)
            got = complex(v)
            y = complex(u.round_to_sqrt_rational(np.complex128(x), M))
            if abs(got - x) < 1e-8:
                expect(abs(got - y) < 1e-12 * max(1, abs(y)), f"{x!r}: symbolic {v}, numeric {y!r}")
            else:
                # only numbers that are not representable may be moved
                p = math.sqrt(d / n) / 3 if n else 0
                expect(isinstance(x, complex) and x.real and x.imag and abs(got.real - x.real) < 1e-8, f"{x!r}: symbolic {v}")
            if not (x.real and x.imag) if isinstance(x, complex) else True:
                import sympy as sp

                e = sp.sqrt(sp.Rational(n, d)) * s
                e = e * sp.I if isinstance(x, complex) else e
                expect(sp.simplify(v - e) == 0, f"{x!r}: symbolic {v} instead of {e}")
            ctx.step()
    ctx.state(case)


def spaces(tier):
    q = tier == "quick"
    D = 60 if q else 160
    rows = [{"d": d, "top": 60 if q else 170, "bounds": list(range(1, D + 11))} for d in range(1, D + 1)]
    # large terms: every float of a grid as an exact ratio
    big = []
    for k in range(40 if q else 200):
        fr = []
        for i in range(24):
            x = Fraction(((k * 24 + i) * 0.6180339887498949) % 1.0 + (i % 3))
            fr.append([x.numerator, x.denominator] if i % 4 else [((k + 2) * (i + 5)) // math.gcd((k + 2) * (i + 5), 97), 97 // math.gcd((k + 2) * (i + 5), 97)])
            if i % 5 == 0:
                fr[-1][0] = -fr[-1][0]
        for M in (1, 2, 7, 97, 1000, 4096, 1_000_000, 4096**2 + 1):
            for shape in ([24], [4, 6], [2, 3, 4]):
                if k % 3 == len(shape) - 1:
                    big.append([fr, M, shape])
    brute = [[d, M] for d in range(1, 25 if q else 45) for M in range(1, d + 3)]
    fl = [["ratio", k] for k in range(1, 201)] + [["pow", k] for k in range(-60, 50)] + [["grid", k] for k in range(20 if q else 300)] + [["sqrt", k] for k in range(1, 101)]
    rp = []
    for M in (None, 1, 2, 3, 5, 8, 10, 32, 100, 1000, 4096):
        m = M or 4096
        top = min(m * m + 1, 130 if q else 400)
        for d in range(1, top + 1):
            rp.append([d, list(range(0, 101 if q else 301)), M])
        for d in {m * m, m * m + 1, m, m - 1, m + 1, m * m - 1, (m // 2) ** 2 + 1, 65536, 65537, 15485863}:
            if 0 < d <= m * m + 1:
                rp.append([d, list(range(0, 60)) + [d, d + 1, max(d - 1, 0), 2 * d, d // 2, d // 3, 7 * d + 1], M])
        for b in (range(1, min(m, 4096) + 1, 1 if m <= 100 else 41)):  # squares: rationals a/b
            rp.append([b * b, [a * a for a in range(0, min(2 * b, 60) + 1)], M])
    sc = []
    for M in (None, 1, 2, 10, 1000):
        for k in range(100 if q else 600):
            xs = [(((k * 50 + i) * 0.7548776662466927) % 1.0) * 10 ** ((i + k) % 11 - 8) for i in range(50)]
            if k % 7 == 0:
                xs[3] = 0.0
            if k % 5 == 0:
                xs = [min(x * 10.0 ** ((k // 5) % 7), 1e7) for x in xs]
            sc.append({"x": [float(x) if i % 2 else -float(x) for i, x in enumerate(xs)], "M": M})
    sh = [
        [list(s), t, M]
        for k in range(0, 4)
        for s in itertools.product(range(0, 4), repeat=k)
        for t in ("float", "complex", "fortran")
        for M in (10, 4096)
        if not (t == "complex" and k and np.prod(s) == 0)
    ]
    sy = [[n, d, M] for M in (10, 100) for n in range(0, 13 if q else 40) for d in range(1, 14 if q else 41) if math.gcd(n, d) == 1]
    return [
        Space("limit", rows, limit_row, "every fraction of small terms and every bound, against exact arithmetic"),
        Space("normal", [5, 12, 60] if q else [5, 12, 60, 200], normalized, "all fractions of small terms, either sign of the denominator"),
        Space("brute", brute, limit_brute, "the closest fraction found by trying all of them"),
        Space("mixed", big, mixed, "arrays of large and small fractions"),
        Space("ratio", fl, ratio, "floats to integer ratios: ratios, powers of two and neighbours, square roots, grid over 13 decades"),
        Space("representable", rp, representable, "all square roots of rationals with small denominators and at the bound"),
        Space("small", sc, small_change, "fine grid of reals over 14 decades"),
        Space("shapes", sh, shapes, "all shapes up to 3 dimensions of size up to 3"),
        Space("symbolic", sy, symbolic, "symbolic form of all square roots of small rationals"),
    ]
