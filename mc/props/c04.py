"""Fusion rules against exact Clebsch-Gordan series."""
import itertools
from collections import Counter

from .. import ref, reps
from ..engine import Space
from ..ref import expect


def series(group, s1, s2):
    """Counter {label args: multiplicity}"""
    a, b = s1[1:], s2[1:]
    if group in ("SU2",):
        return Counter((j,) for j in ref.su2_series(a[0], b[0]))
    if group == "SU2Real":
        return Counter((j / 2,) for j in ref.su2_series(int(2 * a[0]), int(2 * b[0])))
    if group == "SO3":
        return Counter((j // 2,) for j in ref.su2_series(2 * a[0], 2 * b[0]))
    if group == "O3":
        return Counter((j // 2, a[1] * b[1]) for j in ref.su2_series(2 * a[0], 2 * b[0]))
    if group in ("SL2C", "SO13"):
        return Counter(
            itertools.product(ref.su2_series(a[0], b[0]), ref.su2_series(a[1], b[1]))
        )
    if group == "Z2":
        return Counter([(a[0] * b[0],)])
    return Counter({(k,): v for k, v in ref.su_product(tuple(a[0]), tuple(b[0])).items()})


def args_of(group, ir):
    if group in ("SU2", "SU2Real"):
        return (ir.j,)
    if group == "SO3":
        return (ir.l,)
    if group == "O3":
        return (ir.l, ir.p)
    if group in ("SL2C", "SO13"):
        return (ir.l, ir.k)
    if group == "Z2":
        return (ir.p,)
    return (tuple(ir.S),)


def listed(group, a, b):
    return [args_of(group, ir) for ir in a * b]


def pair(ctx, case):
    group, s1, s2 = case
    a, b = reps.build(s1), reps.build(s2)
    got = listed(group, a, b)
    want = series(group, s1, s2)
    expect(len(set(got)) == len(got), f"{s1} x {s2} lists an irrep twice: {got}")
    expect(
        set(got) == set(want),
        lambda: f"{s1} x {s2}: missing {sorted(set(want) - set(got))}, superfluous {sorted(set(got) - set(want))}",
    )
    irs = list(a * b)
    total = sum(want[args_of(group, i)] * i.dim for i in irs)
    f = 1
    if group == "SU2Real":  # real irreps: half-integers are counted over the quaternions
        f = None
    if f is not None:
        expect(total == a.dim * b.dim, f"dimensions add up to {total}, not {a.dim * b.dim}")
    expect(set(listed(group, b, a)) == set(got), "the product is not commutative")
    expect(all(x in irs for x in irs) and irs == list(a * b), "two evaluations differ")
    ctx.step(5)
    ctx.state(group, s1, s2)


def unit(ctx, case):
    group, s = case
    a = reps.build(s)
    t = reps.build(['SUN', [0] * len(s[1])]) if s[0] == 'SUN' else a.create_trivial()
    for p in (a * t, t * a):
        expect([args_of(group, i) for i in p] == [args_of(group, a)], f"{s} times the trivial irrep")
        ctx.step()
    ctx.state(group, s)


def triple(ctx, case):
    """associativity, as multisets with multiplicities taken from the coefficients' count model"""
    group, s1, s2, s3 = case
    a, b, c = (reps.build(s) for s in (s1, s2, s3))
    mult = lambda x, y, z: series(group, [0, *args_of(group, x)], [0, *args_of(group, y)])[args_of(group, z)]
    left, right = Counter(), Counter()
    for x in a * b:
        for y in x * c:
            left[args_of(group, y)] += mult(a, b, x) * mult(x, c, y)
            ctx.step()
    for x in b * c:
        for y in a * x:
            right[args_of(group, y)] += mult(b, c, x) * mult(a, x, y)
            ctx.step()
    expect(left == right, lambda: f"({s1} x {s2}) x {s3}: {left} against {right}")
    ctx.state(group, s1, s2, s3)


def counts(ctx, case):
    """number of Clebsch-Gordan solutions = multiplicity; nothing for irreps that are absent"""
    group, s1, s2, s3 = case
    a, b, c = (reps.build(s) for s in (s1, s2, s3))
    C = a.clebsch_gordan(a, b, c)
    m = series(group, s1, s2)[args_of(group, c)]
    if group == "SU2Real":
        m = ref.commutant_dim(ref.Dense.of(a).tensor(ref.Dense.of(b)), c)
    expect(C.shape == (m, a.dim, b.dim, c.dim), f"{C.shape[0]} solutions of shape {C.shape[1:]} for multiplicity {m}")
    expect((c in list(a * b)) == (m > 0), "listed iff there is a solution")
    ctx.step(2)
    ctx.state(group, s1, s2, s3)


def groups(tier):
    q = tier == "quick"
    g = {
        "SU2": [["SU2", j] for j in range(24 if q else 60)],
        "SO3": [["SO3", l] for l in range(20 if q else 50)],
        "O3": [["O3", l, p] for l in range(10 if q else 20) for p in (1, -1)],
        "SU2Real": [["SU2Real", j / 2] for j in range(16 if q else 30)],
        "SL2C": reps.sl2c(6 if q else 9),
        "SO13": reps.so13(8 if q else 10),
        "Z2": [["Z2", 1], ["Z2", -1]],
    }
    lim = {2: 20, 3: 42 if q else 120, 4: 36 if q else 84, 5: 24 if q else 50, 6: 21 if q else 35}
    for N, m in lim.items():
        g[f"SU({N})"] = [
            reps.suspec(S) for S in reps.sun(N, {2: 19, 3: 12, 4: 6, 5: 3, 6: 2}[N]) if ref.su_dim(tuple(S)) <= m
        ]
    return g


def wide(tier):
    """labels far beyond those of the exhaustive boxes"""
    q = tier == "quick"
    out = []
    for N, top, m in ((2, 60, 60), (3, 10, 130), (4, 6, 84), (5, 4, 75), (6, 3, 56), (7, 2, 48), (8, 2, 63)):
        al = [reps.suspec(S) for S in reps.sun(N, top) if ref.su_dim(tuple(S)) <= (m if q else 3 * m)]
        out += [[f"SU({N})", a, b] for a in al for b in al]
    al = [["SU2", j] for j in (0, 1, 2, 59, 60, 127, 128, 255, 256, 1000, 1001)]
    out += [["SU2", a, b] for a in al for b in al]
    al = [["SO3", j] for j in (0, 1, 2, 31, 32, 63, 64, 127, 128, 255, 256, 1000)]
    out += [["SO3", a, b] for a in al for b in al]
    al = [["O3", j, p] for j in (0, 1, 31, 64, 127, 256, 1001) for p in (1, -1)]
    out += [["O3", a, b] for a in al for b in al]
    al = [["SL2C", *t] for t in ((0, 0), (1, 0), (0, 1), (31, 2), (2, 31), (16, 17), (64, 1), (1, 65))]
    out += [["SL2C", a, b] for a in al for b in al]
    al = [["SO13", *t] for t in ((0, 0), (1, 1), (30, 2), (2, 30), (15, 17), (64, 0), (1, 65))]
    out += [["SO13", a, b] for a in al for b in al]
    return out


def spaces(tier):
    q = tier == "quick"
    g = groups(tier)
    pairs = [[n, a, b] for n, v in g.items() for a in v for b in v]
    units = [[n, a] for n, v in g.items() for a in v]
    k = {"SU2": 7, "SO3": 6, "O3": 6, "SU2Real": 0, "SL2C": 6, "SO13": 5, "Z2": 2, "SU(2)": 5, "SU(3)": 7, "SU(4)": 5, "SU(5)": 4, "SU(6)": 3}
    if not q:
        k = {n: v + 3 if v else 0 for n, v in k.items()}
    triples = [[n, *t] for n, v in g.items() for t in itertools.product(v[: k[n]], repeat=3)]
    kc = {"SU2": 7, "SO3": 5, "O3": 8, "SU2Real": 5, "SL2C": 10, "SO13": 4, "Z2": 2, "SU(2)": 4, "SU(3)": 5, "SU(4)": 4, "SU(5)": 2, "SU(6)": 2}
    if not q:
        kc = {n: v + 2 for n, v in kc.items()}
    cts = [[n, *t] for n, v in g.items() for t in itertools.product(v[: kc[n]], repeat=3)]
    return [
        Space("pairs", pairs, pair, "all ordered pairs of labels: the listed irreps are exactly those of the exact series",
              {n: len(v) for n, v in g.items()}),
        Space("wide", wide(tier), pair, "all ordered pairs of far larger labels, SU(N) up to N = 8"),
        Space("unit", units, unit, "trivial irrep is neutral"),
        Space("triples", triples, triple, "associativity on all triples", k),
        Space("solutions", cts, counts, "number of Clebsch-Gordan solutions of every triplet", kc),
    ]
