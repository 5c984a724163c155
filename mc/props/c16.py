"""Tensor bases with prescribed index symmetries."""
import itertools
from collections import Counter
from math import factorial

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import expect, fail

ASSUMPTIONS = [
    "sums of tabulated irreps (the interface takes no other form); half-integer irreps of the real form of SU(2) have no tabulated product",
]
LETTERS = "ijklm"  # at most five indices


# ------------------------------------------------- signed permutations, written independently
# (s, p): T[x_0, ..., x_n-1] = s T[x_p0, ..., x_pn-1]


def signed_perms(n):
    return [(s, p) for s in (1, -1) for p in itertools.permutations(range(n))]


def mul(a, b):
    return a[0] * b[0], tuple(a[1][i] for i in b[1])


def closure(gens, n):
    """breadth-first search of the group generated (finite: products are enough)"""
    e = (1, tuple(range(n)))
    seen, front = {e}, [e]
    while front:
        nxt = []
        for x in front:
            for g in gens:
                y = mul(x, g)
                if y not in seen:
                    seen.add(y)
                    nxt.append(y)
        front = nxt
    return frozenset(seen)


def term(g, letters):
    """T_ijk = s T_(letters permuted)"""
    return ("-" if g[0] < 0 else "") + "".join(letters[i] for i in g[1])


def formula(gens, n, letters=LETTERS):
    return "=".join([letters[:n]] + [term(tuple(g), letters) for g in gens])


def orbits(G, n):
    res = []
    for i in range(n):
        o = frozenset(p[i] for _, p in G)
        if o not in res:
            res.append(o)
    return res


def cycles(p):
    seen, res = set(), []
    for i in range(len(p)):
        c = []
        while i not in seen:
            seen.add(i)
            c.append(i)
            i = p[i]
        if c:
            res.append(c)
    return res


def dimension(G, dims):
    """trace of the projector on the tensors with the symmetry, exactly"""
    t = 0
    for s, p in G:
        k = s
        for c in cycles(p):
            k *= dims[c[0]]
        t += k
    assert t % len(G) == 0
    return t // len(G)


def check_basis(out, rs, G, what, expected_dim=None, letters=LETTERS):
    """out: RepArray of the implementation, rs: dense models of the indices, G: symmetry group"""
    n = len(rs)
    dims = tuple(r.dim for r in rs)
    arr = np.asarray(out.array)
    d = dimension(G, dims) if expected_dim is None else expected_dim
    expect(arr.shape == dims + (d,), lambda: f"{what}: shape {arr.shape} instead of {dims + (d,)}")
    expect(out.rep.dim == d, f"{what}: announced dimension {out.rep.dim} instead of {d}")
    expect(np.all(np.isfinite(arr)), f"{what}: not finite")
    parts = [np.reshape(np.asarray(x), dims + (int(np.prod(np.shape(x)[n:])),)) for x in out.list]
    cat = np.concatenate(parts, -1) if parts else np.zeros(dims + (0,))
    expect(cat.shape == arr.shape and np.allclose(cat, arr), f"{what}: list and array disagree")
    expect(
        [tuple(np.shape(x)) for x in out.list] == [dims + (m.mul, m.rep.dim) for m in out.rep.irreps]
        or d == 0,
        f"{what}: list and irreps disagree",
    )
    Dout = ref.Dense.of(out.rep)
    expect(len(Dout.X) == len(rs[0].X) and len(Dout.H) == len(rs[0].H), f"{what}: generators of the announced rep")
    if d == 0:
        return
    V = arr.reshape(-1, d)
    s = np.linalg.svd(V, compute_uv=False)
    expect(len(s) >= d and s[d - 1] > 1e-4 * s[0], lambda: f"{what}: {int(np.sum(s > 1e-4 * s[0]))} independent tensors instead of {d}")
    scale = np.max(np.abs(arr))
    for sg, p in G:
        err = np.max(np.abs(arr - sg * arr.transpose(tuple(np.argsort(p)) + (n,))))
        expect(err < 2e-5 * scale, lambda: f"{what}: not symmetric under {term((sg, p), letters)} ({err:.2g})")
    for k in range(len(Dout.X)):
        lhs = sum(np.moveaxis(np.tensordot(r.X[k], arr, axes=(0, i)), 0, i) for i, r in enumerate(rs))
        err = np.max(np.abs(lhs - arr @ Dout.X[k].T))
        expect(err < 1e-5 * scale * max(1, np.max(np.abs(lhs))), lambda: f"{what}: continuous generator {k} ({err:.2g})")
    for k in range(len(Dout.H)):
        lhs = arr
        for i, r in enumerate(rs):
            lhs = np.moveaxis(np.tensordot(r.H[k], lhs, axes=(0, i)), 0, i)
        err = np.max(np.abs(lhs - arr @ Dout.H[k].T))
        expect(err < 1e-5 * scale, lambda: f"{what}: discrete generator {k} ({err:.2g})")


def call(f, assign, **kw):
    L = reps.lie()
    return L.reduced_tensor_product_basis(f, **{c: reps.build(s) for c, s in assign.items()}, **kw)


def symmetric(ctx, case):
    gens, given, n = case
    gens = [(s, tuple(p)) for s, p in gens]
    G = closure(gens, n)
    f = formula(gens, n)
    assign = {}
    for c, s in given.items():
        assign[c] = s
    full = {}
    for o in orbits(G, n):
        s = next(assign[LETTERS[i]] for i in o if LETTERS[i] in assign)
        for i in o:
            full[i] = s
    rs = [reps.model(full[i]) for i in range(n)]
    out = call(f, assign)
    check_basis(out, rs, G, f"{f} {given}")
    ctx.step(len(G))
    ctx.state(sorted(G), [full[i] for i in range(n)])


def plain(ctx, case):
    """no symmetry: list of representations, and a formula with one term"""
    specs = case
    L = reps.lie()
    n = len(specs)
    rs = [reps.model(s) for s in specs]
    G = closure([], n)
    out = L.reduced_tensor_product_basis([reps.build(s) for s in specs])
    check_basis(out, rs, G, f"list {specs}")
    out2 = call(LETTERS[:n], dict(zip(LETTERS, specs)))
    check_basis(out2, rs, G, f"{LETTERS[:n]} {specs}")
    out3 = L.reduced_tensor_product_basis(tuple(reps.build(s) for s in specs))
    ref.close(out3.array, out.array, "tuple against list")
    ctx.step(3)
    ctx.state(specs)


def many(ctx, case):
    """many indices: transpositions and products of two of them, small representations"""
    n, word, gens = case
    letters = "abcdefghijkl"
    specs = [MANY[c] for c in word]
    gens = [(s, tuple(p)) for s, p in gens]
    G = closure(gens, n)
    rs = [reps.model(s) for s in specs]
    if gens:
        out = call(formula(gens, n, letters), dict(zip(letters, specs)))
    else:
        out = reps.lie().reduced_tensor_product_basis([reps.build(s) for s in specs])
    check_basis(out, rs, G, f"{formula(gens, n, letters)} {word}", letters=letters)
    ctx.step(len(G))
    ctx.state(n, word, sorted(G))


MANY = {
    "b": ["mul", 2, ["Z2", -1]],
    "a": reps.red((1, ["Z2", 1]), (1, ["Z2", -1])),
    "q": reps.red((1, ["Z2", -1]), (1, ["Z2", 1]), q="rot"),
    "1": ["Z2", -1],
    "t": ["mul", 3, ["Z2", 1]],
    "s": ["SO3", 0],
    "v": ["SO3", 1],
}


def many_cases(q):
    res = []

    def put(n, word, gens=()):
        if 2 ** sum(c in "abq" for c in word) * 3 ** sum(c in "tv" for c in word) <= (300 if q and gens else 1100):
            res.append([n, word, [[s, list(p)] for s, p in gens]])

    def swap(n, *pairs):
        p = list(range(n))
        for i, j in pairs:
            p[i], p[j] = p[j], p[i]
        return tuple(p)

    for n in range(6, 11 if q else 12):
        for i, j in itertools.combinations(range(n), 2):
            if q and n == 10 and (i + j) % 2 and j < 8:
                continue
            w = ["b"] * n
            w[i] = w[j] = "a"
            put(n, "".join(w))
            for base in ("b", "1") if n < 10 else ("1",):
                # an exchange of two indices, among others of another kind
                w = [base if k % 3 else "1" for k in range(n)]
                w[i] = w[j] = "a"
                for s in (1, -1):
                    put(n, "".join(w), [(s, swap(n, (i, j)))])
                w = ["s"] * n
                w[i] = w[j] = "v"
                put(n, "".join(w), [(-1, swap(n, (i, j)))])
            for k in range(n):
                if k in (i, j) or (q and (k + i + j) % 4):
                    continue
                w = ["1"] * n
                w[i] = w[j] = "a"
                w[k] = "t"
                for s in (1, -1):
                    put(n, "".join(w), [(s, swap(n, (i, j)))])
        # four indices exchanged by pairs
        for c in itertools.combinations(range(n), 4):
            if q and (sum(c) % 5 or n < 8):
                continue
            w = ["1"] * n
            for k in c:
                w[k] = "a"
            put(n, "".join(w), [(-1, swap(n, (c[0], c[1]), (c[2], c[3])))])
            w[c[1]] = w[c[3]] = "q"
            put(n, "".join(w), [(1, swap(n, (c[0], c[2]), (c[1], c[3])))])
            put(n, "".join(w), [(1, swap(n, (c[0], c[2]))), (-1, swap(n, (c[1], c[3])))])
    return res


def spelling(ctx, case):
    """the same symmetry spelled differently: same space of tensors"""
    f1, f2, assign1, assign2, spec = case
    a = call(f1, {c: spec for c in assign1})
    b = call(f2, {c: spec for c in assign2})
    d = a.array.shape[-1]
    expect(a.array.shape == b.array.shape, f"{f1} and {f2}: shapes {a.array.shape} and {b.array.shape}")
    if d:
        ref.same_span(b.array.reshape(-1, d).T, a.array.reshape(-1, d).T, f"{f1} against {f2}")
    ctx.step(2)
    ctx.state(case)


def rejected(ctx, case):
    kind, f, assign = case
    try:
        out = call(f, assign)
    except Exception:
        ctx.step()
        ctx.state(case)
        return
    fail(f"{kind}: {f} {assign} accepted (result of shape {np.shape(out.array)})")


BASE = {
    "SO3": ["SO3", 1],
    "SU2": ["SU2", 1],
    "O3": ["O3", 1, -1],
    "Z2": reps.red((1, ["Z2", -1]), (1, ["Z2", 1])),
    "SU3": ["SU3", [1, 0, 0]],
    "SU(2)": ["SU2_", [1, 0]],
    "SU2Real": ["SU2Real", 1],
    "SL2C": ["SL2C", 1, 0],
    "SO13": ["SO13", 1, 1],
    "sum": reps.red((1, ["SO3", 0]), (1, ["SO3", 1])),
    "rot": reps.red((1, ["SU2", 0]), (1, ["SU2", 1]), q="cgen"),
    "mul": ["mul", 2, ["SU2", 1]],
    "sumO3": reps.red((1, ["O3", 0, -1]), (1, ["O3", 0, 1]), (1, ["O3", 0, -1]), q="gen"),
    "parity": reps.red((2, ["Z2", -1]), (1, ["Z2", 1]), q="rot"),
    "SO3_2": ["SO3", 2],
    "SU2_2": reps.red((1, ["SU2", 2]), (0, ["SU2", 1]), q="tri"),
    "triv": ["SO3", 0],
    "cond": reps.red((1, ["SU2", 1]), q="ccond8"),
    "condr": reps.red((1, ["O3", 0, -1]), (1, ["O3", 0, 1]), q="cond8"),
    "odd": ["Z2", -1],
    "none": ["mul", 0, ["SU2", 1]],
    "noneO3": ["red", [["mul", 0, ["O3", 1, 1]], ["mul", 0, ["O3", 0, -1]]], None],
}
SECOND = {  # another representation of the same group, for the other orbits
    "SO3": ["SO3", 0], "SU2": ["SU2", 2], "O3": ["O3", 0, -1], "Z2": ["Z2", -1], "SU3": ["SU3", [1, 1, 0]],
    "SU(2)": ["SU2_", [0, 0]], "SU2Real": ["SU2Real", 0], "SL2C": ["SL2C", 0, 1], "SO13": ["SO13", 0, 0],
    "sum": reps.red((1, ["SO3", 1]), q="rot"), "rot": ["mul", 2, ["SU2", 0]], "mul": reps.red((1, ["SU2", 1]), (1, ["SU2", 0]), (1, ["SU2", 1])),
    "sumO3": ["O3", 1, 1], "parity": ["mul", 2, ["Z2", -1]], "SO3_2": ["SO3", 1], "SU2_2": ["SU2", 1], "triv": ["SO3", 1], "cond": reps.red((2, ["SU2", 0]), q="cond8"), "condr": reps.red((1, ["O3", 0, -1]), q="unit"), "odd": ["Z2", 1],
    "none": ["SU2", 1], "noneO3": reps.red((1, ["O3", 0, -1]), (0, ["O3", 1, 1])),
}


def subgroups(n, ngen):
    """{signed subgroup: a shortest list of generators}"""
    e = [g for g in signed_perms(n)]
    res = {closure([], n): []}
    for k in range(1, ngen + 1):
        for gens in itertools.combinations(e, k):
            G = closure(gens, n)
            if G not in res:
                res[G] = [list(g) for g in gens]
    return res


def spaces(tier):
    q = tier == "quick"
    sym, seen = [], set()

    def add(gens, n, G, names, cap):
        for name in names:
            a, b = BASE[name], SECOND[name]
            obs = orbits(G, n)
            for flip in (0, 1):
                given, tot = {}, 1
                for k, o in enumerate(obs):
                    s = a if (k + flip) % 2 == 0 else b
                    # the representation is given for one index of each orbit, or for all of them
                    o = sorted(o)
                    pick = o if flip else [o[-1]]
                    for i in pick:
                        given[LETTERS[i]] = s
                    tot *= (reps.dim(s) or 2) ** len(o)
                if tot > cap:
                    continue
                c = [[list(g) for g in gens], given, n]
                if repr(c) not in seen:
                    seen.add(repr(c))
                    sym.append(c)

    allnames = list(BASE)
    slow = ("SO13", "SU3", "SO3_2", "sumO3")
    few = ["SO3", "SU2", "Z2", "rot"]
    # whole groups on representations of dimension as large as the number of indices, and larger
    wide = []
    # (representation of the orbits, representation of the indices that stay)
    reps4 = [(["SU2", 3], ["SU2", 1]), (reps.red((1, ["SO3", 1]), (1, ["SO3", 0])), ["SO3", 1]),
             (reps.red((2, ["Z2", 1]), (2, ["Z2", -1])), ["Z2", -1]),
             (reps.red((1, ["SU2", 1]), (1, ["SU2", 0]), (1, ["SU2", 0]), q="cgen"), ["SU2", 0]), (["SO3", 2], ["SO3", 0]),
             (reps.red((3, ["O3", 0, 1]), (1, ["O3", 0, -1]), q="rot"), ["O3", 0, -1]),
             (["SL2C", 1, 1], ["SL2C", 1, 0]), (["SU4", [1, 0, 0, 0]], ["SU4", [0, 0, 0, 0]])]
    if not q:
        reps4 += [(reps.red((1, ["Z2", 1]), (4, ["Z2", -1]), q="tri"), ["mul", 2, ["Z2", -1]]), (["SU2", 5], ["SU2", 1]), (["SO3", 3], ["SO3", 1]), (["SO13", 1, 1], ["SO13", 0, 0])]
    fam = {
        3: [[(1, (1, 0, 2)), (1, (0, 2, 1))], [(-1, (1, 0, 2)), (-1, (0, 2, 1))], [(1, (1, 2, 0))], [(-1, (1, 0, 2))], [(1, (0, 2, 1))]],
        4: [[(1, (1, 0, 2, 3)), (1, (1, 2, 3, 0))], [(-1, (1, 0, 2, 3)), (-1, (1, 2, 3, 0))],  # S4
            [(1, (1, 2, 0, 3)), (1, (1, 0, 3, 2))],  # A4
            [(1, (1, 2, 3, 0))], [(-1, (1, 2, 3, 0))],  # C4
            [(1, (1, 2, 3, 0)), (1, (0, 3, 2, 1))], [(-1, (1, 2, 3, 0)), (1, (0, 3, 2, 1))], [(1, (1, 2, 3, 0)), (-1, (0, 3, 2, 1))],  # D4
            [(-1, (1, 0, 2, 3)), (1, (2, 3, 0, 1))], [(-1, (1, 0, 2, 3)), (-1, (0, 1, 3, 2))],
            [(-1, (1, 0, 2, 3)), (-1, (0, 2, 1, 3))], [(1, (1, 0, 2, 3)), (1, (0, 2, 1, 3))]],
        5: [[(1, (1, 0, 2, 3, 4)), (1, (1, 2, 3, 4, 0))], [(-1, (1, 0, 2, 3, 4)), (1, (1, 2, 3, 4, 0))],
            [(1, (1, 2, 3, 4, 0))], [(1, (1, 2, 0, 3, 4)), (1, (1, 2, 3, 4, 0))], [(1, (1, 2, 3, 4, 0)), (-1, (0, 4, 3, 2, 1))]],
    }
    for n, sets in fam.items():
        for gens in sets:
            G = closure(gens, n)
            for s, small in reps4:
                d = reps.dim(s)
                t = np.prod([d ** len(o) if len(o) > 1 else reps.dim(small) for o in orbits(G, n)])
                if t > ((260 if n == 4 else 130) if q else (1100 if n == 5 else 700)):
                    continue
                given = {LETTERS[min(o)]: (s if len(o) > 1 else small) for o in orbits(G, n)}
                wide.append([[list(g) for g in gens], given, n])
    # one and two indices: every set of generators; three: every subgroup, and every pair for some
    for n in (1, 2):
        for k in range(0, 3):
            for gens in itertools.combinations(signed_perms(n), k):
                add(gens, n, closure(gens, n), allnames, 40 if q else 150)
    S3 = subgroups(3, 3)
    for G, gens in S3.items():
        add(gens, 3, G, [x for x in allnames if not q or x not in slow], 30 if q else 350)
    for gens in itertools.combinations(signed_perms(3), 2):
        add(gens, 3, closure(gens, 3), ["SU2"] if q else few, 64)
    S4 = subgroups(4, 2)
    for G, gens in S4.items():
        if (-1, tuple(range(4))) in G and len(G) > 8 and q:
            continue  # the space is {0}
        add(gens, 4, G, ["SU2", "parity"] if q else few + ["O3", "SU(2)", "sum", "mul", "parity", "SL2C"], 16 if q else 260)
    if not q:
        for G, gens in subgroups(5, 1).items():
            add(gens, 5, G, ["SU2", "SU(2)", "Z2"], 32)
    pl = []
    for g, irs in reps.SMALL.items():
        if g in ("SU(4)", "SO13") and q:
            fs = irs[:2]
        else:
            fs = irs + [["mul", 2, irs[0]], reps.red((1, irs[-1]), (2, irs[0]), q="cgen"), reps.red((0, irs[0]), (1, irs[-1])), ["cb", "rot", irs[0]], ["mul", 0, irs[0]]]
        for n in (1, 2, 3, 4):
            for c in itertools.product(fs, repeat=n):
                t = np.prod([(reps.dim(s) or 2) for s in c])
                if n > 2 and ["mul", 0, irs[0]] in [x[1][0] for x in c if x[0] == "red"]:
                    continue  # absent irreps pile up in the products
                if t <= ((12 if n > 2 else 30) if q else (32 if n > 2 else 100)):
                    pl.append(list(c))
    sp = []
    for spec in (["SO3", 1], ["SU2", 1], reps.red((1, ["Z2", 1]), (1, ["Z2", -1]), q="gen")):
        # reordered, repeated, renamed terms; redundant ones; uppercase letters
        for n in (2, 3):
            for gens in itertools.product(signed_perms(n), repeat=2):
                f1 = formula(gens, n)
                inv = [(s, tuple(np.argsort(p).tolist())) for s, p in gens]
                G = closure(gens, n)
                one = "".join(LETTERS[min(o)] for o in orbits(G, n))
                for f2, a2 in [
                    (formula(gens[::-1], n), LETTERS[:n]),
                    (formula(inv, n), LETTERS[:n]),
                    (formula(list(gens) + [mul(*gens)], n), LETTERS[:n]),
                    (formula(gens, n, "zAb"), "zAb"[:n]),
                    (formula(gens, n, "cba"), "cba"[:n]),
                    (f1 + "=" + f1.split("=")[1], one),
                ]:
                    if q and n == 3 and (spec[0] != "SU2" or gens[0] > gens[1]):
                        continue
                    sp.append([f1, f2, LETTERS[:n], a2, spec])
    rej = []
    v, w = ["SO3", 1], ["SO3", 2]
    for f in ["ij=ik", "ij=ijk", "ijk=ij", "ij=ii", "ii=ii", "ij=i", "ij=jj", "ijk=jik=ikl", "i=j", "ii", "-ij=ji", "-ij", "ij=ji=j"]:
        rej.append(["not permutations of each other", f, {c: v for c in sorted(set(f) - set("=-"))}])
    for f in ["ij=ji", "ij=-ji", "ijk=jik", "ijk=jki", "ijkl=jilk", "ij", "ijk"]:
        n = len(f.split("=")[0])
        for c in f[:n]:
            G = {"ij=ji": 1, "ij=-ji": 1}.get(f)
        rej.append(["no representation at all", f, {}])
        rej.append(["superfluous index", f, {**{c: v for c in f[:n]}, "z": v}])
        rej.append(["name of several letters", f, {**{c: v for c in f[:n]}, "ij": v}])
        for c in ("-", "=", "", " ", "I", "1"):
            rej.append(["name that is no index", f, {**{c: v for c in f[:n]}, c: v}])
    for f, pairs in {"ij=ji": ["ij"], "ij=-ji": ["ij"], "ijk=jik": ["ij"], "ijk=jki": ["ij", "jk", "ik"], "ijkl=jilk": ["ij", "kl"],
                     "ijkl=klij": ["ik", "jl"], "ijkl=jkli": ["ij", "ik", "il", "jk", "jl", "kl"], "ijk=ikj=kji": ["ij", "ik", "jk"],
                     "ijkl=lkji": ["il", "jk"]}.items():
        n = len(f.split("=")[0])
        for p in pairs:
            for other in (w, ["mul", 2, v], ["cb", "rot", v], ["SO3", 0]):
                base = {c: v for c in f[:n]}
                base[p[0]] = other
                rej.append(["related indices with different representations", f, base])
                base = {c: v for c in f[:n]}
                base[p[1]] = other
                rej.append(["related indices with different representations", f, base])
            if len(pairs) > 1 or n > 2:
                base = {c: v for c in f[:n] if c not in p}
                group_of = [c for c in f[:n] if c not in p and any(set(pp) == {c, d} for d in p for pp in pairs)]
                if not group_of:
                    rej.append(["no representation for an index", f, base])
    return [
        Space("symmetric", sym, symmetric, "signed subgroups of the permutations of the indices times representations",
              "all subgroups for up to 3 indices, all with two generators for 4 (thorough: one generator for 5)"),
        Space("wide", wide, symmetric, "symmetric, alternating, cyclic and dihedral groups, with and without signs, on representations of dimension at least the number of indices",
              f"3 to {4 if q else 5} indices"),
        Space("plain", pl, plain, "no symmetry: lists and one-term formulas", "up to 4 indices"),
        Space("many indices", many_cases(q), many, "exchanges among 6 to 10 indices of representations of dimension 1 to 3"),
        Space("spelling", sp, spelling, "formulas with the same meaning denote the same tensors"),
        Space("rejected", rej, rejected, "inconsistent formulas and assignments are rejected"),
    ]
