"""Labels: enumeration, order, parsing, trivial."""
import itertools

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import expect, close

ASSUMPTIONS = ["labels with non-negative entries, as their constructors document"]

CLASSES = ["SU2", "SU2Real", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU3", "SU4", "Z2"]


def cls(name):
    L = reps.lie()
    name = name.split(":")[0]
    if name == "SUN":
        from lie_nn._src.irreps.sun import SUN as c
    elif name == "SON":
        from lie_nn._src.irreps.son import SON as c
    elif name == "SPN":
        from lie_nn._src.irreps.spn import SPN as c
    else:
        c = getattr(L.irreps, name)
    return c


def box(name, n):
    """labels, as constructor arguments"""
    if name in ("SU2", "SO3"):
        return [[j] for j in range(n)]
    if name == "SU2Real":
        return [[j / 2] for j in range(n)]
    if name == "O3":
        return [[l, p] for l in range(n) for p in (1, -1)]
    if name == "SL2C":
        return [[l, k] for l in range(n) for k in range(n)]
    if name == "SO13":
        return [[l, k] for l in range(n) for k in range(n) if (l + k) % 2 == 0]
    if name == "Z2":
        return [[1], [-1]]
    if ":" in name:  # generic classes with tuples of a given length
        N = int(name.split(":")[1])
        if name.startswith("SUN"):
            return [[S] for S in reps.sun(N, n - 1)]
        return [[list(S)] for S in itertools.product(range(n), repeat=N)]
    N = {"SU2_": 2, "SU3": 3, "SU4": 4}[name]
    return [[S] for S in reps.sun(N, n - 1)]


def make(name, args):
    return cls(name)(*reps.T(args))


def enum(ctx, case):
    name, K = case
    c = cls(name)
    items = list(itertools.islice(c.iterator(), K))
    again = list(itertools.islice(c.iterator(), K))
    expect(items == again, "two enumerations differ")
    expect(len(items) == (2 if name == "Z2" else K), f"{len(items)} labels")
    expect(items[0].is_trivial(), f"the first label {items[0]} is not trivial")
    for i in items:
        expect(type(i) is c, f"{type(i)} in the enumeration of {name}")
    for i, (a, b) in enumerate(zip(items, items[1:])):
        expect(bool(a < b) and not (b < a), f"{a} < {b} fails in the enumeration")
        ctx.step()
    expect(len(set(items)) == len(items), "a label is enumerated twice")
    last = items[-1]
    have = set(items)
    for args in box(name, 9 if name != "SU4" else 6):
        b = make(name, args)
        if b < last or b == last:
            expect(b in have, f"{b} is never enumerated before {last}")
        ctx.step()
        ctx.state(name, args)
    for t in (c.create_trivial(), items[-1].create_trivial(), items[K // 2 % len(items)].create_trivial()):
        expect(type(t) is c and t == items[0], f"trivial representation {t}")
        expect(t.dim == 1 and t.is_trivial(), f"{t} is not trivial")
        ctx.step()


def family(c):
    """SU(2), SU(3) and SU(4) have labels in common with SU(N)"""
    return "SUN" if c.split(":")[0] in ("SUN", "SU2_", "SU3", "SU4") else c.split(":")[0]


def strangers(ctx, case):
    """a label is different from the labels of the other groups, and from what is no label"""
    name, args = case
    a = make(name, args)
    others = [None, 0, 1, 1.5, "x", str(a), (), (1, 0), [1, 0], True, object(), type(a), range(3)]
    others += [b for c in CLASSES for b in (make(c, x) for x in box(c, 3)[:6]) if family(c) != family(name)]
    for b in others:
        for x, y in ((a, b), (b, a)):
            try:
                got = (x == y, x != y, x in [y], [y, x].index(x))
            except Exception as e:
                raise AssertionError(f"comparing {x!r} with {y!r} raises {type(e).__name__}: {e}")
            expect(got == (False, True, False, 1), f"{x!r} and {y!r} are taken for equal: {got}")
        ctx.step(2)
    ctx.state(name, args)


def order(ctx, case):
    """all pairs and triples that start with the given label"""
    name, n, args = case
    a = make(name, args)
    B = [make(name, x) for x in box(name, n)]
    lt = {}
    for b in B:
        lab = bool(a < b), bool(b < a), bool(a == b)
        expect(sum(lab) == 1, f"({a} < {b}, >, ==) = {lab}")
        expect(bool(a != b) == (not lab[2]), f"{a} != {b}")
        expect(bool(a > b) == lab[1], f"{a} > {b}")
        if lab[2]:
            expect(hash(a) == hash(b), f"hashes of {a} and {b}")
            expect(repr(a) == repr(b), "equal labels with different texts")
        else:
            expect(repr(a) != repr(b), "different labels with the same text")
        ctx.step(3)
        ctx.state(name, args, repr(b))
        lt[b] = lab[0]
    for b in B:
        for c in B:
            if lt[b] and b < c:
                expect(lt[c], f"{a} < {b} < {c} but not {a} < {c}")
            ctx.step()
    for perm in (B, B[::-1]):
        s = sorted(perm)
        expect(all(x < y for x, y in zip(s, s[1:])), "sorting does not order the labels")


def text_of(name, args):
    if name in ("SU2", "SO3"):
        return str(args[0])
    if name in ("O3",):
        return f"{args[0]}{'e' if args[1] == 1 else 'o'}"
    if name == "Z2":
        return "e" if args[0] == 1 else "o"
    if name in ("SL2C", "SO13"):
        return f"({args[0]},{args[1]})"
    return "(" + ",".join(map(str, args[0])) + ")"


def parse_label(ctx, case):
    name, args = case
    c = cls(name)
    want = make(name, args)
    t = text_of(name, args)
    for s in (t, " " + t, t + " ", "  " + t + "  "):
        got = c.from_string(s)
        expect(type(got) is c and got == want, f"{s!r} gives {got}, not {want}")
        ctx.step()
    M = reps.lie().MulIrrep
    for mul in (0, 1, 2, 3, 10, 12, 100):
        for s in (f"{mul}x{t}", f" {mul}x{t} ", f"{mul} x {t}"):
            got = M.from_string(s, c)
            expect(got.mul == mul and got.rep == want and type(got.rep) is c, f"{s!r} gives {got}")
            ctx.step()
    got = M.from_string(t, c)
    expect(got.mul == 1 and got.rep == want, f"{t!r} gives {got}")
    ctx.state(name, args)


def parse_sum(ctx, case):
    name, terms, sep = case  # terms: [[mul | None, args]]
    c = cls(name)
    s = sep.join((f"{m}x" if m is not None else "") + text_of(name, a) for m, a in terms)
    R = reps.lie().ReducedRep
    got = R.from_string(s, c)
    want = [(1 if m is None else m, make(name, a)) for m, a in terms]
    expect(
        [(i.mul, i.rep) for i in got.irreps] == want, f"{s!r} gives {got.irreps}"
    )
    d = sum(m * i.dim for m, i in want)
    expect(got.dim == d, f"{s!r} has dimension {got.dim} instead of {d}")
    expect(got.Q is None, f"{s!r} has a change of basis")
    close(got.A, want[0][1].A, f"algebra of {s!r}")
    ctx.step(4)
    if len(terms) <= 2:
        Q = ref.basis("gen", d) if d else np.zeros((0, 0))
        g2 = R.from_string(s, c, Q)
        expect(g2.Q is not None and np.array_equal(g2.Q, Q), "the change of basis is kept")
        ctx.step()
    ctx.state(name, s)


def spaces(tier):
    q = tier == "quick"
    K = 60 if q else 300
    n = {"SU2": 16, "SO3": 16, "SU2Real": 16, "O3": 8, "SL2C": 5, "SO13": 5, "SU2_": 16, "SU3": 5, "SU4": 4, "Z2": 2}
    if not q:
        n = {k: v + 2 for k, v in n.items()}
    generic = {"SUN:2": 9, "SUN:3": 6, "SUN:4": 5, "SUN:5": 4, "SUN:6": 3, "SUN:7": 3, "SON:2": 6, "SON:3": 4, "SON:4": 3, "SPN:1": 9, "SPN:2": 6, "SPN:3": 4, "SPN:4": 3, "SON:6": 2, "SPN:6": 2}
    if not q:
        generic = {k: v + 1 for k, v in generic.items()}
    n.update(generic)
    orders = [[c, n[c], a] for c in CLASSES + list(generic) for a in box(c, n[c])]
    textual = [c for c in CLASSES if c != "SU2Real"]
    lab = [[c, a] for c in textual for a in box(c, 13 if c in ("SU2", "SO3", "O3", "SU2_") else 4 if c != "SU4" else 3)]
    lab += [["SL2C", [10, 3]], ["SL2C", [3, 11]], ["SO13", [12, 10]], ["SU3", [[12, 10, 0]]], ["SU4", [[13, 12, 1, 0]]]]
    for c in ("SON", "SPN"):
        lab += [[c, [list(s)]] for r in (2, 3, 4) for s in itertools.product((0, 1, 12), repeat=r)]
    # labels of several digits
    big = [9, 10, 19, 90, 99, 100, 101, 109, 110, 120, 200, 999, 1000, 1001, 1234, 2000, 9999, 10000, 12345]
    lab += [[c, [j]] for c in ("SU2", "SO3") for j in big] + [["O3", [j, p]] for j in big for p in (1, -1)]
    lab += [[c, [a, b]] for c in ("SL2C", "SO13") for a in big + [0, 1] for b in big + [0, 1] if c == "SL2C" or (a + b) % 2 == 0]
    lab += [["SU2_", [[a, 0]]] for a in big] + [["SU3", [[a, b, 0]]] for a in big for b in big + [0, 1] if a >= b]
    lab += [["SU4", [[a, b, c, 0]]] for a in big for b in big[3::4] + [0, 1] for c in (0, 1, 10, 100) if a >= b >= c]
    lab += [["SUN", [S]] for S in ([0, 0], [2, 1, 0], [3, 2, 1, 1, 0], [11, 2, 1, 1, 0, 0])]
    sums = []
    for c in textual:
        b = box(c, 3)[:3]
        terms = [[m, a] for m in (None, 0, 2, 11) for a in b]
        sums += [[c, [t], "+"] for t in terms]
        sums += [[c, [t, u], sep] for t in terms for u in terms for sep in ("+", " + ")]
        t3 = [[m, a] for m in (None, 2) for a in b[:2]]
        sums += [[c, list(x), " + "] for x in itertools.product(t3, repeat=3)]
        if not q:
            sums += [[c, list(x), "+"] for x in itertools.product(t3, repeat=4)]
    return [
        Space("enumeration", [[c, K] for c in CLASSES], enum,
              "prefix of the enumeration of every group", f"{K} labels"),
        Space("order", orders, order, "all pairs and triples of labels of a box", n),
        Space("strangers", [[c, a] for c in CLASSES + list(generic) for a in box(c, min(n[c], 3))[:8]], strangers, "labels against labels of the other groups and things that are no label"),
        Space("labels_text", lab, parse_label, "text of every label, with multiplicities and spaces"),
        Space("sums_text", sums, parse_sum, "all sums of one, two and three terms over an alphabet"),
    ]
