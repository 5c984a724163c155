"""Requests without an answer: they raise instead of returning something, and leave no trace."""
import itertools
import re
import resource
import signal

import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import Dense, expect, fail, close
from .c03 import cls

ASSUMPTIONS = [
    "weights are integers, halves, floats, strings or None; parities are 1 or -1",
    "texts that begin with a label and go on with something else are not judged",
    "two groups are different when their structure constants or their numbers of discrete generators differ",
]

N = {"SU2_": 2, "SU3": 3, "SU4": 4}


def isint(x):
    return type(x) is int


def valid(name, args):
    """is it a label?"""
    if name in ("SU2", "SO3"):
        return isint(args[0]) and args[0] >= 0
    if name == "O3":
        return isint(args[0]) and args[0] >= 0
    if name == "SU2Real":
        return isinstance(args[0], (int, float)) and args[0] >= 0 and 2 * args[0] == round(2 * args[0])
    if name in ("SL2C", "SO13"):
        return all(isint(x) and x >= 0 for x in args) and (name == "SL2C" or sum(args) % 2 == 0)
    S = args[0]
    if not isinstance(S, (list, tuple)) or len(S) == 0 or (name in N and len(S) != N[name]):
        return False
    return all(isint(x) for x in S) and all(a >= b for a, b in zip(S, S[1:])) and S[-1] == 0


class Slow(Exception):
    pass


def attempt(f, seconds=60):
    """-> (refused, value); a request that is not answered, or eats all the memory, is neither"""

    def on(*_):
        raise Slow()

    old = signal.signal(signal.SIGVTALRM, on)
    lim = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (min(lim[1], 12 << 30) if lim[1] > 0 else 12 << 30, lim[1]))
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        return False, f()
    except Slow:
        fail(f"no answer within {seconds} s of CPU time")
    except MemoryError:
        fail("runs out of memory")
    except Exception as e:
        return True, e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        resource.setrlimit(resource.RLIMIT_AS, lim)


def label(ctx, case):
    """the matrices of an irrep can be had exactly when the label is one"""
    name, args = case
    c = cls(name)
    a = [tuple(x) if isinstance(x, list) else x for x in args]

    def get():
        r = c(*a)
        return r, r.X, r.H, r.A, r.dim

    no, r = attempt(get)
    want = valid(name, args)
    if want:
        expect(not no, f"{name}{tuple(a)} refused: {r!r}")
        X, d = np.asarray(r[1]), r[4]
        expect(X.shape == (len(r[3]), d, d), f"generators of shape {X.shape}")
    else:
        expect(no, f"{name}{tuple(a)} is no label, but gives {r[:1]}" if not no else "")
        if name not in ("SO3", "O3", "Z2"):
            no, r = attempt(lambda: c(*a))
            expect(no, f"{name}{tuple(a)} is no label, but is accepted as {r}" if not no else "")
    ctx.step()
    ctx.state(case)


def read(name, s):
    """-> label | None (no label) | ... (not judged)"""
    t = s.strip()
    if name in ("SU2", "SO3", "O3"):
        rest = []
        if name == "O3":
            if t[-1:] not in ("e", "o"):
                return None
            rest, t = [1 if t[-1] == "e" else -1], t[:-1]
        try:
            n = int(t)
        except ValueError:
            return None
        if n < 0:
            return None if name == "SU2" else ...
        return [n] + rest if re.fullmatch(r"\d+", t) else ...
    if name == "Z2":
        return {"e": [1], "o": [-1]}.get(t)
    pat = r"\((\d+),(\d+)\)" if name in ("SL2C", "SO13") else r"\((\d+(?:,\d+)*)\)"
    m = re.match(pat, t)
    if m is None:
        return None
    a = [int(x) for x in ",".join(m.groups()).split(",")]
    a = a if name in ("SL2C", "SO13") else [a]
    if not valid(name, a):
        return None
    return a if m.end() == len(t) else None


def texts(ctx, case):
    """all strings that begin with a prefix"""
    name, alphabet, prefix, n = case
    c = cls(name)
    for k in range(n + 1):
        for tail in itertools.product(alphabet, repeat=k):
            s = prefix + "".join(tail)
            want = read(name, s)
            if want is ...:
                continue
            try:
                got = c.from_string(s)
                no = False
            except Exception as e:
                got, no = e, True
            if want is None:
                expect(no, f"{name}: {s!r} is not the text of a label but gives {got}" if not no else "")
            else:
                expect(not no, f"{name}: {s!r} refused: {got!r}")
                expect(got == c(*[tuple(x) if isinstance(x, list) else x for x in want]), f"{name}: {s!r} gives {got}")
                ctx.state(name, s.strip())
            ctx.step()


def sums(ctx, case):
    """texts of sums over an alphabet of tokens"""
    name, tokens, first, n = case
    L = reps.lie()
    c = cls(name)

    def term(t):
        t = t.strip()
        if "x" in t:
            if t.count("x") != 1:
                return None
            m, t = t.split("x")
            if not re.fullmatch(r"\s*\d+\s*", m):
                return None
            m = int(m)
        else:
            m = 1
        r = read(name, t)
        return r if r in (None, ...) else (m, r)

    for k in range(n):
        for tail in itertools.product(tokens, repeat=k):
            s = "".join((first,) + tail)
            want = [term(t) for t in s.split("+")]
            if any(w is ... for w in want) and not any(w is None for w in want):
                continue
            no, got = attempt(lambda: L.ReducedRep.from_string(s, c))
            if any(w is None for w in want):
                expect(no, f"{s!r} is no sum of labels but gives {got}" if not no else "")
            else:
                expect(not no, f"{s!r} refused: {got!r}")
                have = [(m.mul, m.rep) for m in got.irreps]
                want = [(m, c(*[tuple(x) if isinstance(x, list) else x for x in r])) for m, r in want]
                expect(have == want, f"{s!r} gives {got}")
                ctx.state(name, s)
            ctx.step()


def group_of(m):
    return m.A, len(m.H)


def different(a, b):
    (A, h), (B, k) = group_of(a), group_of(b)
    return A.shape != B.shape or h != k or not np.allclose(A, B)


OPS = ["tensor_product", "direct_sum", "infer", "from_irreps", "muls", "cg", "cg3", "triplet"]


def request(L, op, a, b):
    if op == "tensor_product":
        return L.tensor_product(a, b)
    if op == "direct_sum":
        return L.direct_sum(a, b)
    if op == "infer":
        return L.infer_change_of_basis(a, b)
    if op == "from_irreps":
        return L.ReducedRep.from_irreps([a, b])
    if op == "muls":
        return L.ReducedRep.from_irreps([(2, a), (1, b)])
    if op == "cg":
        return L.clebsch_gordan(L.GenericRep.from_rep(a), b, b)
    if op == "cg3":
        return L.clebsch_gordan(L.GenericRep.from_rep(a), a, b)
    if op == "triplet":
        return L.check_representation_triplet(L.GenericRep.from_rep(a), b, b)
    if op == "times":
        return list(a * b)
    if op == "times back":
        return list(b * a)
    if op.startswith("tabulated "):
        return L.clebsch_gordan(*({"a": a, "b": b}[k] for k in op.split()[1]))
    raise KeyError(op)


TABULATED = ["times", "times back"] + [f"tabulated {k}" for k in ("aab", "aba", "baa", "abb", "bab", "bba")]


def mixed(ctx, case):
    """two representations of different groups, each operation: refused; the same operation goes on working"""
    s1, s2, op = case
    L = reps.lie()
    a, b = reps.build(s1), reps.build(s2)
    if not different(Dense.of(a), Dense.of(b)):
        return
    before = [np.array(x) for r in (a, b) for x in (r.A, r.X, r.H)]
    no, got = attempt(lambda: request(L, op, a, b))
    expect(no, f"{op} of {s1} and {s2}, which belong to different groups, gives {got!r}" if not no else "")
    after = [np.array(x) for r in (a, b) for x in (r.A, r.X, r.H)]
    expect(all(np.array_equal(x, y) for x, y in zip(before, after)), "the operands were modified")
    # the same operation on operands of one group still gives its answer
    for r, s in ((a, s1), (b, s2)):
        m = reps.model(s)
        if m.dim > 4 or len(m.A) > 6:  # structure constants of large groups are slow
            continue
        if op == "tensor_product":
            ref.same_rep(L.tensor_product(r, r), m.tensor(m), f"{s} x {s} after the refusal")
        elif op == "from_irreps":
            ref.same_rep(L.ReducedRep.from_irreps([r, r]), Dense.sum(m, m), f"{s} + {s} after the refusal")
        elif op == "infer":
            n = len(L.infer_change_of_basis(r, r))
            expect(n == ref.commutant_dim(m, m), f"{n} intertwiners after the refusal")
        ctx.step()
    ctx.step()
    ctx.state(case)


def exponents(ctx, case):
    s, n = case
    L = reps.lie()
    r = reps.build(s)
    no, got = attempt(lambda: L.tensor_power(r, n))
    expect(no, f"power {n} of {s} gives {got!r}" if not no else "")
    ctx.step()
    ctx.state(case)


def terms(ctx, case):
    """sums of multiples: multiplicities are natural numbers, the change of basis has the size of the sum"""
    ts, shape, way = case
    L = reps.lie()
    rs = [(k, reps.build(s)) for k, s in ts]
    dim = sum(k * reps.model(s).dim for k, s in ts)
    Q = None
    if shape is not None:
        Q = np.asarray(np.random.RandomState(0).randn(*[dim + x for x in shape]))
    want = all(k >= 0 for k, _ in ts) and (Q is None or Q.shape == (dim, dim))
    before = None if Q is None else Q.copy()
    no, got = attempt(lambda: L.ReducedRep.from_irreps([L.MulIrrep(k, r) if way == "mul" else (k, r) for k, r in rs], Q))
    if want:
        expect(not no, f"{case} refused: {got!r}")
        expect(got.dim == dim, f"dimension {got.dim} instead of {dim}")
    else:
        expect(no, f"a sum with multiplicities {[k for k, _ in ts]} and a change of basis of shape {None if Q is None else Q.shape} is accepted" if not no else "")
    expect(Q is None or np.array_equal(Q, before), "the change of basis was modified")
    ctx.step()
    ctx.state(case)


def parameters(ctx, case):
    """group elements asked for with k continuous and l discrete parameters, k and l around the right numbers"""
    s, jax = case
    L = reps.lie()
    r, m = reps.build(s), reps.model(s)
    n, h = len(m.X), len(m.H)
    if jax:
        import jax.numpy as jnp
        from lie_nn._src.jax_utils import exp_map
    for k in range(max(0, n - 2), n + 3):
        for l in range(max(0, h - 2), h + 3):
            v, t = 0.3 * ref.params(k, 1) if k else np.zeros(0), np.ones(l, dtype=int)
            no, got = attempt(lambda: np.asarray(exp_map(r, jnp.asarray(v), jnp.asarray(t)) if jax else r.exp_map(v, t)))
            what = f"{'JAX ' if jax else ''}exp_map of {s} (of {n} continuous and {h} discrete generators) with {k} and {l} parameters"
            if (k, l) == (n, h):
                expect(not no, f"{what} is refused: {got!r}")
                close(got, m.exp(v, t), what, 2e-4 if jax else 1e-7)
            else:
                expect(no, f"{what} gives {got!r}" if not no else "")
            ctx.step()
    ctx.state(case)


def classical(ctx, case):
    """labels of SO(N) and Sp(N) have a dimension, but no matrices, products nor coefficients"""
    name, S, T = case
    L = reps.lie()
    c = cls(name)
    a, b = c(tuple(S)), c(tuple(T))
    g = L.irreps.SU2(j=1)
    asked = {
        "product": lambda: a * b,
        "coefficients": lambda: L.clebsch_gordan(a, b, a),
        "coefficients of the class": lambda: c.clebsch_gordan(a, b, a),
        "generators": lambda: a.X,
        "algebra": lambda: a.A,
        "trivial": lambda: a.create_trivial(),
        "iterator": lambda: next(iter(c.iterator())),
        "tensor product": lambda: L.tensor_product(a, b),
        "sum": lambda: L.direct_sum(a, b),
        "sum of irreps": lambda: L.ReducedRep.from_irreps([a, b]),
        "multiple": lambda: L.MulIrrep(2, a).X,
        "power": lambda: L.tensor_power(a, 2),
        "element": lambda: a.exp_map(np.zeros(3), np.zeros(0, dtype=int)),
        "product with another": lambda: L.tensor_product(a, g),
        "intertwiners": lambda: L.infer_change_of_basis(a, b),
        "conjugate": lambda: L.conjugate(a),
        "dense": lambda: L.GenericRep.from_rep(a),
        "irreducibility": lambda: L.is_irreducible(a),
        "group product": lambda: L.group_product(a, b).X,
        "basis": lambda: L.reduced_tensor_product_basis([a, b]),
    }
    for k, f in asked.items():
        no, got = attempt(f)
        expect(no, f"{k} of {a} and {b} gives {got!r}" if not no else "")
        ctx.step()
    ctx.state(case)


def positions(ctx, case):
    """patterns of a position: there are exactly as many as the dimension"""
    from lie_nn._src.irreps import sun

    f, fro = getattr(sun, "index_to_M", None), getattr(sun, "M_to_index", None)
    if f is None or fro is None:
        return
    S = tuple(case)
    d = ref.su_dim(list(S))
    for i in range(-d - 3, d + 4):
        no, got = attempt(lambda: f(S, i))
        if 0 <= i < d:
            expect(not no, f"pattern {i} of {S} is refused: {got!r}")
            expect(fro(got) == i, f"pattern {i} of {S} is number {fro(got)}")
        else:
            expect(no, f"pattern {i} of {S}, which has {d} of them, gives {got}" if not no else "")
        ctx.step()
    ctx.state(S)


def spaces(tier):
    q = tier == "quick"
    lab = []
    ints = list(range(-3, 5)) + [0.5, 1.5, -0.5, "1", None]
    for c in ("SU2", "SO3"):
        lab += [[c, [j]] for j in ints + [-10, 1.0, 2.0, 2.5]]
    lab += [["SU2Real", [j]] for j in [-2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 0.25, 0.75, 1.25, 1.0, 2.1, 0.01, "1", None]]
    lab += [["O3", [j, p]] for j in ints for p in (1, -1)]
    for c in ("SL2C", "SO13"):
        v = ints if c == "SL2C" else [x for x in ints if x not in (4,)]
        lab += [[c, [a, b]] for a in v for b in v if not (c == "SO13" and valid(c, [a, b]) and (a + 1) * (b + 1) >= 16)]
    tops = {2: range(-2, 4), 3: range(-1, 4), 4: range(-1, 3)}
    for n, v in tops.items():
        for S in itertools.product(v, repeat=n):
            if valid("SUN", [list(S)]) and ref.su_dim(list(S)) > 20:
                continue
            for c in ("SUN", {2: "SU2_", 3: "SU3", 4: "SU4"}[n]):
                lab.append([c, [list(S)]])
    for c, n in N.items():
        lab += [[c, [list(S)]] for k in range(0, 6) if k != n for S in ([0] * k, [1] + [0] * (k - 1), [2, 1] + [0] * (k - 2)) if len(S) == k]
        lab += [[c, [x]] for x in (1, "(1,0)", None)]
    lab += [["SUN", [[]]], ["SUN", [1]], ["SUN", ["(1,0)"]], ["SUN", [None]]]

    txt = []
    n = 4 if q else 5
    for c in ("SU2", "SO3", "O3", "Z2"):
        alph = "012- eox+."
        txt += [[c, alph, p, n - 1] for p in alph]
    for c in ("SL2C", "SO13", "SUN", "SU2_", "SU3", "SU4"):
        alph = "01(), -"
        txt += [[c, alph, p + r, n] for p in ("(", "(1", "(0", "(1,", "(1,0", "(2,1,", "(1,1,1", "", "1", " (1,0") for r in alph]
    sm = []
    for c, labs in (("SU2", ["1", "12"]), ("O3", ["1e", "0o"]), ("SL2C", ["(1,0)", "(0,1"]), ("SU3", ["(1,0,0)", "(1,0)"]), ("Z2", ["o", "e"])):
        tokens = labs + ["+", "x", "2", " ", "-"]
        sm += [[c, tokens, t, 4 if q else 5] for t in tokens]
    fam = {g: v[1 : 3 if q else 4] for g, v in reps.families().items()}
    fam["SU(2)"] = [["SU2_", [1, 0]], ["SU2_", [2, 0]]]
    fam["SU(5)"] = [["SUN", [1, 0, 0, 0, 0]]]
    mix = []
    for g, v in fam.items():
        for h, w in fam.items():
            if g == h:
                continue
            for a, b in itertools.product(v[:1] if q else v, w[:1] if q else w):
                for op in OPS:
                    mix.append([a, b, op])
                if q and (max(reps.dim(a), reps.dim(b)) > 3 or len(reps.model(a).A) + len(reps.model(b).A) > 11):
                    continue
                for f, f2 in (("mul", "mul"), ("red", "red"), ("gen", "gen"), ("mul", "gen"), ("red", "mul"), ("gen", "red"), ("cb", "cb")):
                    x, y = ([{"mul": ["mul", 2, s], "red": ["red", [s], None], "gen": ["gen", s], "cb": ["cb", "gen", s]}[k] for k, s in ((f, a), (f2, b))])
                    for op in OPS[:4]:
                        if op == "infer" and reps.dim(x) * reps.dim(y) > 64:
                            continue
                        mix.append([x, y, op])
    # same structure constants, another number of discrete generators; same size, other constants
    close_by = [
        ["SO3", 1], ["O3", 1, 1], ["prod", ["SO3", 1], ["Z2", 1]], ["prod", ["O3", 1, 1], ["Z2", 1]], ["SU2", 2], ["SU2Real", 1.0], ["SU2_", [2, 0]],
        ["Z2", -1], ["Sn", "natural", 3], ["Sn", "natural", 2], ["cyc", 3, 1], ["dih", 5, 1], ["SL2C", 1, 1], ["SO13", 1, 1], ["prod", ["SU2", 1], ["SU2", 1]],
        ["u1", [0]], ["u1", [1, -1]], ["prod", ["u1", [1]], ["u1", [2]]], ["prod", ["prod", ["u1", [1]], ["u1", [0]]], ["u1", [1, -1]]],
    ]
    mix += [[f(a), f(b), op] for a, b in itertools.product(close_by, repeat=2) for op in OPS[:6]
            for f in ((lambda s: s), (lambda s: ["gen", s]), (lambda s: ["mul", 2, s])) if not (op == "infer" and f(a)[0] == "mul")]
    # labels of one family, and of different ones
    tab = [s for v in fam.values() for s in v[:1] if s[0] in reps.LEAVES] + [["SUN", [1] + [0] * (n - 1)] for n in (2, 3, 4, 6)] + [["SUN", [2, 1, 0]], ["SUN", [0]], ["SUN", [0, 0]], ["SUN", [0, 0, 0]], ["SU2_", [2, 0]], ["SU4", [0, 0, 0, 0]]]
    mix += [[a, b, op] for a, b in itertools.product(tab, repeat=2) for op in TABULATED if reps.dim(a) * reps.dim(b) * max(reps.dim(a), reps.dim(b)) < 200]
    seen, uniq = set(), []
    for m in mix:
        if repr(m) not in seen:
            seen.add(repr(m))
            uniq.append(m)
    ex = [[s, n] for s in (["SU2", 0], ["SU2", 1], ["Z2", -1], ["gen", ["SO3", 0]], ["mul", 1, ["O3", 0, -1]], ["red", [["SU2", 0]], None], ["cyc", 3, 1], ["SU3", [0, 0, 0]])
          for n in (-1, -2, -3, -8, 0.5, 1.5, "2", None)]
    tm = []
    pal = [["SU2", 1], ["SO3", 1], ["O3", 0, -1], ["gen", ["SO3", 1]], ["SU3", [1, 0, 0]]]
    for n in (1, 2) if q else (1, 2, 3):
        for ks in itertools.product(range(-2, 4), repeat=n):
            for s in pal:
                for way in ("tuple", "mul"):
                    tm.append([[[k, s] for k in ks], None, way])
                    if all(k >= 0 for k in ks):
                        for shape in itertools.product((-1, 0, 1), repeat=2):
                            if sum(ks) > 0:
                                tm.append([[[k, s] for k in ks], list(shape), way])
                        tm += [[[[k, s] for k in ks], x, way] for x in ([0], [0, 0, 0], [], [1, 0, 0])]
    par = [f(s) for v in reps.families().values() for s in v[: 2 if q else 4] if len(reps.model(s).X) <= 8 and reps.dim(s) <= 9
           for f in ((lambda s: s), (lambda s: ["gen", s]), (lambda s: ["mul", 2, s]), (lambda s: ["red", [s, s], "rot"]))]
    par += [["Sn", "natural", n] for n in (2, 3, 4)] + [["cyc", 4, 1], ["dih", 5, 1], ["u1", [1, -1]], ["prod", ["O3", 1, -1], ["Z2", -1]], ["prod", ["O3", 1, -1], ["O3", 0, -1]]]
    cl = [[c, list(S), list(T)] for c in ("SON", "SPN") for n in ((2, 3) if q else (2, 3, 4)) for S in itertools.product(range(2), repeat=n) for T in itertools.product(range(2), repeat=n)]
    pos = [list(S) for n in range(1, 5 if q else 6) for S in itertools.product(range(4), repeat=n) if all(a >= b for a, b in zip(S, S[1:])) and ref.su_dim(list(S)) <= (64 if q else 200)]
    return [
        Space("parameters", [[s, j] for s in par for j in ((False, True) if reps.dim(s) <= 4 else (False,))], parameters, "numbers of continuous and discrete parameters from two less to two more than there are generators"),
        Space("classical", cl, classical, "every request for matrices or products on labels of SO(N) and Sp(N)"),
        Space("positions", pos, positions, "all positions around those of the patterns of a weight"),
        Space("labels", lab, label, "weights, valid or not, for every group: the irrep exists exactly for labels"),
        Space("texts", txt, texts, "all strings over an alphabet: the labels are read, everything else is refused", f"length {n} beyond the prefix"),
        Space("sums_text", sm, sums, "all sequences of tokens as sums", f"{4 if q else 5} tokens"),
        Space("mixed", uniq, mixed, "every operation on representations of every two different groups, in every form"),
        Space("exponents", ex, exponents, "powers with exponents that are no natural number"),
        Space("terms", tm, terms, "sums of up to 2 multiples (thorough: 3), multiplicities from -2 to 3, changes of basis of every shape around the right one"),
    ]
