"""Programs made of the operations on representations, against dense matrices."""
import numpy as np

from .. import ref, reps
from ..engine import Space
from ..ref import close, expect, same_rep

ASSUMPTIONS = [
    "operations whose result has no table (products of half-integer irreps of the real form of SU(2)) are left out",
]


def has_half(spec):
    return "SU2Real" in repr(spec) and ".5" in repr(spec)


def program(ctx, case):
    s = case
    rep, m = reps.build(s), reps.model(s)
    same_rep(rep, m, repr(s), 1e-6)
    t = rep.create_trivial()
    same_rep(t, m.trivial(), "trivial representation", 1e-7)
    ctx.step(2)
    if m.dim <= 12:
        v = 0.7 * ref.params(len(m.X), 1)
        for ints in [(0,) * len(m.H), (1,) * len(m.H), tuple(range(2, 2 + len(m.H)))][: 1 + 2 * (len(m.H) > 0)]:
            close(rep.exp_map(v, np.array(ints, dtype=int)), m.exp(v, ints), f"group element {ints}", 1e-6)
            ctx.step()
    ctx.state(s)


UNARY = [
    lambda s: ["gen", s],
    lambda s: ["conj", s],
    lambda s: ["cb", "gen", s],
    lambda s: ["cb", "cgen", s],
    lambda s: ["mul", 2, s],
    lambda s: ["red", [s, s], None],
    lambda s: ["pow", 2, s],
]


def binary(s, t):
    return [["sum", s, t], ["tp", s, t], ["red", [["mul", 2, s], t], "rot"]]


def key(s):
    return repr(s)


def grow(leaves, depth, cap, slow):
    levels = [list(leaves)]
    for n in range(depth):
        new = []
        for s in levels[-1]:
            for f in UNARY:
                new.append(f(s))
            for t in leaves:
                new += binary(s, t)
                if key(s) != key(t):
                    new += binary(t, s)
        ok = []
        for s in new:
            try:
                d = reps.dim(s)
            except AssertionError:
                continue
            if 0 < d <= cap:
                ok.append(s)
        levels.append(ok)
    out, seen = [], set()
    for lv in levels:
        for s in lv:
            if key(s) not in seen:
                seen.add(key(s))
                out.append(s)
    return out


LEAVES = {
    "SU2": [["SU2", 1], ["SU2", 2]],
    "SO3": [["SO3", 1], ["SO3", 0]],
    "O3": [["O3", 1, -1], ["O3", 0, -1]],
    "SU2Real": [["SU2Real", 1], ["SU2Real", 0]],
    "SL2C": [["SL2C", 1, 0], ["SL2C", 0, 1]],
    "SO13": [["SO13", 1, 1]],
    "SU(2)": [["SU2_", [1, 0]]],
    "SU(3)": [["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]]],
    "Z2": [["Z2", -1], ["Z2", 1]],
    "S3": [["Sn", "standard", 3], ["Sn", "natural", 3]],
    "Q8": [["pauli"]],
    "O2": [["o2", 1], ["o2", 2]],
    "U1": [["u1", [1, -2]], ["so2", 1]],
    "SO3 signs": [["red", [["SO3", 0], ["SO3", 0]], "sign"], ["red", [["SO3", 1]], "phase"]],
    "Z2 signs": [["red", [["Z2", -1], ["Z2", 1]], "sign"], ["red", [["Z2", 1]], "scale"]],
    "O3 signs": [["red", [["O3", 0, -1], ["O3", 0, 1]], "swap"], ["red", [["O3", 1, -1]], "sign"]],
    "Z2 cond": [["red", [["Z2", -1], ["Z2", 1]], "cond8"], ["red", [["Z2", 1]], "phase"]],
    "SU2 cond": [["red", [["SU2", 1]], "ccond8"], ["red", [["SU2", 0], ["SU2", 0]], "cond8"]],
    "SU2 odd bases": [["red", [["SU2", 0], ["SU2", 1]], "shear"], ["red", [["SU2", 1]], "corth"]],
    "SU2xZ2": [["prod", ["SU2", 1], ["Z2", -1]], ["prod", ["SU2", 0], ["Z2", -1]]],
}
DEEP = ["SO3", "O3", "Z2", "SU2xZ2", "SU2", "S3"]
SLOW = ("SO13", "SU(3)", "SL2C")


def spaces(tier):
    q = tier == "quick"
    out = []
    for g, leaves in LEAVES.items():
        slow = g in SLOW
        depth = 2
        cap = 16 if slow else 30
        if g in DEEP or not q:
            depth = 3
            cap = 8 if q else 20
            if not q and slow:
                cap = 12
        progs = grow(leaves, depth, cap, slow)
        if depth == 3 and q:
            progs = grow(leaves, 2, 30, slow) + [s for s in progs if s not in []]
            seen = set()
            progs = [s for s in progs if not (key(s) in seen or seen.add(key(s)))]
        out.append(Space(g, progs, program, f"all expressions over {len(leaves)} leaves, {len(UNARY)} unary and 3 binary operations",
                         f"depth {depth}, dimension <= {cap}"))
    return out
