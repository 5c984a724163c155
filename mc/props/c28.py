"""Interleavings of two calls, under a controlled scheduler that switches threads at lines."""
import functools
import os
import sys
import threading
import time
from collections import Counter

import numpy as np

from .. import engine, ops
from ..engine import Space
from ..ref import expect, fail
from .c23 import forked

ASSUMPTIONS = [
    "threads are switched between executed lines of the library, not inside a line nor inside numpy",
    "of a line executed many times, only the first occurrences are switching points",
    "the arguments of the two calls are different objects",
]
ROOT = os.path.realpath(engine.REPO) + os.sep + "lie_nn" + os.sep


@functools.lru_cache(maxsize=None)
def inside(f):
    return os.path.realpath(f).startswith(ROOT)


TOOL = 4


def key(code, line):
    return (code.co_filename[len(ROOT):], code.co_qualname, code.co_firstlineno, line)


class Monitor:
    """line events of the library, through sys.monitoring: f(thread number or None, key) -> keep watching?"""

    def __init__(self, f):
        self.f, self.m = f, sys.monitoring

    def __enter__(self):
        m = self.m
        m.use_tool_id(TOOL, "interleavings")

        def line(code, n):
            if not inside(code.co_filename):
                return m.DISABLE
            return None if self.f(key(code, n)) else m.DISABLE

        m.register_callback(TOOL, m.events.LINE, line)
        m.set_events(TOOL, m.events.LINE)

    def __exit__(self, *_):
        self.m.set_events(TOOL, 0)
        self.m.free_tool_id(TOOL)


class Scheduler:
    """plan: list of (thread, line, number of its occurrence) before which the thread is suspended"""

    def __init__(self, plan):
        self.plan = list(plan)
        self.watched = {p[1] for p in plan}
        self.count = {}
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.ids = {}
        self.tids = [0, 0]
        self.switches = 0

    def event(self, k):
        if k not in self.watched:
            return False
        t = self.ids.get(threading.get_ident())
        if t is not None:
            n = self.count[t, k] = self.count.get((t, k), 0) + 1
            if self.plan and self.plan[0] == (t, k, n) and not self.done[1 - t]:
                self.plan.pop(0)
                self.switches += 1
                self.switch(t)
        return True

    def idle(self, t):
        """(is the thread asleep, its processor time)"""
        try:
            st = open(f"/proc/self/task/{self.tids[t]}/stat").read()
            f = st[st.rindex(")") + 2 :].split()
            return f[0] == "S", time.clock_gettime(self.clocks[t])
        except (OSError, ValueError, IndexError):
            return False, None

    def switch(self, t):
        self.go[1 - t].release()
        # when the other thread is asleep (waiting for a lock of the library), go on
        last, n = None, 0
        while not self.go[t].acquire(timeout=0.01):
            asleep, now = self.idle(1 - t)
            n = n + 1 if asleep and now == last else 0
            last = now
            if n >= 5:
                break

    def run(self, names):
        calls = [ops.get(n)() for n in names]
        before = [ops.canon(a) for a, _ in calls]
        out = [None, None]
        ready = [threading.Event(), threading.Event()]
        self.clocks = [None, None]

        def body(t):
            self.ids[threading.get_ident()] = t
            self.tids[t] = threading.get_native_id()
            self.clocks[t] = time.pthread_getcpuclockid(threading.get_ident())
            ready[t].set()
            self.go[t].acquire()
            try:
                res = calls[t][1]()
                out[t] = list(res) if isinstance(res, map) else res
            except Exception as e:
                out[t] = e
            finally:
                self.done[t] = True
                self.go[1 - t].release()

        ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in (0, 1)]
        with Monitor(self.event):
            for t in ts:
                t.start()
            for r in ready:
                r.wait()
            self.go[0].release()
            for t in ts:
                t.join(90)
        if not all(self.done):
            return "the two calls do not come to an end"
        for t in (0, 1):
            d = ops.differ(before[t], ops.canon(calls[t][0]), "argument", 0.0)
            if d:
                return f"{names[t]}: its arguments were modified: {d}"
        return [ops.outcome(n, r) for n, r in zip(names, out)]


def alone_(name):
    np.random.seed(0)
    lines = []

    def event(k):
        lines.append(k)
        return True

    call = ops.get(name)()[1]
    with Monitor(event):
        try:
            res = call()
            res = list(res) if isinstance(res, map) else res
        except Exception as e:
            res = e
    return ops.outcome(name, res), lines


_alone = {}


def alone(name):
    if name not in _alone:
        k, v = forked(alone_, name)
        if k != "ok":
            fail(f"{name} alone: {v}")
        _alone[name] = v
    return _alone[name]


def points(name, r):
    """(line, occurrence): the first r occurrences of every line and, for r > 1, the middle and last ones"""
    seen, res = {}, []
    lines = alone(name)[1]
    total = Counter(lines)
    for line in lines:
        n = seen[line] = seen.get(line, 0) + 1
        if n <= r or (r > 1 and n in (total[line], (total[line] + 1) // 2)):
            res.append((line, n))
    return res


def schedule(names, plan):
    np.random.seed(0)
    s = Scheduler(plan)
    out = s.run(names)
    return out, s.switches


def one(ctx, names, plan):
    k, v = forked(schedule, names, plan)
    where = f"{names[0]} || {names[1]}, switching " + " then ".join(f"thread {t} at {l[0]}:{l[3]} (occurrence {n})" for t, l, n in plan)
    if k != "ok":
        fail(f"{where}: {v}")
    out, n = v
    if isinstance(out, str):
        fail(f"{where}: {out}")
    for t in (0, 1):
        d = ops.differ(alone(names[t])[0], out[t])
        expect(d is None, f"{where}: {names[t]}: {d}")
    ctx.step(n + 1)
    ctx.state(names, plan)


def preempt1(ctx, case):
    a, b, r, part, parts = case
    for p in points(a, r)[part::parts]:
        one(ctx, [a, b], [(0, *p)])


def preempt2(ctx, case):
    a, b, r, cap, part, parts = case
    pa, pb = points(a, r)[:cap], points(b, r)[:cap]
    for p in pa[part::parts]:
        for q in pb:
            one(ctx, [a, b], [(0, *p), (1, *q)])


# calls that share code; each call is interleaved with itself, with its variants (the same code with other data)
# and with its neighbour
FAMILIES = [
    ["cg SU21 SU21 SU22", "cg SO31 SO31 SO31", "cg SL2C10 SL2C01 SL2C11", "cg SU2_[1, 0] SU2_[1, 0] SU2_[2, 0]", "cg O31-1 O31-1 O311", "cg SU2Real1 SU2Real1 SU2Real1"],
    ["rep ['SO3', 1]", "rep ['mul', 2, ['SO3', 1]]", "rep ['SU2_', [2, 0]]", "rep ['red', [['SO3', 1], ['mul', 2, ['SO3', 0]]], 'gen']", "rep ['SU2', 2]", "rep ['SL2C', 1, 1]"],
    ["rep ['SU3', [1, 0, 0]]"],
    ["symmetric 2"],
    ["basis ij=-ji {i: [SO3, 1]}"],
    ["direct_sum", "tensor gen", "infer", "is_real", "change_algebra", "is_irreducible", "is_unitary", "make_real", "change_basis gen", "from_generators"],
    ["direct_sum red", "change_basis red", "tensor red", "exp red", "exp O3", "group_product"],
    ["gram_schmidt", "extend_basis", "nullspace", "intersection", "sequential"],
    ["unique", "vmap", "util direct_sum", "block", "infer_algebra", "util kron", "commutator", "regular", "decompose"],
    ["round", "limit_denominator", "ratio"],
    ["structure C"],
    ["cg SU2_[1, 0] SU2_[1, 0] SU2_[2, 0] ~1"],
    ["times ['SU3', [2, 1, 0]]['SU3', [1, 0, 0]]", "times ['SL2C', 1, 1]['SL2C', 2, 0]", "times ['SU2', 2]['SU2', 3]"],
    ["read O3", "read SU3", "iterate SU3", "iterate SL2C", "iterate O3"],
    ["dim SON", "dim SPN", "dim SUN"],
]
MORE = [
    ["conjugate red", "cg SU3[1, 0, 0] SU3[1, 0, 0] SU3[1, 1, 0]", "cg SU2_[2, 0] SU2_[2, 0] SU2_[2, 0]", "cg SO1311 SO1311 SO1320", "generic cg SO31 SO31 SO31"],
    ["rep ['SU3', [1, 0, 0]]", "rep ['SO13', 1, 1]", "rep ['prod', ['SO3', 1], ['Z2', -1]]", "exp red", "trivial SU3", "rep ['Sn', 'standard', 3]"],
    ["symmetric 3", "basis ijk=jik=-ikj {i: [SU2, 1]}", "basis ij=ji {i: [SU2, 2]}", "basis ij {i: [SO3, 1], j: [SO3, 2]}", "basis list", "basis ijk=jki {i: [SU2, 1]}"],
    ["tensor irrep", "tensor red", "power", "group_product", "make_real", "conjugate", "direct_sum red", "reduce", "check triplet"],
]
TWO = ["gram_schmidt", "extend_basis", "nullspace", "unique", "util direct_sum", "vmap", "block", "tensor gen", "round", "direct_sum"]
SLOW = ("symmetric", "basis", "SU3", "SO13", "decompose", "structure", "SU2_", "SL2C", "tensor red")


def spaces(tier):
    q = tier == "quick"
    one_ = []
    for fam in FAMILIES if q else FAMILIES + MORE:
        for k, a in enumerate(fam):
            slow = any(x in a for x in SLOW)
            others = [a] + ops.VARIANTS.get(a, [])
            if q and slow:
                others = others[:3]
            if len(fam) > 1:
                others += [fam[(k + 1) % len(fam)]] if q else [b for b in fam if b != a]
            for m, b in enumerate(others):
                r = (1 if slow and m > 1 else 2) if q else 4
                parts = 8 if slow else 2
                one_ += [[a, b, r, part, parts] for part in range(parts)]
                if not q and b in ops.EXTRA:
                    one_ += [[b, a, r, part, parts] for part in range(parts)]
    two = []
    if q:
        for a in TWO:
            for b in [a] + ops.VARIANTS.get(a, [])[:1]:
                two += [[a, b, 1, 14, part, 4] for part in range(4)]
    else:
        for fam in FAMILIES:
            for a in fam:
                for b in [a] + ops.VARIANTS.get(a, []):
                    cap = 16 if any(x in a for x in SLOW) else 40
                    two += [[a, b, 1, cap, part, 8] for part in range(8)]
    return [
        Space("one preemption", one_, preempt1, "every ordered pair of related calls, every line of the first one",
              "one preemption, first %d, middle and last occurrences of a line" % (2 if q else 4)),
        Space("two preemptions", two, preempt2, "every pair of lines of two calls that share code", "two preemptions, first %d lines" % (14 if q else 40)),
    ]
