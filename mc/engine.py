"""Explorer: exhausts finite spaces of cases on the real code, over forked workers.

A property module defines ``spaces(tier)`` returning a list of Space.  Every case of every space is
executed on the implementation in /repo and compared with the oracle of the property.  Nothing is
sampled: the list of cases is a deterministic function of the tier.
"""
import hashlib
import json
import os
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU = 150  # CPU seconds after which one case counts as not terminating
NPROC = int(os.environ.get("VERIF_NPROC", os.cpu_count() or 4))


class Violation(Exception):
    pass


class HarnessError(Exception):
    """The harness (not the code under test) is wrong or ran out of resources."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    """What one case reports: states, transitions, and the outcome of the comparison."""

    def __init__(self):
        self.states = set()
        self.transitions = 0

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n


class Space:
    def __init__(self, name, cases, run, what, bound=""):
        self.name, self.run, self.what, self.bound = name, run, what, bound
        self.cases = list(cases)


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def _short(s, n=1200):
    s = str(s)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def run_case(space, case):
    """-> (states, transitions, None | message)"""
    ctx = Ctx()

    def on_timer(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    msg = None
    try:
        space.run(ctx, case)
    except Violation as e:
        msg = str(e)
    except CaseTimeout:
        msg = f"no answer within {CASE_CPU} s of CPU time"
    except MemoryError:
        msg = "out of memory: " + _short(traceback.format_exc())
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:])
        )
        msg = f"unexpected {type(e).__name__}: {_short(e, 400)} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return ctx.states, ctx.transitions, msg


class _Worker:
    def __init__(self, spaces, jobs):
        self.r_cmd, self.w_cmd = os.pipe()
        self.r_res, self.w_res = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(self.w_cmd)
                os.close(self.r_res)
                self._loop(spaces, jobs)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(self.r_cmd)
        os.close(self.w_res)
        self.pending = []
        self.buf = b""

    def _loop(self, spaces, jobs):
        import pickle
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        f = os.fdopen(self.r_cmd, "rb")
        out = os.fdopen(self.w_res, "wb")
        for line in f:
            for k in json.loads(line):
                s, c = jobs[k]
                t0 = time.time()
                states, n, msg = run_case(spaces[s], spaces[s].cases[c])
                data = pickle.dumps((k, states, n, msg, time.time() - t0))
                out.write(len(data).to_bytes(4, "big") + data)
                out.flush()

    def send(self, ks):
        self.pending = list(ks)
        os.write(self.w_cmd, (json.dumps(self.pending) + "\n").encode())

    def read(self):
        """-> list of results, or None when the worker is gone"""
        import pickle

        data = os.read(self.r_res, 1 << 20)
        if not data:
            return None
        self.buf += data
        res = []
        while len(self.buf) >= 4:
            n = int.from_bytes(self.buf[:4], "big")
            if len(self.buf) < 4 + n:
                break
            res.append(pickle.loads(self.buf[4 : 4 + n]))
            self.buf = self.buf[4 + n :]
        for r in res:
            self.pending.remove(r[0])
        return res

    def close(self, kill=False):
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for fd in (self.w_cmd, self.r_res):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def explore(spaces, max_violations=3, verbose=False):
    jobs = [(s, c) for s, sp in enumerate(spaces) for c in range(len(sp.cases))]
    # round-robin over the spaces, simplest cases of each first
    pos = {}
    order = []
    for k, (s, c) in enumerate(jobs):
        order.append((c / max(1, len(spaces[s].cases)), s, k))
    queue = [k for _, _, k in sorted(order)]
    queue.reverse()
    total = len(queue)
    nproc = max(1, min(NPROC, total))
    batch = max(1, min(32, total // (nproc * 40)))
    out = {
        "states": set(),
        "transitions": 0,
        "done": 0,
        "violations": [],
        "per_space": {sp.name: 0 for sp in spaces},
        "slow": [],
        "complete": False,
    }
    crashed = {}
    stop = False

    def take():
        ks = []
        while queue and len(ks) < batch:
            ks.append(queue.pop())
        return ks

    workers = [_Worker(spaces, jobs) for _ in range(nproc)] if total else []
    try:
        for w in workers:
            ks = take()
            if ks:
                w.send(ks)
        while any(w.pending for w in workers):
            ready, _, _ = select.select([w.r_res for w in workers if w.pending], [], [], 5)
            for w in list(workers):
                if w.r_res not in ready:
                    continue
                res = w.read()
                if res is None:  # the worker died (memory, crash of the interpreter)
                    dead = list(w.pending)
                    w.close(kill=True)
                    workers.remove(w)
                    if dead:
                        first = dead[0]
                        crashed[first] = crashed.get(first, 0) + 1
                        if crashed[first] >= 2:
                            s, c = jobs[first]
                            out["violations"].append(
                                (s, c, "the interpreter died on this case (twice)")
                            )
                            dead = dead[1:]
                            if len(out["violations"]) >= max_violations:
                                stop = True
                        queue.extend(reversed(dead))
                    nw = _Worker(spaces, jobs)
                    workers.append(nw)
                    ks = [] if stop else take()
                    if ks:
                        nw.send(ks)
                    continue
                for k, states, n, msg, dt in res:
                    s, c = jobs[k]
                    out["states"] |= states
                    out["transitions"] += n
                    out["done"] += 1
                    out["per_space"][spaces[s].name] += 1
                    out["slow"].append((round(dt, 2), spaces[s].name, spaces[s].cases[c]))
                    if msg is not None:
                        out["violations"].append((s, c, msg))
                        if len(out["violations"]) >= max_violations:
                            stop = True
                if len(out["slow"]) > 200:
                    out["slow"] = sorted(out["slow"], key=lambda t: -t[0])[:10]
                if not w.pending and not stop:
                    ks = take()
                    if ks:
                        w.send(ks)
            if stop:
                break
    finally:
        for w in workers:
            w.close(kill=True)
    out["slow"] = sorted(out["slow"], key=lambda t: -t[0])[:10]
    out["complete"] = out["done"] + sum(1 for v in out["violations"] if "died" in v[2]) >= total
    out["total"] = total
    return out
