"""The thread scheduler: real threads, parked and released one at a time.

Every caller thread of the code under test runs under ``Scheduler``.  A thread may be
preempted at any source line of gradslam (``sys.settrace`` line events); which thread
runs next is decided by the plan and by nothing else.  ``mode``:

  random    preempt with probability ``p`` at each line, to a random runnable thread
  pct       fixed random priorities with ``d`` priority changes at chosen steps
  hot       preempt with probability ``p``, to another thread, but only at the source
            lines that a hash of function, line and seed selects (one in ``k``) out of
            those around a store to an attribute, a global or an item: the next thread then
            comes through everything up to such a line before the first goes on
  explicit  ``switches``: list of [step, thread] preemptions (what replay files hold)

Locks created by gradslam code (there are none on the pinned tree) are replaced by a
lock that gives the processor away instead of blocking, so a version that adds locking
runs under the same scheduler.
"""
import _thread
import dis
import hashlib
import random
import sys
import threading

from . import env
from .core import HarnessError

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_current = None  # the Scheduler of this process, while one is running


class SimDeadlock(Exception):
    pass


class SimLock(object):
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            s = _current
            if s is None or not s.blocked_here():
                raise SimDeadlock("lock can never be acquired")
            if timeout is not None and timeout >= 0:
                timeout -= 0.001  # one simulated millisecond per turn
                if timeout < 0:
                    return False

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return SimLock(self.reentrant)

    def __reduce__(self):
        raise TypeError("cannot pickle a lock")


def install_lock_seam():
    def factory(real, reentrant):
        def make(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(env.SRC):
                return SimLock(reentrant)
            return real(*a, **k)

        return make

    if getattr(threading, "_dst_seam", False):
        return
    threading._dst_seam = True
    threading.Lock = factory(_real_Lock, False)
    threading.RLock = factory(_real_RLock, True)


_stores = {}


def stores(code):
    """The lines of a function that store to what other threads may see (an attribute, a
    global, an item), and the line after each."""
    got = _stores.get(code)
    if got is None:
        got, line, after = set(), None, False
        for i in dis.get_instructions(code):
            if i.positions is not None and i.positions.lineno is not None and i.positions.lineno != line:
                line = i.positions.lineno
                if after:
                    got.add(line)
                after = False
            if i.opname in ("STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "DELETE_ATTR", "DELETE_SUBSCR"):
                got.add(line)
                after = True
        _stores[code] = got
    return got


class Scheduler(object):
    """Runs `tasks` (callables) to completion, one at a time.  Returns a list of
    ("ok", value) / ("error", exception) in task order."""

    MAX_STEPS = 400000

    def __init__(self, plan, run):
        self.plan = plan
        self.run = run
        self.mode = plan.get("mode", "random")
        self.rng = random.Random(plan.get("seed", 0))
        self.p = plan.get("p", 0.05)
        self.k = max(1, int(plan.get("k", 4)))
        self.hot = {}
        self.explicit = {int(s): int(t) for s, t in plan.get("switches", [])}
        self.steps = 0
        self.taken = []
        self.cur = None

    # -- decisions ---------------------------------------------------------
    def _runnable(self):
        return [i for i in range(self.n) if not self.done[i]]

    def _is_hot(self, frame):
        at = (frame.f_code, frame.f_lineno)
        h = self.hot.get(at)
        if h is None:
            name = "%s/%s/%d" % (self.plan.get("seed", 0), at[0].co_name, at[1] - at[0].co_firstlineno)
            h = self.hot[at] = at[1] in stores(at[0]) and int.from_bytes(hashlib.md5(name.encode()).digest()[:4], "big") % self.k == 0
        return h

    def _decide(self, frame):
        """Which thread runs after this step."""
        me = self.cur
        if self.mode == "explicit":
            t = self.explicit.get(self.steps)
            return t if t is not None and t < self.n and not self.done[t] else me
        if self.mode == "pct":
            if self.steps in self.change:
                self.prio[me] = self.low
                self.low -= 1
            return max(self._runnable(), key=lambda i: self.prio[i])
        if self.mode == "hot":
            others = [i for i in self._runnable() if i != me]
            if others and self._is_hot(frame) and self.rng.random() < self.p:
                return self.rng.choice(others)
            return me
        if self.rng.random() < self.p:
            return self.rng.choice(self._runnable())
        return me

    def _switch(self, to, record=True):
        me = self.cur
        if record and to != me:
            self.taken.append([self.steps, to])
        self.cur = to
        self.gate[to].release()
        self.gate[me].acquire()

    def _point(self, frame):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise SimDeadlock("no progress within %d steps" % self.MAX_STEPS)
        to = self._decide(frame)
        if to != self.cur:
            self._switch(to)

    def blocked_here(self):
        """Called by a thread that cannot go on: lets another one run."""
        me = self.cur
        others = [i for i in self._runnable() if i != me]
        if not others or _thread.get_ident() not in self.idents:
            return False
        self.steps += 1
        self.stalled += 1
        if self.stalled > 5000:
            return False
        to = others[self.stalled % len(others)]
        self._switch(to, record=False)
        return True

    # -- threads -----------------------------------------------------------
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(env.SRC):
            return None
        if event == "line":
            self._point(frame)
        return self._trace

    def _body(self, i, fn):
        self.gate[i].acquire()
        self.idents.add(_thread.get_ident())
        sys.settrace(self._trace)
        try:
            out = ("ok", fn())
        except BaseException as e:
            out = ("error", e)
        finally:
            sys.settrace(None)
        self.steps += 1  # every recorded decision has a step number of its own
        self.results[i] = out
        self.done[i] = True
        self.run.event("thread-end", i, out[0], self.steps)
        rest = self._runnable()
        if rest:
            if self.mode == "explicit":
                t = self.explicit.get(self.steps)
                nxt = t if t in rest else rest[0]
            elif self.mode == "pct":
                nxt = max(rest, key=lambda j: self.prio[j])
            else:
                nxt = self.rng.choice(rest)
            if nxt != rest[0] or self.mode == "explicit":
                self.taken.append([self.steps, nxt])
            self.cur = nxt
            self.gate[nxt].release()
        else:
            self.finished.release()

    def go(self, tasks):
        global _current
        if _current is not None:
            raise HarnessError("nested scheduler")
        self.n = len(tasks)
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.idents = set()
        self.stalled = 0
        self.gate = []
        for _ in range(self.n):
            l = _thread.allocate_lock()
            l.acquire()
            self.gate.append(l)
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        if self.mode == "pct":
            order = list(range(self.n))
            self.rng.shuffle(order)
            self.prio = {i: order.index(i) + 10 for i in range(self.n)}
            self.low = 0
            horizon = max(1, int(self.plan.get("horizon", 300)))
            self.change = set(self.rng.randrange(1, horizon + 1) for _ in range(int(self.plan.get("d", 2))))
            first = max(range(self.n), key=lambda i: self.prio[i])
        elif self.mode == "explicit":
            first = self.explicit.get(0, 0)
            first = first if first < self.n else 0
        else:
            first = self.rng.randrange(self.n)
        if first != 0 or self.mode == "explicit":
            self.taken.append([0, first])
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(tasks)]
        _current = self
        try:
            for t in threads:
                t.start()
            self.cur = first
            self.gate[first].release()
            # wake up now and then so that the per-run alarm can fire in the main thread
            while not self.finished.acquire(True, 0.5):
                pass
            for t in threads:
                t.join()
        finally:
            _current = None
        preempt = sum(1 for s, _ in self.taken if s > 0)
        self.run.count("steps", self.steps)
        self.run.count("preemptions", preempt)
        self.run.schedule = list(self.taken)
        self.run.shape("schedule", self.taken)
        self.run.event("schedule", self.steps, len(self.taken))
        if preempt:
            self.run.nontrivial = True
            self.run.probe("preempted-inside-gradslam")
        return self.results


def draw(rng, nthreads=2):
    """A schedule plan."""
    r = rng.random()
    if r < 0.3:
        return {"mode": "random", "seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.03, 0.1, 0.3, 0.7])}
    if r < 0.5:
        return {"mode": "pct", "seed": rng.randrange(1 << 30), "d": rng.choice([1, 1, 2, 3, 5]),
                "horizon": rng.choice([10, 30, 100, 300, 1000])}
    return {"mode": "hot", "seed": rng.randrange(1 << 30), "p": rng.choice([0.8, 1.0, 1.0, 1.0]), "k": rng.choice([1, 3, 4, 6])}
