"""Deterministic scheduler for real threads, and the interrupt injector.

Threads run one at a time; the holder of the baton may be pre-empted at every
source line and call inside the library (sys.settrace) and wherever it would
block on a (simulated) lock.  Which thread runs next is decided by a seeded
generator, or by an explicit list of switches when a failure is replayed.
"""
import _thread
import random
import sys

from . import env

CURRENT = None


class Deadlock(Exception):
    pass


class Abandon(BaseException):
    """Unwinds the threads left over after a deadlock."""


class Sched:
    """mode: {"kind": "walk", "p": float, "seed": n}
             {"kind": "pct", "points": [step...], "seed": n}
             {"kind": "list", "switches": [[step, tid]...]}"""

    def __init__(self, fns, mode, maxsteps=3_000_000):
        self.fns, self.mode = fns, mode
        self.n = len(fns)
        self.results = [None] * self.n
        self.done = [False] * self.n
        self.locks = [_thread.allocate_lock() for _ in fns]
        for lk in self.locks:
            lk.acquire()
        self.finish = _thread.allocate_lock()
        self.finish.acquire()
        self.ids = {}
        self.cur = None
        self.step = 0
        self.maxsteps = maxsteps
        self.trace = []          # switches made: [step, tid]
        self.nblocked = 0
        self.deadlock = False
        self.rng = random.Random(mode.get("seed", 0))
        if mode["kind"] == "list":
            self.forced = {s: t for s, t in mode["switches"]}
        elif mode["kind"] == "pct":
            self.points = set(mode["points"])
            self.prio = list(range(self.n))
            self.rng.shuffle(self.prio)
        self.sites = set()

    # -- called by threads

    def is_sim_thread(self):
        return _thread.get_ident() in self.ids

    def _runnable(self):
        return [i for i in range(self.n) if not self.done[i]]

    def _next(self, must=False):
        """Thread to run now."""
        k = self.mode["kind"]
        run = self._runnable()
        if k == "list":
            t = self.forced.get(self.step)
            if t is not None and t in run and not (must and t == self.cur):
                return t
            if not must and self.cur in run:
                return self.cur
            oth = [i for i in run if i != self.cur]
            return oth[0] if oth else self.cur
        if k == "walk":
            if not must and self.rng.random() >= self.mode["p"]:
                return self.cur
            oth = [i for i in run if i != self.cur] if must else run
            return self.rng.choice(oth or run)
        # pct: strict priorities, lowered at the change points
        if self.step in self.points or must:
            self.prio[self.cur] = min(self.prio) - 1
        return max(run, key=lambda i: self.prio[i])

    def _switch(self, t):
        me = self.cur
        if t == me:
            return
        self.trace.append([self.step, t])
        self.cur = t
        self.locks[t].release()
        self.locks[me].acquire()
        if self.deadlock:
            raise Abandon()

    def _point(self, frame):
        self.nblocked = 0
        self.step += 1
        if self.step > self.maxsteps:
            self.deadlock = True
            raise Abandon()
        t = self._next()
        if t != self.cur:
            self.sites.add((frame.f_code.co_name, frame.f_lineno))
            self._switch(t)

    def blocked(self):
        """The current thread cannot get a lock."""
        self.nblocked += 1
        self.step += 1
        run = self._runnable()
        if self.nblocked > 3 * len(run) + 3 or len(run) < 2:
            self.deadlock = True
            raise Abandon()
        # everybody gets a turn, so that a free thread is found for certain
        i = run.index(self.cur)
        self._switch(run[(i + 1) % len(run)])

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(env.PKG):
            return None
        self._point(frame)
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self._point(frame)
        return self._local

    def _main(self, i):
        self.locks[i].acquire()
        self.ids[_thread.get_ident()] = i
        try:
            if not self.deadlock:
                sys.settrace(self._tracer)
                try:
                    self.results[i] = self.fns[i]()
                finally:
                    sys.settrace(None)
        except Abandon:
            pass
        except BaseException as e:
            self.results[i] = e
        del self.ids[_thread.get_ident()]
        self.done[i] = True
        self.nblocked = 0
        self.step += 1
        run = self._runnable()
        if not run:
            self.finish.release()
            return
        if self.deadlock:
            t = run[0]
        else:
            t = self._next(must=True)
        self.trace.append([self.step, t])
        self.cur = t
        self.locks[t].release()

    def run(self):
        global CURRENT
        CURRENT = self
        _thread.stack_size(64 << 20)
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._main, (i,))
            if self.mode["kind"] == "list":
                first = self.forced.get(0, 0)
            elif self.mode["kind"] == "walk":
                first = self.rng.randrange(self.n)
            else:
                first = max(range(self.n), key=lambda i: self.prio[i])
            self.trace.append([0, first])
            self.cur = first
            self.locks[first].release()
            self.finish.acquire()
        finally:
            CURRENT = None
        if self.deadlock:
            raise Deadlock(f"no thread can proceed after {self.step} steps")
        return self.results


class Interrupt:
    """Raise `exc` at the k-th traced line of the library (0-based), then
    every `again` lines if given."""

    def __init__(self, k, exc, calls=False):
        self.k, self.exc = k, exc
        self.count = 0
        self.fired = None

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(env.PKG):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            c = self.count
            self.count += 1
            if c == self.k:
                self.fired = (frame.f_code.co_name, frame.f_lineno)
                raise self.exc
        return self._local

    def __enter__(self):
        sys.settrace(self._tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def count_lines(fn):
    """Number of library lines executed by fn()."""
    it = Interrupt(-1, None)
    with it:
        fn()
    return it.count
