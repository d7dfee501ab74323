"""Deterministic simulator: one running task at a time, every choice recorded.

A *task* is either a simulated worker process (isolated memory: it runs on deep
copies of what it was given), or a caller thread (shared memory).  Each task is
backed by a real thread that is parked on its own lock; exactly one thread holds
the baton, and who gets it next is decided by a `Policy` (a seeded PRNG or a
recorded decision list), never by the OS.

Tasks hand over control only at *crossings*: calls that leave the program's own
arithmetic (start/join of a process, a manager RPC, a numerical library call, a
write to stdout, ...), plus - for caller threads, when asked for - after a chosen
number of executed source lines.  A crossing is addressed as
(task, site, nth) so a fault can be pinned to it independently of the schedule.
"""
import _thread
import random
import sys
import threading
import zlib

import numpy as np
from . import modstate


class HarnessError(BaseException):
    """The simulator itself is unable to go on (never a verdict)."""


class SimKill(BaseException):
    """The task was killed (SIGKILL): it has no further effects."""


class StepLimit(BaseException):
    """The run used up its step budget (bounded-liveness verdict)."""


class Deadlock(BaseException):
    """Nothing can run and nothing will ever wake up."""


class Fault:
    __slots__ = ("task", "site", "nth", "kind", "arg")

    def __init__(self, task, site, nth, kind, arg=0.0):
        self.task, self.site, self.nth, self.kind, self.arg = task, site, nth, kind, arg

    def key(self):
        return (self.task, self.site, self.nth)

    def to_json(self):
        return {"task": self.task, "site": self.site, "nth": self.nth,
                "kind": self.kind, "arg": self.arg}

    @staticmethod
    def from_json(d):
        return Fault(d["task"], d["site"], d["nth"], d["kind"], d.get("arg", 0.0))

    def __repr__(self):
        return f"{self.kind}@{self.task}/{self.site}#{self.nth}"


# --------------------------------------------------------------------- policy
class Policy:
    """Chooses which runnable task goes next; records what it chose."""

    def __init__(self, rng=None, mode="random", decisions=None):
        self.rng = rng
        self.mode = mode
        self.given = decisions
        self.pos = 0
        self.taken = []
        self.prio = {}
        self.change_at = set()
        self.victim = None
        self.count = 0
        if decisions is None and mode == "pct" and rng is not None:
            self.change_at = {rng.randrange(1, 400) for _ in range(3)}
        if decisions is None and mode == "straggler" and rng is not None:
            self.victim = rng.randrange(0, 12)

    def choose(self, tasks):
        """tasks: runnable tasks ordered by id.  Returns an index."""
        n = len(tasks)
        if self.given is not None:
            i = self.given[self.pos] if self.pos < len(self.given) else 0
            self.pos += 1
            i = i if i < n else 0
        elif self.rng is None or self.mode == "fifo":
            i = 0
        elif self.mode == "lifo":
            i = n - 1
        elif self.mode == "pct":
            self.count += 1
            for t in tasks:
                if t.tid not in self.prio:
                    self.prio[t.tid] = self.rng.random()
            i = max(range(n), key=lambda k: self.prio[tasks[k].tid])
            if self.count in self.change_at:
                self.prio[tasks[i].tid] = -self.rng.random()
        elif self.mode == "straggler":
            # the victim (by spawn number modulo 12) runs only if nothing else can
            cand = [k for k in range(n) if tasks[k].tid % 12 != self.victim]
            i = self.rng.choice(cand) if cand else 0
        elif self.mode == "children_first":
            cand = [k for k in range(n) if tasks[k].tid != 0]
            i = self.rng.choice(cand) if cand else 0
        elif self.mode == "main_first":
            i = 0 if tasks[0].tid == 0 else self.rng.randrange(n)
        else:
            i = self.rng.randrange(n)
        self.taken.append(i)
        return i


POLICIES = ["random", "pct", "straggler", "children_first", "main_first", "lifo", "fifo"]


# ----------------------------------------------------------------------- task
class Task:
    def __init__(self, sim, tid, name, kind, fn):
        self.sim, self.tid, self.name, self.kind, self.fn = sim, tid, name, kind, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "new"          # new, ready, blocked, done
        self.ready_at = 0.0
        self.wake = None            # predicate for blocked tasks
        self.timed_out = False
        self.exc = None
        self.result = None
        self.dead = False           # killed: no further effects
        self.counts = {}
        self.user = None            # what the facade hangs on it
        self.lines = None           # line-preemption budget
        self.orphan = False
        self.globals = None
        self.arpack = None


class Sim:
    def __init__(self, policy=None, faults=(), max_steps=40000, log=False, preempt=None):
        self.policy = policy or Policy()
        self.plan = {}
        for f in faults:
            self.plan[f.key()] = f
        self.fired = []             # faults that really fired, in order
        self.tasks = []
        self.current = None
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.log_on = log
        self.events = []
        self.switches = 0
        self.sites = {}             # (task class, site) -> crossings
        self.trace_hash = 0
        self.preempt = preempt      # (rng, mean lines) for caller threads
        self.ident = {}
        self.aborting = None
        self.closed = False
        self.nspawn = 0
        self.worker_excs = []       # what workers died of
        self.lsq = []               # least-squares solves: evaluations and answer
        self.lsq_limit = None       # most evaluations of one
        self.order = []             # completion order of worker tasks
        self.lines_on = False       # count (and interrupt at) source lines of the main task
        self.lines_prefix = None
        self.probes = {}
        self.shared_globals = None
        self.ambient = 1

    # -- a worker process has its own copy of the global random states and of module state
    @staticmethod
    def globals_now():
        return random.getstate(), np.random.get_state(), modstate.capture()

    @staticmethod
    def globals_set(g):
        random.setstate(g[0])
        np.random.set_state(g[1])
        modstate.restore(g[2])

    def _swap(self, a, b):
        """The baton goes from a to b."""
        wa, wb = a.kind == "worker", b.kind == "worker"
        if a is b or not (wa or wb):
            return
        g = self.globals_now()
        if wa:
            a.globals = g
        else:
            self.shared_globals = g
        self.globals_set(b.globals if wb else self.shared_globals)

    def arpack(self):
        """ARPACK's own hidden random state: not the program's, different in every run."""
        t = self.task()
        if t.arpack is None:
            t.arpack = np.random.RandomState(zlib.crc32(f"{self.ambient}:{t.name}".encode()))
        return t.arpack

    # -- logging never draws randomness nor reads a clock
    def log(self, *parts):
        self.trace_hash = hash_mix(self.trace_hash, parts)
        if self.log_on:
            self.events.append((self.steps, round(self.now, 6)) + parts)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def task(self):
        return self.ident.get(_thread.get_ident())

    # -- running
    def run(self, fn):
        """Run fn as task 0 in the calling thread; returns (result, exception)."""
        main = Task(self, 0, "main", "main", fn)
        main.state = "ready"
        self.tasks.append(main)
        self.ident[_thread.get_ident()] = main
        self.current = main
        res = exc = None
        try:
            res = fn()
        except (HarnessError, SystemError):
            raise
        except BaseException as e:   # noqa: B902 - includes KeyboardInterrupt, SystemExit
            exc = e
        self.finish_main()
        if self.aborting is not None and exc is None:
            exc = self.aborting
        if isinstance(exc, HarnessError):
            raise exc
        return res, exc

    def finish_main(self):
        """Stop everything that is still there, remembering what was left running."""
        self.closed = True
        for t in self.tasks[1:]:
            if t.state != "done":
                t.orphan = True
                t.dead = True
        for t in self.tasks[1:]:
            if t.state == "new":
                t.state = "done"
            elif t.state != "done":
                self._handoff_to_dead(t)

    def _handoff_to_dead(self, t):
        self._swap(self.tasks[0], t)
        self.current = t
        t.lock.release()
        self.tasks[0].lock.acquire()

    def spawn(self, name, kind, fn):
        t = Task(self, len(self.tasks), name, kind, fn)
        self.tasks.append(t)
        t.state = "ready"
        t.ready_at = self.now
        if kind == "worker":
            t.globals = self.globals_now()
        th = threading.Thread.__new__(_RealThread)
        _RealThread.__init__(th, target=self._body, args=(t,), daemon=True)
        th.start()
        return t

    def _body(self, t):
        t.lock.acquire()
        self.ident[_thread.get_ident()] = t
        try:
            if not t.dead:
                if self.preempt and t.kind == "thread":
                    self._install_trace(t)
                t.result = t.fn()
        except SimKill:
            pass
        except BaseException as e:  # noqa: B902
            t.exc = e
        sys.settrace(None)
        if isinstance(t.exc, (StepLimit, Deadlock, HarnessError)) and self.aborting is None:
            self.aborting = t.exc
        t.state = "done"
        del self.ident[_thread.get_ident()]
        if self.closed:
            self._swap(t, self.tasks[0])
            self.current = self.tasks[0]
            self.tasks[0].lock.release()
            return
        self.log("done", t.name)
        self.order.append(t.tid)
        nxt = self._pick()
        self._swap(t, nxt)
        self._resume(nxt)

    # -- scheduling
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == "ready":
                if t.ready_at <= self.now:
                    out.append(t)
            elif t.state == "blocked":
                if t.wake():
                    out.append(t)
                elif t.ready_at is not None and t.ready_at <= self.now:
                    t.timed_out = True
                    out.append(t)
        return out

    def _pick(self):
        while True:
            if self.aborting is not None:
                return self.tasks[0]
            r = self._runnable()
            if r:
                break
            # nothing runnable: jump the clock to the next event
            times = [t.ready_at for t in self.tasks
                     if t.state in ("ready", "blocked") and t.ready_at is not None]
            times = [x for x in times if x > self.now]
            if not times:
                self.aborting = Deadlock("nothing runnable and no timer pending")
                return self.tasks[0]
            self.now = min(times)
        if len(r) == 1:
            return r[0]
        return r[self.policy.choose(r)]

    def _resume(self, nxt):
        self.current = nxt
        nxt.state = "ready"
        nxt.wake = None
        nxt.lock.release()

    def _switch(self, t):
        """t gives up the baton (its state is already set); returns when it has it again."""
        nxt = self._pick()
        if nxt is t:
            t.state = "ready"
            t.wake = None
        else:
            self.switches += 1
            self.log("switch", nxt.name)
            self._swap(t, nxt)
            self._resume(nxt)
            t.lock.acquire()
        self._after(t)

    def _after(self, t):
        if t.dead:
            raise SimKill()
        if self.aborting is not None:
            raise self.aborting

    def yield_now(self, t):
        if len(self.tasks) > 1 and not self.closed:
            self._switch(t)

    def block(self, pred, timeout=None):
        """Block the current task until pred() or the timeout; True if pred held."""
        t = self.task()
        if t is None:
            raise HarnessError("block() outside the simulation")
        if t.dead:
            raise SimKill()
        t.timed_out = False
        if pred():
            self.yield_now(t)
            return True
        t.state = "blocked"
        t.wake = pred
        t.ready_at = None if timeout is None else self.now + max(0.0, timeout)
        try:
            self._switch(t)
        finally:
            t.ready_at = self.now
            t.wake = None
        return bool(pred())

    def sleep(self, dt):
        t = self.task()
        t.state = "ready"
        t.ready_at = self.now + max(0.0, dt)
        if len(self.tasks) == 1:
            self.now = t.ready_at
            return
        self._switch(t)

    # -- crossings
    def cross(self, site, sched=True):
        """A crossing.  Returns the fault to apply here, if any."""
        t = self.task()
        if t is None or self.closed:
            return None
        if t.dead:
            raise SimKill()
        if self.aborting is not None:
            raise self.aborting
        self.steps += 1
        if self.steps > self.max_steps:
            self.aborting = StepLimit(f"more than {self.max_steps} steps")
            raise self.aborting
        self.now += 1e-3
        n = t.counts.get(site, 0)
        t.counts[site] = n + 1
        cls = "main" if t.tid == 0 else t.kind
        k = (cls, site)
        self.sites[k] = self.sites.get(k, 0) + 1
        self.log("cross", t.name, site, n)
        f = self.plan.get((t.name, site, n))
        if sched:
            t.state = "ready"
            t.ready_at = self.now
            self.yield_now(t)
        if f is None:
            return None
        return f

    def fire(self, f):
        self.fired.append(f)
        self.log("fault", f.kind, f.task, f.site, f.nth)

    # -- source lines of the main task: an interrupt or a failing allocation can strike at any of them
    def trace_main(self, prefix):
        """(Re)install the line counter; a fault addressed (main, line, n) strikes there."""
        if not any(k[1] == "line" for k in self.plan) and not self.lines_on:
            return
        t = self.tasks[0]
        sim = self

        def local(frame, event, arg):
            if event == "line":
                n = t.counts.get("line", 0)
                t.counts["line"] = n + 1
                f = sim.plan.get(("main", "line", n))
                if f is not None and not sim.closed:
                    sim.fire(f)
                    sys.settrace(None)
                    raise MemoryError("no memory") if f.kind == "memerr" else KeyboardInterrupt()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(prefix) else None
        sys.settrace(glob)

    def untrace_main(self):
        sys.settrace(None)

    # -- line-level preemption of caller threads
    def _install_trace(self, t):
        rng, mean, prefix = self.preempt
        t.lines = 1 + int(rng.expovariate(1.0 / mean))
        sim = self

        def local(frame, event, arg):
            if event == "line":
                t.lines -= 1
                if t.lines <= 0:
                    t.lines = 1 + int(rng.expovariate(1.0 / mean))
                    if not sim.closed and not t.dead:
                        sim.steps += 1
                        sim.now += 1e-4
                        t.state = "ready"
                        t.ready_at = sim.now
                        sim.yield_now(t)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None
        sys.settrace(glob)


_RealThread = threading.Thread


def hash_mix(h, parts):
    """Small stable hash (not Python's randomised one)."""
    return zlib.crc32(repr(parts).encode(), h)


_current = None


def active():
    """The simulation this thread is a task of, or None."""
    s = _current
    if s is None or s.closed:
        return None
    if _thread.get_ident() not in s.ident:
        return None
    return s


def set_current(s):
    global _current
    was, _current = _current, s
    return was
