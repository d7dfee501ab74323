"""Simulated multiprocessing (and a little of threading / concurrent.futures).

Worker processes are tasks whose target and arguments are deep-copied when the
process starts (what fork gives a child: its own copy of memory), whose results
travel only through simulated IPC (pickled, as in reality), and which can be
killed, fail, stall, be refused by the OS, or lose their IPC connection.
"""
import copy
import errno
import itertools
import pickle
import queue as _queue
import types
import weakref

from . import core
from .core import HarnessError, SimKill


def _sim():
    s = core.active()
    if s is None:
        raise HarnessError("multiprocessing used outside a simulated run")
    return s


# ------------------------------------------------------------------ isolation
def isolate(obj, memo=None):
    """Deep copy for a forked child, following closures and partials too."""
    memo = {} if memo is None else memo
    if isinstance(obj, types.FunctionType) and obj.__closure__:
        cells = tuple(types.CellType(_cell(c, memo)) for c in obj.__closure__)
        f = types.FunctionType(obj.__code__, obj.__globals__, obj.__name__,
                               copy.deepcopy(obj.__defaults__, memo), cells)
        f.__kwdefaults__ = copy.deepcopy(obj.__kwdefaults__, memo)
        f.__dict__.update(obj.__dict__)
        return f
    return copy.deepcopy(obj, memo)


def _cell(c, memo):
    try:
        v = c.cell_contents
    except ValueError:
        return None
    return isolate(v, memo)


def ship(v):
    """What arrives at the other end of a pipe."""
    return pickle.loads(pickle.dumps(v))


class _NoCopy:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# -------------------------------------------------------------------- process
class SimProcess(_NoCopy):
    _ids = itertools.count(1)
    _sim_kind = "proc"

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.daemon = bool(daemon)
        self._task = None
        self._exit = None
        self._sim = None
        self._number = None
        self.name = name or "Process-?"
        self.authkey = b"sim"

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = _sim()
        if self._task is not None:
            raise AssertionError("cannot start a process twice")
        f = sim.cross("proc.start")
        if f is not None:
            if f.kind in ("eagain", "enomem"):
                sim.fire(f)
                sim.refused = getattr(sim, "refused", 0) + 1
                if f.kind == "eagain":
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                raise OSError(errno.ENOMEM, "Cannot allocate memory")
            common_fault(sim, f)
        self._sim = sim
        self._number = sim.nspawn
        sim.nspawn += 1
        if type(self).run is SimProcess.run:
            memo = {}
            target = isolate(self._target, memo)
            args = tuple(isolate(a, memo) for a in self._args)
            kwargs = {k: isolate(v, memo) for k, v in self._kwargs.items()}

            def body():
                if target:
                    target(*args, **kwargs)
        else:                      # a subclass with its own run()
            clone = object.__new__(type(self))
            memo = {}
            clone.__dict__.update({k: (v if k in ("_task", "_sim") else isolate(v, memo))
                                   for k, v in self.__dict__.items()})
            body = clone.run
        me = f"w{self._number}"
        parent = sim.task()
        if parent.kind == "thread":           # a name that does not depend on what other threads do
            parent.children = getattr(parent, "children", 0) + 1
            me = f"{parent.name}.w{parent.children - 1}"

        def child():
            t = sim.task()
            t.user = self
            try:
                ff = sim.cross("proc.boot")
                if ff is not None:
                    common_fault(sim, ff, child=True)
                body()
                ff = sim.cross("proc.exit")
                if ff is not None:
                    common_fault(sim, ff, child=True)
                self._exit = 0
            except SimKill:
                if self._exit is None:
                    self._exit = -9
                raise
            except SystemExit as e:
                self._exit = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except (core.StepLimit, core.Deadlock, HarnessError):
                raise
            except BaseException as e:      # traceback goes to stderr in reality
                sim.log("worker-exception", me, type(e).__name__)
                sim.worker_excs.append(e.with_traceback(None))
                sim.worker_errors = getattr(sim, "worker_errors", 0) + 1
                self._error = e
                self._exit = 1
        if self.name == "Process-?":
            self.name = f"Process-{self._number + 1}"
        self._task = sim.spawn(me, "worker", child)
        self._task.user = self
        sim.yield_now(sim.task())

    def _done(self):
        return self._task is not None and self._task.state == "done"

    def join(self, timeout=None):
        sim = _sim()
        if self._task is None:
            raise AssertionError("can only join a started process")
        f = sim.cross("proc.join")
        if f is not None:
            common_fault(sim, f)
        sim.block(self._done, timeout)

    def is_alive(self):
        sim = _sim()
        if self._task is None:
            return False
        sim.cross("proc.poll")
        return not self._done()

    @property
    def exitcode(self):
        return self._exit if self._done() else None

    @property
    def pid(self):
        return None if self._task is None else 10000 + self._number

    ident = pid

    @property
    def sentinel(self):
        return self

    def terminate(self, code=-15):
        _sim().cross("proc.term")
        if self._task is not None and not self._done():
            self._exit = code
            self._task.dead = True
            self._task.state = "ready"
            self._task.ready_at = self._sim.now

    def kill(self):
        self.terminate(-9)

    def close(self):
        if self._task is not None and not self._done():
            raise ValueError("Cannot close a process while it is still running.")


class _MainProcess(_NoCopy):
    name, pid, ident, daemon, exitcode, authkey = "MainProcess", 1, 1, False, None, b"sim"

    def is_alive(self):
        return True


_MAIN = _MainProcess()


def current_process():
    s = core.active()
    if s is None:
        return _MAIN
    t = s.task()
    return t.user if isinstance(t.user, SimProcess) else _MAIN


def active_children():
    s = _sim()
    return [t.user for t in s.tasks if isinstance(t.user, SimProcess) and t.state != "done"]


def parent_process():
    return None if current_process() is _MAIN else _MAIN


def connection_wait(objs, timeout=None):
    s = _sim()
    objs = list(objs)

    def ready(o):
        if isinstance(o, SimProcess):
            return o._done()
        if hasattr(o, "_ready"):
            return o._ready()
        return False
    s.cross("proc.wait")
    s.block(lambda: any(ready(o) for o in objs), timeout)
    return [o for o in objs if ready(o)]


def common_fault(sim, f, child=False):
    """Faults that can strike at any crossing."""
    k = f.kind
    t = sim.task()
    if k == "kill":
        if t.kind != "worker":
            return
        sim.fire(f)
        t.dead = True
        raise SimKill()
    if k == "stall":
        sim.fire(f)
        sim.sleep(f.arg or 60.0)
    elif k == "interrupt":
        sim.fire(f)
        raise KeyboardInterrupt()
    elif k == "memerr":
        sim.fire(f)
        raise MemoryError("simulated: cannot allocate")
    elif k == "reset":
        sim.fire(f)
        raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
    elif k == "eof":
        sim.fire(f)
        raise EOFError()


# -------------------------------------------------------------------- manager
class _Server(_NoCopy):
    def __init__(self):
        self.up = True


def _rpc(server, op, write, fn):
    sim = _sim()
    t = sim.task()
    site = "rpc.set" if write else "rpc.get"
    f = sim.cross(site)
    if not server.up:
        raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
    if f is not None and f.kind == "mgrdie":
        sim.fire(f)
        server.up = False
        raise EOFError()
    if f is not None and f.kind == "lostack":
        sim.fire(f)
        fn()
        raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
    if f is not None:
        common_fault(sim, f, child=t.kind == "worker")
        if not server.up:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
    out = fn()
    sim.log("rpc", op)
    return out


class DictProxy(_NoCopy):
    def __init__(self, server, init=()):
        self._srv = server
        self._d = dict(ship(dict(init)))

    def __setitem__(self, k, v):
        k, v = ship(k), ship(v)
        _rpc(self._srv, "set", True, lambda: self._d.__setitem__(k, v))

    def __getitem__(self, k):
        return ship(_rpc(self._srv, "get", False, lambda: self._d[k]))

    def __delitem__(self, k):
        _rpc(self._srv, "del", True, lambda: self._d.__delitem__(k))

    def __contains__(self, k):
        return _rpc(self._srv, "in", False, lambda: k in self._d)

    def __len__(self):
        return _rpc(self._srv, "len", False, lambda: len(self._d))

    def __iter__(self):
        return iter(_rpc(self._srv, "iter", False, lambda: list(self._d)))

    def get(self, k, default=None):
        return ship(_rpc(self._srv, "get", False, lambda: self._d.get(k, default)))

    def keys(self):
        return _rpc(self._srv, "keys", False, lambda: list(self._d.keys()))

    def values(self):
        return ship(_rpc(self._srv, "values", False, lambda: list(self._d.values())))

    def items(self):
        return ship(_rpc(self._srv, "items", False, lambda: list(self._d.items())))

    def copy(self):
        return ship(_rpc(self._srv, "copy", False, lambda: dict(self._d)))

    _getvalue = copy

    def pop(self, *a):
        return ship(_rpc(self._srv, "pop", True, lambda: self._d.pop(*a)))

    def popitem(self):
        return ship(_rpc(self._srv, "popitem", True, lambda: self._d.popitem()))

    def setdefault(self, k, v=None):
        k, v = ship(k), ship(v)
        return ship(_rpc(self._srv, "setdefault", True, lambda: self._d.setdefault(k, v)))

    def update(self, *a, **kw):
        v = ship(dict(*a, **kw))
        _rpc(self._srv, "update", True, lambda: self._d.update(v))

    def clear(self):
        _rpc(self._srv, "clear", True, lambda: self._d.clear())


class ListProxy(_NoCopy):
    def __init__(self, server, init=()):
        self._srv = server
        self._l = list(ship(list(init)))

    def append(self, v):
        v = ship(v)
        _rpc(self._srv, "append", True, lambda: self._l.append(v))

    def extend(self, v):
        v = ship(list(v))
        _rpc(self._srv, "extend", True, lambda: self._l.extend(v))

    def __setitem__(self, k, v):
        v = ship(v)
        _rpc(self._srv, "set", True, lambda: self._l.__setitem__(k, v))

    def __getitem__(self, k):
        return ship(_rpc(self._srv, "get", False, lambda: self._l[k]))

    def __len__(self):
        return _rpc(self._srv, "len", False, lambda: len(self._l))

    def __iter__(self):
        return iter(ship(_rpc(self._srv, "iter", False, lambda: list(self._l))))

    def __contains__(self, v):
        return _rpc(self._srv, "in", False, lambda: v in self._l)

    def pop(self, *a):
        return ship(_rpc(self._srv, "pop", True, lambda: self._l.pop(*a)))

    def sort(self, **kw):
        _rpc(self._srv, "sort", True, lambda: self._l.sort(**kw))

    def _getvalue(self):
        return ship(_rpc(self._srv, "copy", False, lambda: list(self._l)))


class Namespace(_NoCopy):
    def __init__(self, server):
        object.__setattr__(self, "_srv", server)
        object.__setattr__(self, "_ns", {})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        def g():
            if k not in self._ns:
                raise AttributeError(k)
            return self._ns[k]
        return ship(_rpc(self._srv, "nsget", False, g))

    def __setattr__(self, k, v):
        v = ship(v)
        _rpc(self._srv, "nsset", True, lambda: self._ns.__setitem__(k, v))


class ValueBox(_NoCopy):
    def __init__(self, *a, **kw):
        self._v = a[1] if len(a) > 1 else (a[0] if a else 0)
        self._lock = SimLock()

    @property
    def value(self):
        s = core.active()
        if s:
            s.cross("rpc.get")
        return self._v

    @value.setter
    def value(self, v):
        s = core.active()
        if s:
            s.cross("rpc.set")
        self._v = v

    def get(self):
        return self.value

    def set(self, v):
        self.value = v

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self


# ---------------------------------------------------------- synchronisation
class SimLock(_NoCopy):
    def __init__(self, *a, recursive=False, n=1, **kw):
        self._n, self._max = n, n
        self._rec = recursive
        self._owner, self._depth = None, 0

    def _can(self):
        return self._n > 0

    def acquire(self, block=True, timeout=None):
        s = core.active()
        if s is None:
            self._n -= 1
            return True
        t = s.task()
        if self._rec and self._owner is t:
            self._depth += 1
            return True
        s.cross("sync.acquire")
        if not block:
            if self._n <= 0:
                return False
        elif not s.block(self._can, None if timeout in (None, -1) else timeout):
            return False
        self._n -= 1
        self._owner, self._depth = t, 1
        return True

    def release(self):
        if self._rec:
            self._depth -= 1
            if self._depth > 0:
                return
        self._owner = None
        self._n += 1
        s = core.active()
        if s is not None:
            s.cross("sync.release")

    def locked(self):
        return self._n <= 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def SimRLock(*a, **kw):
    return SimLock(recursive=True)


def SimSemaphore(value=1, *a, **kw):
    return SimLock(n=value)


class SimEvent(_NoCopy):
    def __init__(self):
        self._f = False

    def is_set(self):
        s = core.active()
        if s:
            s.cross("sync.poll")
        return self._f

    def set(self):
        self._f = True
        s = core.active()
        if s:
            s.cross("sync.set")

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        s = _sim()
        s.cross("sync.wait")
        return s.block(lambda: self._f, timeout)


class SimBarrier(_NoCopy):
    def __init__(self, parties, action=None, timeout=None):
        self.parties, self._n, self._gen = parties, 0, 0
        self._timeout = timeout

    def wait(self, timeout=None):
        s = _sim()
        s.cross("sync.wait")
        g = self._gen
        self._n += 1
        k = self._n
        if self._n == self.parties:
            self._n = 0
            self._gen += 1
            return 0
        if not s.block(lambda: self._gen != g, timeout or self._timeout):
            raise RuntimeError("broken barrier")
        return k


class SimQueue(_NoCopy):
    """multiprocessing.Queue / SimpleQueue / JoinableQueue / manager Queue."""

    def __init__(self, maxsize=0, *a, **kw):
        self._q, self._max, self._open_tasks = [], maxsize, 0

    def _ready(self):
        return bool(self._q)

    def put(self, v, block=True, timeout=None):
        s = _sim()
        v = ship(v)
        f = s.cross("rpc.set")
        if f is not None:
            if f.kind == "lostack":
                s.fire(f)
                self._q.append(v)
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            common_fault(s, f)
        if self._max and not s.block(lambda: len(self._q) < self._max, timeout if block else 0):
            raise _queue.Full
        self._q.append(v)
        self._open_tasks += 1

    def put_nowait(self, v):
        self.put(v, False)

    def get(self, block=True, timeout=None):
        s = _sim()
        f = s.cross("rpc.get")
        if f is not None:
            common_fault(s, f)
        if not self._q and (not block or not s.block(lambda: bool(self._q), timeout)):
            raise _queue.Empty
        return self._q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        _sim().cross("rpc.get")
        return not self._q

    def full(self):
        return bool(self._max) and len(self._q) >= self._max

    def qsize(self):
        return len(self._q)

    def task_done(self):
        self._open_tasks -= 1

    def join(self):
        _sim().block(lambda: self._open_tasks <= 0)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class SimConn(_NoCopy):
    def __init__(self):
        self._in, self._peer, self._closed = [], None, False

    def _ready(self):
        return bool(self._in) or self._peer._closed

    def send(self, v):
        s = _sim()
        v = ship(v)
        f = s.cross("rpc.set")
        if f is not None:
            if f.kind == "lostack":
                s.fire(f)
                self._peer._in.append(v)
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            common_fault(s, f)
        self._peer._in.append(v)

    def recv(self):
        s = _sim()
        f = s.cross("rpc.get")
        if f is not None:
            common_fault(s, f)

        def dead_end():
            # EOF once every task that could still send is gone
            return not [t for t in s.tasks[1:] if t.state != "done"]
        s.block(lambda: self._ready() or dead_end())
        if self._in:
            return self._in.pop(0)
        raise EOFError()

    def poll(self, timeout=0.0):
        s = _sim()
        s.cross("rpc.get")
        return s.block(self._ready, timeout)

    send_bytes, recv_bytes = send, recv

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def SimPipe(duplex=True):
    a, b = SimConn(), SimConn()
    a._peer, b._peer = b, a
    return a, b


class SimManager(_NoCopy):
    def __init__(self, *a, **kw):
        sim = _sim()
        f = sim.cross("mgr.start")
        if f is not None:
            if f.kind == "eagain":
                sim.fire(f)
                sim.refused = getattr(sim, "refused", 0) + 1
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            common_fault(sim, f)
        self._srv = _Server()
        sim.managers = getattr(sim, "managers", [])
        sim.managers.append(weakref.ref(self))

    def start(self, *a, **kw):
        pass

    def shutdown(self):
        self._srv.up = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def dict(self, *a, **kw):
        return DictProxy(self._srv, dict(*a, **kw))

    def list(self, *a):
        return ListProxy(self._srv, *a)

    def Namespace(self):
        return Namespace(self._srv)

    def Queue(self, maxsize=0):
        return SimQueue(maxsize)

    JoinableQueue = Queue

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimRLock()

    def Semaphore(self, n=1):
        return SimSemaphore(n)

    def Event(self):
        return SimEvent()

    def Value(self, *a):
        return ValueBox(*a)

    def Barrier(self, n):
        return SimBarrier(n)


# ------------------------------------------------------------ futures / pools
class SimFuture(_NoCopy):
    def __init__(self, proc):
        self._p = proc
        self._box = []          # [("ok", value)] or [("err", exc)]
        self._cbs = []

    def _done(self):
        return bool(self._box) or self._p._done()

    def done(self):
        _sim().cross("proc.poll")
        return self._done()

    ready = done

    def running(self):
        return not self._done()

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def result(self, timeout=None):
        s = _sim()
        f = s.cross("proc.join")
        if f is not None:
            common_fault(s, f)
        if not s.block(self._done, timeout):
            from concurrent.futures import TimeoutError as T
            raise T()
        if not self._box:
            from concurrent.futures.process import BrokenProcessPool
            raise BrokenProcessPool("A process in the process pool was terminated abruptly")
        k, v = self._box[0]
        if k == "err":
            raise v
        return v

    def get(self, timeout=None):
        import multiprocessing
        s = _sim()
        f = s.cross("proc.join")
        if f is not None:
            common_fault(s, f)
        # a real Pool replaces a killed worker and never answers for its task
        if not s.block(lambda: bool(self._box), timeout):
            raise multiprocessing.TimeoutError()
        k, v = self._box[0]
        if k == "err":
            raise v
        return v

    def wait(self, timeout=None):
        _sim().block(self._done, timeout)

    def successful(self):
        return bool(self._box) and self._box[0][0] == "ok"

    def exception(self, timeout=None):
        try:
            self.result(timeout)
        except Exception as e:
            return e
        return None

    def add_done_callback(self, cb):
        if self._done():
            cb(self)
        else:
            self._cbs.append(cb)

    def _finish(self, kind, v):
        self._box.append((kind, v))
        for cb in self._cbs:
            cb(self)


def _submit(fn, args, kwargs, cls):
    fut = SimFuture(None)

    def work(fn, args, kwargs):
        s = _sim()
        try:
            v = fn(*args, **kwargs)
            k = "ok"
        except (SimKill, core.StepLimit, core.Deadlock, HarnessError):
            raise
        except Exception as e:
            k, v = "err", e
        if cls is SimProcess:
            f = s.cross("rpc.set")
            if f is not None:
                common_fault(s, f)
            v = ship(v) if k == "ok" else v
        fut._finish(k, v)
    p = cls(target=work, args=(fn, args, kwargs))
    fut._p = p
    p.start()
    return fut


class _SimExecutor(_NoCopy):
    _cls = None

    def __init__(self, max_workers=None, *a, **kw):
        self._futs = []

    def submit(self, fn, *args, **kwargs):
        f = _submit(fn, args, kwargs, self._cls)
        self._futs.append(f)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*its)]
        return iter([f.result(timeout) for f in futs])

    def shutdown(self, wait=True, **kw):
        if wait:
            for f in self._futs:
                _sim().block(f._done)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class SimProcessPoolExecutor(_SimExecutor):
    _cls = SimProcess


def as_completed(fs, timeout=None):
    s = _sim()
    left = list(fs)
    while left:
        s.block(lambda: any(f._done() for f in left), timeout)
        d = [f for f in left if f._done()]
        left = [f for f in left if f not in d]
        yield from d


def futures_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    s = _sim()
    fs = list(fs)
    if return_when == "ALL_COMPLETED":
        s.block(lambda: all(f._done() for f in fs), timeout)
    else:
        s.block(lambda: any(f._done() for f in fs), timeout)
    return ({f for f in fs if f._done()}, {f for f in fs if not f._done()})


class SimPool(_NoCopy):
    def __init__(self, processes=None, initializer=None, initargs=(), *a, **kw):
        self._futs = []

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        f = _submit(fn, tuple(args), dict(kwds or {}), SimProcess)
        self._futs.append(f)
        return f

    def apply(self, fn, args=(), kwds=None):
        return self.apply_async(fn, args, kwds).get()

    def map(self, fn, it, chunksize=None):
        return [f.get() for f in [self.apply_async(fn, (x,)) for x in it]]

    def starmap(self, fn, it, chunksize=None):
        return [f.get() for f in [self.apply_async(fn, x) for x in it]]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        fs = [self.apply_async(fn, (x,)) for x in it]
        for f in as_completed(fs):
            yield f.get()

    class _Many:
        def __init__(self, fs):
            self.fs = fs

        def get(self, timeout=None):
            return [f.get(timeout) for f in self.fs]

        def wait(self, timeout=None):
            for f in self.fs:
                f.wait(timeout)

        def ready(self):
            return all(f.done() for f in self.fs)

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return SimPool._Many([self.apply_async(fn, (x,)) for x in it])

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return SimPool._Many([self.apply_async(fn, x) for x in it])

    def close(self):
        pass

    def terminate(self):
        for f in self._futs:
            if not f._done():
                f._p.terminate()

    def join(self):
        for f in self._futs:
            _sim().block(f._done)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


# ------------------------------------------------------------------- threads
class SimThread(SimProcess):
    """threading.Thread as a shared-memory task."""

    def start(self):
        sim = _sim()
        f = sim.cross("proc.start")
        if f is not None:
            if f.kind in ("eagain", "enomem"):
                sim.fire(f)
                raise RuntimeError("can't start new thread")
            common_fault(sim, f)
        self._sim = sim
        self._number = sim.nspawn
        sim.nspawn += 1

        def body():
            t = sim.task()
            t.user = self
            try:
                sim.cross("thread.boot")
                self.run()
                self._exit = 0
            except (SimKill, core.StepLimit, core.Deadlock, HarnessError):
                raise
            except BaseException as e:
                self._error = e
                self._exit = 1
                sim.worker_errors = getattr(sim, "worker_errors", 0) + 1
        self._task = sim.spawn(f"t{self._number}", "thread", body)
        sim.yield_now(sim.task())


class SimThreadPoolExecutor(_SimExecutor):
    _cls = SimThread


# ------------------------------------------------------------------- context
class SimContext(_NoCopy):
    Process = SimProcess
    Pool = staticmethod(lambda *a, **k: SimPool(*a, **k))
    Manager = staticmethod(lambda: SimManager())
    Queue = SimpleQueue = JoinableQueue = SimQueue
    Pipe = staticmethod(SimPipe)
    Lock, RLock, Semaphore, BoundedSemaphore = SimLock, staticmethod(SimRLock), \
        staticmethod(SimSemaphore), staticmethod(SimSemaphore)
    Event, Barrier = SimEvent, SimBarrier
    Value = RawValue = ValueBox
    current_process = staticmethod(current_process)
    active_children = staticmethod(active_children)

    def get_context(self, method=None):
        return self

    def cpu_count(self):
        return 4

    def get_start_method(self, allow_none=False):
        return get_start_method(allow_none)

    def set_start_method(self, method, force=False):
        set_start_method(method, force)


CONTEXT = SimContext()
START = [None]        # what the caller has chosen for the process


def get_start_method(allow_none=False):
    return START[0] or (None if allow_none else "fork")


def set_start_method(method, force=False):
    if START[0] is not None and not force:
        raise RuntimeError("context has already been set")
    START[0] = method


def install():
    """Replace multiprocessing & co. for everything imported from now on."""
    import multiprocessing as M
    import multiprocessing.connection as MC
    import multiprocessing.context as MX
    import multiprocessing.managers as MM
    import multiprocessing.pool as MP
    import multiprocessing.process as MPr
    import multiprocessing.queues  # noqa: F401
    import concurrent.futures as F
    import concurrent.futures.process as FP
    import concurrent.futures.thread as FT
    for m in (M, MX, MPr):
        if hasattr(m, "Process"):
            m.Process = SimProcess
        if hasattr(m, "current_process"):
            m.current_process = current_process
        if hasattr(m, "active_children"):
            m.active_children = active_children
        if hasattr(m, "parent_process"):
            m.parent_process = parent_process
    MX.ForkProcess = MX.SpawnProcess = MX.ForkServerProcess = SimProcess
    M.Manager = SimManager
    MM.SyncManager = SimManager
    M.Pool = SimPool
    MP.Pool = SimPool
    MP.ThreadPool = SimPool
    M.Queue = M.SimpleQueue = M.JoinableQueue = SimQueue
    M.Pipe = SimPipe
    MC.Pipe = SimPipe
    MC.wait = connection_wait
    M.Lock, M.RLock, M.Semaphore, M.BoundedSemaphore = SimLock, SimRLock, SimSemaphore, SimSemaphore
    M.Event, M.Barrier = SimEvent, SimBarrier
    M.Value = M.RawValue = ValueBox
    M.get_context = lambda method=None: CONTEXT
    M.cpu_count = lambda: 4
    M.set_start_method = set_start_method
    M.get_start_method = get_start_method
    F.ProcessPoolExecutor = FP.ProcessPoolExecutor = SimProcessPoolExecutor
    F.ThreadPoolExecutor = FT.ThreadPoolExecutor = SimThreadPoolExecutor
    F.as_completed = as_completed
    F.wait = futures_wait
