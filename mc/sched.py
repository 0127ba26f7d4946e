"""Controlled scheduler: runs the code under test in real threads, exactly one
at a time, and asks the exploration context at every scheduling point which
enabled thread runs next (a preemption of an enabled thread costs 1).

There is a point before every operation another thread could observe (lock
acquisition, event, pipe and queue operations, stub calls). Accesses to a shared
value happen under its own lock, as in multiprocessing, so the point before the
acquisition is enough: an access inside an already held lock commutes with
whatever the other threads can do meanwhile.

`patched(sched)` replaces multiprocessing's (and torch.multiprocessing's)
Value, Array, Event, Lock, RLock, Process, Pipe and Queue and threading's
Lock, RLock, Event (as seen by pfrl modules) and Thread start/join by
controlled counterparts.
"""
import collections
import contextlib
import ctypes
import pickle
import sys
import threading

_real_Thread = threading.Thread
_real_Sem = threading.Semaphore
_real_Lock = threading.Lock
_thread_start = threading.Thread.start
_thread_join = threading.Thread.join


class Abort(BaseException):
    """Unwinds parked threads when an execution is abandoned."""


class Deadlock(Exception):
    pass


class Task(object):
    def __init__(self, name):
        self.name = name
        self.sem = _real_Sem(0)
        self.pred = None
        self.done = False
        self.exc = None
        self.started = False
        self.thread = None
        self.spins = {}
        self.spinning = False


class Sched(object):
    def __init__(self, ctx, max_points=20000, delay=False):
        self.ctx = ctx
        # delay=True: every deviation from the default (round-robin) order costs 1,
        # also where the running thread blocks (delay-bounded exploration)
        self.delay = delay
        self.main = Task("main")
        self.main.started = True
        self.tasks = [self.main]
        self.current = self.main
        self.aborting = False
        self.deadlock = None
        self.points = 0
        self.max_points = max_points
        self.by_ident = {threading.get_ident(): self.main}
        self.trace = []
        # busy-waiting (see spin()): version counts changes of shared state
        self.version = 0
        self.wakes = 0
        self.quiet = 0  # >0: no scheduling points (atomic section of the harness)

    # ------------------------------------------------------------ tasks
    def spawn(self, fn, name):
        t = Task(name)
        self.tasks.append(t)

        def body():
            t.sem.acquire()
            self.by_ident[threading.get_ident()] = t
            try:
                if not self.aborting:
                    fn()
            except Abort:
                pass
            except BaseException as e:
                t.exc = e
            t.done = True
            self.bump()
            if not self.aborting:
                self._handoff(t, finished=True)

        t.thread = _real_Thread(target=body, daemon=True)
        t.started = True
        _thread_start(t.thread)
        return t

    def enabled(self, t):
        return t.started and not t.done and (t.pred is None or t.pred())

    def point(self, label=None):
        if self.quiet or self.aborting:
            if self.aborting and self.me() is not self.main:
                raise Abort()
            return
        me = self.me()
        if me is None:
            return
        self.points += 1
        if self.points > self.max_points:
            self._abort(RuntimeError("livelock: more than %d scheduling points" % self.max_points))
        self._handoff(me, label=label)

    def bump(self):
        self.version += 1
        self.wakes = 0

    def spin(self, key, label=None):
        """Scheduling point of a check another thread may be waited for with
        (event test, poll, sleep): a thread that repeats the same check several
        times while nothing changes is descheduled until something changes."""
        me = self.me()
        if me is None or self.quiet or self.aborting:
            return self.point(label)
        v, n = me.spins.get(key, (-1, 0))
        if v != self.version:
            # (a switch at a repeated check equals a switch at the first one)
            self.point(label)
            n = 0
        n += 1
        me.spins[key] = (self.version, n)
        if n >= 4:
            v = self.version
            me.spinning = True
            me.pred = lambda: self.version != v or not me.spinning
            self._handoff(me, label=label)
            me.pred = None
            me.spinning = False

    def block(self, pred, label=None):
        """Wait until pred() holds."""
        me = self.me()
        self.point(label)
        while not pred():
            me.pred = pred
            self._handoff(me, label=label)
            me.pred = None

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def _handoff(self, me, finished=False, label=None):
        opts = []
        cur_ok = not finished and self.enabled(me)
        if cur_ok:
            opts.append(me)
        at = self.tasks.index(me)
        for t in self.tasks[at + 1 :] + self.tasks[:at]:
            if self.enabled(t):
                opts.append(t)
        if not opts and self.wakes < 40:
            # only busy-waiting threads are left: let one look again
            for t in self.tasks[at:] + self.tasks[:at]:
                if t.spinning and not t.done:
                    self.wakes += 1
                    t.spinning = False
                    opts.append(t)
                    break
        if not opts:
            live = [t.name for t in self.tasks if not t.done]
            if not live:
                return
            self._abort(Deadlock("deadlock: %s wait for ever" % ", ".join(live)), me, finished)
            return
        if len(opts) == 1:
            nxt = opts[0]
        else:
            try:
                nxt = opts[self.ctx.choose(len(opts), label, 1 if cur_ok or self.delay else 0)]
            except Exception as e:
                self._abort(e, me, finished)
                return
        if nxt is me:
            return
        self.trace.append((me.name, nxt.name, label))
        self.current = nxt
        nxt.sem.release()
        if not finished:
            me.sem.acquire()
            if self.aborting:
                if me is self.main:
                    raise self.deadlock
                raise Abort()

    def _abort(self, exc, me=None, finished=False):
        self.deadlock = exc
        self.aborting = True
        for t in self.tasks:
            if t is not self.me() and not t.done:
                t.sem.release()
        if self.me() is self.main:
            raise exc
        if not finished:
            raise Abort()

    def close(self):
        """Unwind everything that is still parked."""
        if not self.aborting:
            self.aborting = True
            for t in self.tasks:
                if t is not self.main and not t.done:
                    t.sem.release()
        for t in self.tasks:
            if t.thread is not None:
                _thread_join(t.thread, 10)

    @contextlib.contextmanager
    def atomic(self):
        self.quiet += 1
        try:
            yield
        finally:
            self.quiet -= 1


_S = [None]


def S():
    return _S[0]


# ---------------------------------------------------------------- primitives


class FakeRLock(object):
    def __init__(self, *a, **k):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=None):
        s = S()
        me = s.me()
        if self.owner is me:
            self.count += 1
            return True
        if not blocking or (timeout is not None and timeout >= 0):
            s.point("lock?")
            if self.owner is not None:
                return False
        else:
            s.block(lambda: self.owner is None, "lock")
        self.owner = me
        self.count = 1
        return True

    def release(self):
        assert self.owner is S().me(), "release of a lock held by someone else"
        self.count -= 1
        if self.count == 0:
            self.owner = None
            S().bump()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class FakeLock(FakeRLock):
    def acquire(self, blocking=True, timeout=None):
        s = S()
        if not blocking or (timeout is not None and timeout >= 0):
            s.point("lock?")
            if self.owner is not None:
                return False
        else:
            s.block(lambda: self.owner is None, "lock")
        self.owner = s.me() or True
        self.count = 1
        return True

    def release(self):
        assert self.owner is not None, "release of an unlocked lock"
        self.owner = None
        S().bump()

    def locked(self):
        return self.owner is not None


_TYPES = {
    "b": ctypes.c_byte, "B": ctypes.c_ubyte, "h": ctypes.c_short, "i": ctypes.c_int, "I": ctypes.c_uint,
    "l": ctypes.c_long, "L": ctypes.c_ulong, "q": ctypes.c_longlong, "f": ctypes.c_float, "d": ctypes.c_double,
    "?": ctypes.c_bool,
}


class FakeValue(object):
    def __init__(self, typecode, *args, lock=True):
        T = _TYPES.get(typecode, typecode)
        self._v = T(*args)
        self._lock = lock if isinstance(lock, FakeRLock) else FakeRLock()
        self.writes = 0

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self._v

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    @property
    def value(self):
        # SynchronizedBase properties take the lock for each access
        self._lock.acquire()
        try:
            return self._v.value
        finally:
            self._lock.release()

    @value.setter
    def value(self, x):
        self._lock.acquire()
        try:
            self._v.value = x
            self.writes += 1
        finally:
            self._lock.release()


class FakeEvent(object):
    def __init__(self, *a, **k):
        self.flag = False
        self.on_set = None

    def is_set(self):
        s = S()
        if s:
            s.spin(id(self), "is_set")
        return self.flag

    isSet = is_set

    def set(self):
        S().point("set")
        self.flag = True
        S().bump()
        if self.on_set:
            self.on_set()

    def clear(self):
        S().point("clear")
        self.flag = False
        S().bump()

    def wait(self, timeout=None):
        s = S()
        if timeout is None:
            s.block(lambda: self.flag, "wait")
        else:
            s.spin(id(self), "wait")
        return self.flag


class FakeProcess(object):
    n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        FakeProcess.n += 1
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name = name or "P%d" % FakeProcess.n
        self.pid = None
        self.daemon = daemon
        self.task = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        assert self.task is None, "process started twice"
        self.pid = 10000 + FakeProcess.n
        self.task = S().spawn(self.run, self.name)

    def join(self, timeout=None):
        assert self.task is not None, "can only join a started process"
        if timeout is None:
            S().block(lambda: self.task.done, "join")
        else:
            S().point("join?")

    def is_alive(self):
        S().point("alive?")
        return self.task is not None and not self.task.done

    @property
    def exitcode(self):
        if self.task is None or not self.task.done:
            return None
        e = self.task.exc
        if e is None:
            return 0
        if isinstance(e, SystemExit):
            return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        return 1

    def terminate(self):
        pass


class FakeConnection(object):
    """One end of a Pipe; objects travel pickled as with the real one."""

    def __init__(self):
        self.inbox = collections.deque()
        self.peer = None
        self.closed = False

    def send(self, obj):
        S().point("send")
        if self.closed:
            raise OSError("handle is closed")
        if self.peer.closed:
            raise BrokenPipeError(32, "Broken pipe")
        self.peer.inbox.append(pickle.dumps(obj))
        S().bump()

    def recv(self):
        if self.closed:
            raise OSError("handle is closed")
        S().block(lambda: self.inbox or self.peer.closed, "recv")
        S().bump()
        if not self.inbox:
            raise EOFError
        return pickle.loads(self.inbox.popleft())

    def poll(self, timeout=0.0):
        if self.closed:
            raise OSError("handle is closed")
        if timeout is None:
            S().block(lambda: self.inbox or self.peer.closed, "poll")
        else:
            S().spin(id(self), "poll")
        return bool(self.inbox) or self.peer.closed

    def close(self):
        self.closed = True
        if S():
            S().bump()

    def fileno(self):
        return -1


def fake_pipe(duplex=True):
    a, b = FakeConnection(), FakeConnection()
    a.peer, b.peer = b, a
    return a, b


class FakeQueue(object):
    def __init__(self, maxsize=0, **k):
        self.q = collections.deque()

    def put(self, x, *a, **k):
        S().point("put")
        self.q.append(pickle.dumps(x))
        S().bump()

    def get(self, block=True, timeout=None):
        import queue

        if block and timeout is None:
            S().block(lambda: self.q, "get")
        else:
            S().point("get")
            if not self.q:
                raise queue.Empty
        return pickle.loads(self.q.popleft())

    def empty(self):
        S().spin(id(self), "empty")
        return not self.q

    def qsize(self):
        return len(self.q)


def fake_thread_start(self):
    s = S()
    assert not getattr(self, "_mc_task", None), "threads can only be started once"
    self._mc_task = s.spawn(self.run, self.name)


def fake_thread_join(self, timeout=None):
    t = self._mc_task
    if timeout is None:
        S().block(lambda: t.done, "join")
    else:
        S().point("join?")


def fake_thread_is_alive(self):
    t = getattr(self, "_mc_task", None)
    S().spin(id(self), "alive?")
    return t is not None and not t.done


class _ThreadingProxy(object):
    """Stands for the threading module inside pfrl modules."""

    Lock = FakeLock
    RLock = FakeRLock
    Event = FakeEvent

    def __getattr__(self, k):
        return getattr(threading, k)


_TARGETS = {}
_PROXY = {}


def _targets(by_id):
    """Names in pfrl modules that refer to the replaced objects."""
    key = len(sys.modules)
    if key not in _TARGETS:
        proxy = _ThreadingProxy()
        out = []
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == "pfrl" or name.startswith("pfrl.")):
                continue
            for k, v in list(vars(mod).items()):
                p = None
                if id(v) in by_id:
                    out.append((mod, k, by_id[id(v)]))
                elif v is threading:
                    p = proxy
                elif v is _real_Lock:
                    p = FakeLock
                elif v is threading.RLock:
                    p = FakeRLock
                elif v is threading.Event:
                    p = FakeEvent
                if p is not None:
                    out.append((mod, k, None))
                    _PROXY[(id(mod), k)] = p
        _TARGETS.clear()
        _TARGETS[key] = out
    return _TARGETS[key]


@contextlib.contextmanager
def patched(sched, threads=True):
    import multiprocessing
    import multiprocessing.context

    import torch.multiprocessing

    FakeProcess.n = 0
    names = {
        "Value": FakeValue, "Event": FakeEvent, "Lock": FakeLock, "RLock": FakeRLock, "Process": FakeProcess,
        "Pipe": fake_pipe, "Queue": FakeQueue, "SimpleQueue": FakeQueue,
    }
    saved = []
    by_id = {}
    for mod in (multiprocessing, torch.multiprocessing):
        for k, v in names.items():
            if hasattr(mod, k):
                by_id[id(getattr(mod, k))] = v
                saved.append((mod, k, getattr(mod, k)))
                setattr(mod, k, v)
    for mod, k, v in _targets(by_id):
        if v is not None or threads:
            saved.append((mod, k, getattr(mod, k)))
            setattr(mod, k, v if v is not None else _PROXY[(id(mod), k)])
    if threads:
        T = threading.Thread
        for k, v in (("start", fake_thread_start), ("join", fake_thread_join), ("is_alive", fake_thread_is_alive)):
            saved.append((T, k, getattr(T, k)))
            setattr(T, k, v)
    _S[0] = sched
    try:
        yield
    finally:
        for mod, k, v in reversed(saved):
            setattr(mod, k, v)
        try:
            sched.close()
        finally:
            _S[0] = None
