"""Virtual time, events and cooperatively scheduled threads.

Threads of the code under test are real OS threads, but exactly one runs at a time and
only at the simulator's word: every lock operation, sleep, file, process or socket
operation (and, on request, every source line of the code under test) is a point at
which the seeded scheduler may switch.  Blocking is simulated, so "nothing runnable and
no event pending" is a deterministic deadlock verdict, not a timeout.
"""
import heapq
import sys
import threading
import _thread
import time as _time_mod

from core import HarnessError

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real = {k: getattr(threading, k) for k in (
    "_start_new_thread", "_allocate_lock", "Lock", "RLock", "_CRLock", "_set_sentinel",
    "excepthook") if hasattr(threading, k)}
_real_time = {k: getattr(_time_mod, k) for k in (
    "time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns")}


class SimExit(BaseException):
    """Unwinds a simulated thread at the end of a run."""


class Deadlock(Exception):
    pass


class StepBudget(Exception):
    pass


class SimThread:
    __slots__ = ("k", "fn", "name", "sem", "state", "result", "exc", "sentinel", "daemon",
                 "wake_ok", "deadline", "tid", "waiting_on", "inject", "behind")

    def __init__(self, k, fn, name, daemon):
        self.k, self.fn, self.name, self.daemon = k, fn, name, daemon
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = "runnable"
        self.result = self.exc = self.sentinel = None
        self.wake_ok = False
        self.deadline = None
        self.waiting_on = None
        self.inject = None
        self.behind = 0
        self.tid = len(k.threads)

    def body(self):
        self.sem.acquire()
        k = self.k
        try:
            if k.dying:
                return
            if k.tracer:
                sys.settrace(k.tracer)
            try:
                self.result = self.fn()
            except SimExit:
                pass
            except BaseException as e:  # noqa
                self.exc = e
        finally:
            sys.settrace(None)
            self.state = "done"
            if self.sentinel is not None and not k.dying:
                k._force_release(self.sentinel)
            if k.dying:
                k.dead_sem.release()
            else:
                k.ctrl.release()


class Kernel:
    def __init__(self, ch, run, switch_den=0, max_steps=2000000):
        self.ch, self.run_ = ch, run
        self.now = 0
        self.seq = 0
        self.heap = []
        self.threads = []
        self.current = None
        self.ctrl = _real_allocate()
        self.ctrl.acquire()
        self.dead_sem = _real_allocate()
        self.dead_sem.acquire()
        self.dying = False
        self.switch_den = switch_den   # preempt with probability 1/switch_den per point
        self.demote = False            # a preempted thread waits until the others are blocked
        self.steps = 0
        self.max_steps = max_steps
        self.tracer = None
        self.switches = 0
        self.sched_log = []
        self.thread_excs = []
        self.epoch = 1700000000.0
        self.idents = {}

    def trace_lines(self, prefix):
        """Make every source line of the files below prefix a preemption point."""
        k = self

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if event == "line":
                k.point("line")
            return tracer
        self.tracer = tracer

    def clock_jumps(self, span_ns):
        """Sets the wall clock forward and back now and then, as people and NTP do."""
        for _ in range(self.ch.pick((0, 0, 1, 3), "clock-jumps")):
            delta = self.ch.pick((3600., -3600., 4e7, -61., 1.), "jump")

            def jump(delta=delta):
                self.epoch += delta
                self.run_.count("fault:clock-jump")
            self.at(self.now + self.ch.draw(1000, "jump-at") * (span_ns // 1000), jump)

    # ---- events ----
    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (int(t), self.seq, fn))

    def after(self, dt, fn):
        self.at(self.now + dt, fn)

    def next_event(self):
        return self.heap[0][0] if self.heap else None

    def fire_due(self):
        n = 0
        while self.heap and self.heap[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.heap)
            fn()
            n += 1
        return n

    # ---- threads ----
    def spawn(self, fn, name="t", daemon=False):
        t = SimThread(self, fn, name, daemon)
        self.threads.append(t)
        ident = _real_start(self._boot, (t,))
        return t

    def _boot(self, t):
        self.idents[_thread.get_ident()] = t
        t.body()

    def me(self):
        return self.idents.get(_thread.get_ident())

    def runnable(self):
        return [t for t in self.threads if t.state == "runnable"]

    def _switch_out(self, t):
        """Called by sim thread t: hand control to the controller, wait to be resumed."""
        tr = sys.gettrace()
        if tr:
            sys.settrace(None)
        self.ctrl.release()
        t.sem.acquire()
        if self.dying:
            raise SimExit()
        if t.inject is not None:
            e, t.inject = t.inject, None
            raise e
        if tr:
            sys.settrace(tr)

    def point(self, tag="", force_draw=False):
        """A possible preemption point of the current simulated thread."""
        t = self.current
        if t is None or self.dying:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepBudget("step budget exhausted at %s" % tag)
        if self.switch_den and len(self.threads) > 1:
            others = [x for x in self.threads if x.state == "runnable" and x is not t
                      and x.behind <= self.steps]
            if others and self.ch.chance(1, self.switch_den, "preempt@" + tag):
                self.switches += 1
                self.run_.count("preemptions")
                if self.demote:
                    t.behind = self.steps + 3000
                self._switch_out(t)

    def block(self, waiting_on, timeout=None, ns=None):
        """Block the current thread until wake(); returns False on timeout."""
        if timeout is not None:
            ns = max(1, int(timeout * 1e9)) if timeout > 0 else 0
        t = self.current
        if t is None:
            raise HarnessError("block outside a simulated thread")
        t.state = "blocked"
        t.waiting_on = waiting_on
        t.wake_ok = False
        if ns is not None:
            tok = object()
            t.deadline = tok

            def expire():
                if t.state == "blocked" and t.deadline is tok:
                    t.state = "runnable"
                    t.deadline = None
            self.at(self.now + ns, expire)
        self._switch_out(t)
        t.waiting_on = None
        t.deadline = None
        return t.wake_ok

    def wake(self, t):
        if t.state == "blocked":
            t.state = "runnable"
            t.wake_ok = True
            t.deadline = None

    def kill(self, t, exc=None):
        """Make thread t raise exc (a kill by default) where it stands, at once."""
        if t.state == "done":
            return
        t.inject = exc or SimExit()
        if t.state == "blocked":
            t.state = "runnable"
            t.deadline = None
        while t.state == "runnable" and self.current is None:
            self.run_thread(t)

    def sleep(self, secs):
        t = self.current
        if t is None:
            self.now += int(secs * 1e9)
            return
        self.block("sleep", timeout=max(secs, 0))

    def run_thread(self, t):
        self.current = t
        t.sem.release()
        self.ctrl.acquire()
        self.current = None
        if t.state == "done" and t.exc is not None:
            self.thread_excs.append((t.name, t.exc))

    def step(self):
        """Run one runnable thread slice; False if none is runnable."""
        r = self.runnable()
        if not r:
            return False
        if self.demote and len(r) > 1:
            r = [t for t in r if t.behind <= self.steps] or r
        if len(r) == 1:
            t = r[0]
        elif self.switch_den:
            t = r[self.ch.draw(len(r), "schedule")]
        else:
            t = r[0]
        self.sched_log.append(t.tid)
        t.behind = 0
        self.run_thread(t)
        return True

    def run_threads(self):
        while self.step():
            self.fire_due()

    def run_until_done(self, main, limit_ns=None):
        """Schedule until `main` and every non-daemon thread finished."""
        while True:
            if main.state == "done" and all(
                    t.state == "done" or t.daemon for t in self.threads):
                return
            if self.step():
                self.fire_due()
                continue
            nxt = self.next_event()
            if nxt is None:
                raise Deadlock(self.describe_blocked())
            if limit_ns is not None and nxt > limit_ns:
                raise Deadlock("nothing happens until simulated time limit; " +
                               self.describe_blocked())
            self.now = max(self.now, nxt)
            self.fire_due()

    def describe_blocked(self):
        return ", ".join("%s blocked on %s" % (t.name, t.waiting_on)
                         for t in self.threads if t.state == "blocked") or "no thread left"

    def shutdown(self):
        """End of run: unwind all remaining simulated threads."""
        self.dying = True
        for t in self.threads:
            if t.state != "done":
                t.sem.release()
                self.dead_sem.acquire()

    # ---- primitives ----
    def _force_release(self, lock):
        lock._locked = False
        lock._owner = None
        if lock._waiters:
            self.wake(lock._waiters.pop(0))

    def make_lock(self):
        return SimLock(self)

    def make_rlock(self):
        return SimRLock(self)

    def install(self):
        k = self

        def start_new_thread(fn, args=(), kwargs=None):
            th = getattr(fn, "__self__", None)
            daemon = bool(getattr(th, "daemon", False))
            name = "T%d" % len(k.threads)
            t = k.spawn(lambda: fn(*args, **(kwargs or {})), name, daemon)
            k.run_.count("threads_started")
            return id(t)

        def set_sentinel():
            lock = SimLock(k)
            t = k.me()
            if t is not None:
                t.sentinel = lock
            return lock

        def excepthook(args):
            if args.exc_type is SimExit:
                return
            t = k.me()
            k.thread_excs.append((t.name if t else "?", args.exc_value))

        threading._start_new_thread = start_new_thread
        _thread.start_new_thread = start_new_thread
        threading._allocate_lock = k.make_lock
        threading.Lock = k.make_lock
        threading._CRLock = k.make_rlock
        threading.RLock = k.make_rlock
        threading._set_sentinel = set_sentinel
        threading.excepthook = excepthook
        mono = lambda: k.now / 1e9
        wall = lambda: k.epoch + k.now / 1e9
        _time_mod.time = wall
        _time_mod.monotonic = mono
        _time_mod.perf_counter = mono
        _time_mod.time_ns = lambda: int(k.epoch * 1e9) + k.now
        _time_mod.monotonic_ns = lambda: k.now
        _time_mod.sleep = k.sleep
        threading._time = mono
        for m in ("queue", "selectors", "socketserver", "subprocess"):
            mod = sys.modules.get(m)
            if mod is not None:
                if hasattr(mod, "time") and callable(mod.time):
                    mod.time = mono
                if hasattr(mod, "_time") and callable(mod._time):
                    mod._time = mono
                if hasattr(mod, "monotonic"):
                    mod.monotonic = mono

    @staticmethod
    def uninstall():
        for n, v in _real.items():
            setattr(threading, n, v)
        _thread.start_new_thread = _real_start
        for n, v in _real_time.items():
            setattr(_time_mod, n, v)
        threading._time = _real_time["monotonic"]
        for m in ("queue", "selectors", "socketserver", "subprocess"):
            mod = sys.modules.get(m)
            if mod is not None:
                if hasattr(mod, "time") and callable(mod.time):
                    mod.time = _real_time["monotonic"]
                if hasattr(mod, "_time") and callable(mod._time):
                    mod._time = _real_time["monotonic"]
                if hasattr(mod, "monotonic"):
                    mod.monotonic = _real_time["monotonic"]


class SimLock:
    def __init__(self, k):
        self._k = k
        self._locked = False
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = self._k
        k.point("lock")
        if not self._locked:
            self._locked = True
            return True
        if not blocking or k.current is None:
            return False
        if k.dying:
            raise SimExit()
        end = None if timeout is None or timeout < 0 else k.now + max(1, int(timeout * 1e9))
        while self._locked:
            t = k.current
            self._waiters.append(t)
            rem = None if end is None else max(0, end - k.now)
            ok = k.block("lock", ns=rem)
            if not ok:
                if t in self._waiters:
                    self._waiters.remove(t)
                if end is not None and k.now >= end and self._locked:
                    return False
        self._locked = True
        return True

    def release(self):
        k = self._k
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        if self._waiters:
            k.wake(self._waiters.pop(0))
        if not k.dying:
            k.point("unlock")

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self, k):
        self._k = k
        self._lock = SimLock(k)
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._lock = SimLock(self._k)
