"""Controlled scheduler for real Python threads (stateless, deviation bounded).

Exactly one thread runs at a time.  Threads started by the code under test are real OS
threads, but every one of them only advances when the scheduler hands it the baton, and
hand-over happens only at scheduling points:
  * thread start / thread join / thread end, lock acquire,
  * every file-system call the interpreter audits (open, mkdir, listdir, remove, rename ...),
  * optionally every executed source line of chosen files (sys.settrace).
An execution is completely determined by its list of deviations {point index: thread id}
from the default policy, so any execution can be replayed.
"""
import builtins
import os
import sys
import threading
import _thread

_REAL_LOCK = _thread.allocate_lock
_REAL_START = threading.Thread.start
_REAL_JOIN = threading.Thread.join
_REAL_ALIVE = threading.Thread.is_alive

ACTIVE = None
AUDIT = {
    "open",
    "os.mkdir",
    "os.listdir",
    "os.scandir",
    "os.remove",
    "os.rename",
    "os.rmdir",
    "shutil.copyfile",
    "pathlib.Path.glob",
}


class Divergence(Exception):
    pass


class Deadlock(Exception):
    pass


class _T:
    __slots__ = ("id", "lock", "done", "waiting", "exc", "name", "thread")

    def __init__(self, id_, name, thread=None):
        self.id = id_
        self.lock = _REAL_LOCK()
        self.lock.acquire()
        self.done = False
        self.waiting = None  # callable -> True when it may run
        self.exc = None
        self.name = name
        self.thread = thread


def _audit(event, args):
    s = ACTIVE
    if s is None or event not in AUDIT:
        return
    if s.path_filter is not None and args:
        a = args[0]
        if isinstance(a, (bytes, os.PathLike)):
            a = os.fsdecode(a)
        if not isinstance(a, str) or not a.startswith(s.path_filter):
            return
    elif args and isinstance(args[0], int):
        return
    s.point("%s" % event)


_HOOKED = False


class Sched:
    """policy 'lazy': a started thread waits until main blocks.
    policy 'eager': a started thread runs to completion at its start."""

    def __init__(self, deviations=None, policy="lazy", path_filter=None, trace_files=(), max_points=200000):
        self.dev = dict(deviations or {})
        self.policy = policy
        self.path_filter = path_filter
        self.trace_files = tuple(trace_files)
        self.points = []  # (running id, [enabled ids], chosen id, tag)
        self.threads = []
        self.current = None
        self.by_ident = {}
        self.max_points = max_points
        self.log = []
        self.off = 0
        self.abandoned = []

    # ---------------------------------------------------------- running
    def run(self, fn):
        global ACTIVE, _HOOKED
        if not _HOOKED:
            sys.addaudithook(_audit)
            _HOOKED = True
        main = _T(0, "main")
        self.threads = [main]
        self.current = main
        self.by_ident = {_thread.get_ident(): main}
        patches = self._patch()
        ACTIVE = self
        oldtrace = sys.gettrace()
        if self.trace_files:
            sys.settrace(self._tracer)
        try:
            try:
                return fn()
            finally:
                sys.settrace(oldtrace)
                # let every remaining thread finish (default order)
                self._drain()
        finally:
            ACTIVE = None
            self._unpatch(patches)
            if any(d > len(self.points) for d in self.dev):
                raise Divergence("deviation beyond the end of the execution")

    def _drain(self):
        me = self.by_ident.get(_thread.get_ident())
        # a daemon thread still running here is killed when the command exits
        self.abandoned = [t.name for t in self.threads if not t.done and t.thread is not None and t.thread.daemon]
        while True:
            others = [t for t in self.threads if not t.done and t is not me]
            if not others:
                return
            me.waiting = lambda: all(t.done for t in self.threads if t is not me)
            self._switch(me, "drain")
            me.waiting = None

    # ---------------------------------------------------------- scheduling
    def _enabled(self):
        return [t for t in self.threads if not t.done and (t.waiting is None or t.waiting())]

    def point(self, tag, prefer=None):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or me is not self.current or self.off:
            return
        self._switch(me, tag, prefer)

    def _switch(self, me, tag, prefer=None):
        """me offers the baton; returns when me is chosen again."""
        en = self._enabled()
        if not en:
            raise Deadlock("no thread can run at %s: %s" % (tag, [t.name for t in self.threads if not t.done]))
        idx = len(self.points)
        if idx >= self.max_points:
            raise Deadlock("horizon of %d scheduling points exceeded" % self.max_points)
        if prefer is not None and prefer in en:
            default = prefer
        elif me in en and not me.done:
            default = me
        else:
            default = en[0]
        nxt = default
        if idx in self.dev:
            want = self.dev[idx]
            m = [t for t in en if t.id == want]
            if not m:
                raise Divergence("thread %d not enabled at point %d (%s)" % (want, idx, tag))
            nxt = m[0]
        self.points.append((me.id, [t.id for t in en], default.id, nxt.id, tag))
        if nxt is me:
            return
        self.current = nxt
        nxt.lock.release()
        if not me.done:
            me.lock.acquire()

    # ---------------------------------------------------------- hooks
    def _patch(self):
        sched = self

        def start(th):
            me = sched.by_ident.get(_thread.get_ident())
            target_module = getattr(getattr(th, "_target", None), "__module__", "") or ""
            if me is None or target_module.startswith(("concurrent.futures", "multiprocessing")):
                return _REAL_START(th)
            t = _T(len(sched.threads), th.name, th)
            th._vf = t
            run0 = th.run

            def run():
                sched.by_ident[_thread.get_ident()] = t
                t.lock.acquire()
                if sched.trace_files:
                    sys.settrace(sched._tracer)
                try:
                    run0()
                except BaseException as e:
                    t.exc = e
                finally:
                    sys.settrace(None)
                    t.done = True
                    # hand over; never returns to this thread
                    try:
                        sched._switch(t, "end")
                    except Deadlock:
                        main = sched.threads[0]
                        sched.current = main
                        sched.log.append("deadlock")
                        main.lock.release()
                    except Divergence as e:
                        sched.log.append("divergence %s" % e)
                        main = sched.threads[0]
                        sched.current = main
                        main.lock.release()

            th.run = run
            sched.threads.append(t)
            sched.off += 1
            try:
                _REAL_START(th)
            finally:
                sched.off -= 1
            sched.point("start:%d" % t.id, prefer=t if sched.policy == "eager" else None)

        def join(th, timeout=None):
            t = getattr(th, "_vf", None)
            me = sched.by_ident.get(_thread.get_ident())
            if t is None or me is None:
                return _REAL_JOIN(th, timeout)
            if timeout is not None:
                # the wait may give up at any moment
                if not t.done:
                    sched.point("join-timeout:%d" % t.id, prefer=t)
                return
            me.waiting = lambda: t.done
            sched._switch(me, "join:%d" % t.id)
            me.waiting = None

        def is_alive(th):
            t = getattr(th, "_vf", None)
            if t is None:
                return _REAL_ALIVE(th)
            return not t.done

        class CoopLock:
            def __init__(self):
                self._l = _REAL_LOCK()
                self._held = False

            def acquire(self, blocking=True, timeout=-1):
                me = sched.by_ident.get(_thread.get_ident())
                if me is None or ACTIVE is not sched:
                    return self._l.acquire(blocking, timeout)
                sched.point("lock")
                if self._held:
                    if not blocking:
                        return False
                    me.waiting = lambda: not self._held
                    sched._switch(me, "lock-wait")
                    me.waiting = None
                self._held = True
                return True

            def release(self):
                if self._held:
                    self._held = False
                    sched.point("unlock")
                else:
                    self._l.release()

            def locked(self):
                return self._held or self._l.locked()

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        old = (threading.Thread.start, threading.Thread.join, threading.Thread.is_alive, threading.Lock)
        threading.Thread.start = start
        threading.Thread.join = join
        threading.Thread.is_alive = is_alive
        self._real_threading_lock = threading.Lock
        # only modules of the code under test see the cooperative lock
        self._lock_cls = CoopLock

        def lock_factory():
            f = sys._getframe(1)
            if "/src/" in f.f_code.co_filename and "site-packages" not in f.f_code.co_filename:
                return CoopLock()
            return old[3]()

        threading.Lock = lock_factory
        return old

    def _unpatch(self, old):
        (threading.Thread.start, threading.Thread.join, threading.Thread.is_alive, threading.Lock) = old

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.trace_files):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and ACTIVE is self:
            self.point("line:%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._line


def alternatives(points, bound_from=0):
    """All single departures from the executed choices at points >= bound_from."""
    out = []
    for i in range(bound_from, len(points)):
        running, enabled, default, chosen, tag = points[i]
        for t in enabled:
            if t != chosen:
                out.append((i, t))
    return out


class ControlledPool:
    """Stand-in for multiprocessing.pool.ThreadPool: every task is one scheduled thread."""

    def __init__(self, processes=None, *a, **k):
        self.tasks = []

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = _Result()

        def body():
            try:
                r.value = func(*args, **(kwds or {}))
                if callback:
                    callback(r.value)
            except BaseException as e:
                r.exc = e
                if error_callback and isinstance(e, Exception):
                    error_callback(e)
            r.ready_ = True

        th = threading.Thread(target=body, name=getattr(func, "__name__", "task"))
        r.thread = th
        self.tasks.append(th)
        th.start()
        return r

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        return [r.get() for r in rs]

    def starmap(self, func, iterable, chunksize=None):
        rs = [self.apply_async(func, tuple(x)) for x in iterable]
        return [r.get() for r in rs]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        for t in self.tasks:
            t.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.join()


class _Result:
    def __init__(self):
        self.value = None
        self.exc = None
        self.ready_ = False
        self.thread = None

    def get(self, timeout=None):
        self.thread.join()
        if self.exc is not None:
            raise self.exc
        return self.value

    def wait(self, timeout=None):
        self.thread.join()

    def ready(self):
        return self.ready_

    def successful(self):
        return self.ready_ and self.exc is None
