"""Controlled scheduler for Python threads.

Real threads run one at a time.  A thread gives up control only when it blocks, when it
ends, or at a preemption point: a synchronisation operation, a raster operation or (if
asked for) a new source line reached from the code under test.  The scheduler decides who
runs next from a list of choices, so an execution is a function of that list, and
`subtree` enumerates all lists with at most a given number of deviations from the default.

install() must run before the code under test is imported; outside an execution the
replaced locks behave like the originals."""
import _thread
import gc
import os
import sys
import threading
import queue
import concurrent.futures.thread as cft

from . import common

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_ident = _thread.get_ident
_real_join = threading.Thread.join
S = None                      # the running execution
TOOL = 3
LINES, LAST = 1, 2           # modes: points at source lines; a blocked thread gives way to main or the one that ran last
HERE = os.path.abspath(__file__)
SKIP = ("threading.py", "queue.py", "contextlib.py", "gdal.py", "gdal_array.py")


class Stop(BaseException):
    """Unwinds nothing: a thread of a finished execution just parks for ever."""


class Task:
    def __init__(self, n, name):
        self.n = n
        self.name = name
        self.go = _real_lock()
        self.go.acquire()
        self.done = False
        self.wait = None       # predicate while blocked
        self.why = ""
        self.timed = False
        self.fired = False
        self.ran = 0           # when it last gave up control


class Execution:
    """One run of fn() under the list `choices` (indices into the enabled threads)."""

    def __init__(self, choices, mode=0, maxsteps=200000):
        self.choices = list(choices)
        self.mode = mode
        self.maxsteps = maxsteps
        self.tasks = []
        self.byid = {}
        self.cur = None
        self.trace = []        # (enabled, chosen, current still enabled)
        self.steps = 0
        self.end = _real_lock()
        self.end.acquire()
        self.result = None
        self.outcome = None
        self.active = True
        self.hashes = 0
        self.notes = []        # violations seen by the instrumented operations
        self.inside = {}       # raster handle -> thread using it

    # -- threads -----------------------------------------------------------
    def spawn(self, fn, args, kwargs, name):
        t = Task(len(self.tasks), name)
        self.tasks.append(t)

        def body():
            t.go.acquire()
            self.byid[_ident()] = t
            try:
                fn(*args, **(kwargs or {}))
            finally:
                t.done = True
                self.switch(t)
        real = _real_start(body, ())
        return real, t

    def me(self):
        return self.byid.get(_ident())

    def runnable(self, t):
        if t.done:
            return False
        if t.wait is None:
            return True
        return bool(t.wait())

    def switch(self, t, point=False):
        """Called by the running thread t: choose who goes on."""
        if not self.active:
            if not t.done:
                self._park()
            return
        self.steps += 1
        if self.steps > self.maxsteps:
            return self.finish("livelock", t)
        en = [x.n for x in self.tasks if self.runnable(x)]
        if not en:
            late = [x for x in self.tasks if not x.done and x.timed]
            if late:
                late[0].fired = True
                late[0].wait = None
                en = [late[0].n]
            elif all(x.done for x in self.tasks):
                return self.finish("ok", t)
            else:
                return self.finish("deadlock", t)
        still = t.n in en
        if still and not point:
            nxt = t.n
        elif len(en) == 1:
            nxt = en[0]
        else:
            if still:                        # staying is choice 0
                en = [t.n] + [x for x in en if x != t.n]
            elif self.mode & LAST:
                en.sort(key=lambda x: (x > 0, -self.tasks[x].ran))
            k = len(self.trace)
            c = self.choices[k] if k < len(self.choices) else 0
            if c >= len(en):
                return self.finish("diverged", t)
            self.trace.append((len(en), c, still))
            nxt = en[c]
        n = self.tasks[nxt]
        n.wait = None
        if n is not t:
            self.cur = n
            t.ran = self.steps
            n.go.release()
            if not t.done:
                t.go.acquire()

    def _park(self):
        l = _real_lock()
        l.acquire()
        l.acquire()

    def finish(self, what, t):
        self.active = False
        self.outcome = what
        self.end.release()
        if not t.done:
            self._park()

    def block(self, pred, why, timed=False):
        """The running thread waits until pred() holds; False if it timed out."""
        t = self.me()
        t.wait, t.why, t.timed, t.fired = pred, why, timed, False
        self.switch(t)
        t.wait = None
        t.timed = False
        return not t.fired

    def point(self):
        t = self.me()
        if t is not None and self.active and user_frame():
            self.switch(t, point=True)


def _line(code, number):
    """A thread other than the first reaches a source line."""
    if not code.co_filename.startswith(common.REPO):
        return sys.monitoring.DISABLE
    s = S
    if s is not None and s.mode & LINES and s.active:
        t = s.me()
        if t is not None and t.n > 0:
            s.switch(t, point=True)


def user_frame():
    """The operation was called by the code under test, not from inside the executor."""
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if name != HERE and os.path.basename(name) not in SKIP:
            return name.startswith(common.REPO)
        f = f.f_back
    return False


# ---------------------------------------------------------------------------
# replaced primitives

class Lock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None or not s.active or s.me() is None:
            return self._l.acquire(blocking, timeout)
        s.point()
        while True:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            if not s.block(lambda: not self._l.locked(), "lock", timed=timeout is not None and timeout >= 0):
                return False

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self._b = Lock()
        self._o = None
        self._c = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._o == me:
            self._c += 1
            return True
        ok = self._b.acquire(blocking, timeout)
        if ok:
            self._o, self._c = me, 1
        return ok

    def release(self):
        if self._o != _ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._c -= 1
        if not self._c:
            self._o = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    # for Condition
    def _release_save(self):
        st = (self._c, self._o)
        self._c, self._o = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._c, self._o = st

    def _is_owned(self):
        return self._o == _ident()


def _start_new_thread(fn, args, kwargs=None):
    s = S
    if s is None or not s.active or s.me() is None:
        return _real_start(fn, args, kwargs or {})
    owner = getattr(fn, "__self__", None)
    ident, t = s.spawn(fn, args, kwargs, getattr(owner, "name", "thread"))
    if owner is not None:
        owner._mc_task = t
    return ident


def _join(self, timeout=None):
    s = S
    t = getattr(self, "_mc_task", None)
    if s is not None and s.active and t is not None and s.me() is not None:
        if not s.block(lambda: t.done, "join", timed=timeout is not None):
            return
    _real_join(self, timeout)


def _sleep(real):
    def sleep(sec):
        s = S
        if s is not None and s.active and s.me() is not None:
            s.point()
            return
        real(sec)
    return sleep


_count = [0]


def _hash(self):
    """Sets of threads and futures must not be ordered by address."""
    h = self.__dict__.get("_mc_hash")
    if h is None:
        s = S
        if s is not None:
            s.hashes += 1
            h = s.hashes
        else:
            _count[0] -= 1
            h = _count[0]
        self.__dict__["_mc_hash"] = h
    return h


def _acquire_futures(self, futures):
    self.futures = sorted(futures, key=hash)


def install():
    import time
    from concurrent.futures import _base
    threading.Thread.__hash__ = _hash
    _base.Future.__hash__ = _hash
    _base._AcquireFutures.__init__ = _acquire_futures
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    queue.SimpleQueue = queue._PySimpleQueue
    cft.queue.SimpleQueue = queue._PySimpleQueue
    cft._global_shutdown_lock = Lock()
    time.sleep = _sleep(time.sleep)
    sys.monitoring.use_tool_id(TOOL, "scheduler")
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _line)


# ---------------------------------------------------------------------------

class Run:
    """Outcome of an execution: outcome, value/error, trace, steps, notes, stuck."""


def execute(fn, choices=(), mode=0, maxsteps=200000):
    global S
    s = Execution(choices, mode, maxsteps)
    box = {}

    def main():
        try:
            box["value"] = fn()
        except Exception as e:
            box["error"] = "%s: %s" % (type(e).__name__, e)
    gc.collect()
    gc.freeze()
    gc.disable()               # collections would run callbacks at arbitrary points
    S = s
    if mode & LINES:
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
    _, t = s.spawn(main, (), None, "main")
    s.cur = t
    t.go.release()
    s.end.acquire()
    S = None
    if mode & LINES:
        sys.monitoring.set_events(TOOL, 0)
    gc.enable()
    r = Run()
    r.outcome = s.outcome
    r.value = box.get("value")
    r.error = box.get("error")
    r.trace = s.trace
    r.steps = s.steps
    r.notes = s.notes
    r.stuck = ["%s waits for a %s" % (x.name.split("-")[-1], x.why) for x in s.tasks if not x.done]
    return r


def successors(r, given, used, bound):
    """The untried choice lists that differ from this run after the given prefix.  Every
    deviation from the default (stay, else the first enabled thread) costs one."""
    out = []
    if used < bound:
        taken = [c for _, c, _ in r.trace]
        for k in range(given, len(r.trace)):
            for alt in range(1, r.trace[k][0]):
                out.append((taken[:k] + [alt], used + 1))
    return out


def subtree(fn, prefix, used, bound, mode, judge, limit=None):
    """Explore everything below a prefix.  judge(run) -> text or None.
    (schedules, steps, points, [(text, choices)])"""
    work = [(list(prefix), used)]
    n = steps = points = 0
    while work:
        p, u = work.pop()
        r = execute(fn, p, mode)
        n += 1
        steps += r.steps
        points += len(r.trace) - len(p) + 1
        text = judge(r)
        if text:
            return n, steps, points, [(text, [c for _, c, _ in r.trace])]
        work.extend(successors(r, len(p), u, bound))
    return n, steps, points, []


# ---------------------------------------------------------------------------
# raster operations: not atomic, and one handle must not be used by two threads at once

def _key(obj):
    try:
        d = obj.GetDataset() if hasattr(obj, "GetDataset") else obj
        return int(d.this)
    except Exception:
        return id(obj)


def _guard(fn, pick):
    def op(*a, **k):
        s = S
        t = s.me() if s is not None and s.active else None
        if t is None:
            return fn(*a, **k)
        keys = [_key(o) for o in pick(*a, **k)]
        s.point()
        for x in keys:
            other = s.inside.get(x)
            if other is not None and other is not t:
                s.notes.append("two threads use one raster handle at the same time")
            s.inside[x] = t
        s.point()
        try:
            return fn(*a, **k)
        finally:
            for x in keys:
                if s.inside.get(x) is t:
                    del s.inside[x]
    return op


def install_rasters():
    from osgeo import gdal, gdal_array
    first = lambda b, *a, **k: [b]                                    # noqa: E731
    gdal_array.BandReadAsArray = _guard(gdal_array.BandReadAsArray, first)
    gdal_array.BandWriteArray = _guard(gdal_array.BandWriteArray, first)
    gdal_array.DatasetReadAsArray = _guard(gdal_array.DatasetReadAsArray, first)
    gdal_array.DatasetWriteArray = _guard(gdal_array.DatasetWriteArray, first)
    gdal.Band.FlushCache = _guard(gdal.Band.FlushCache, first)
    gdal.ReprojectImage = _guard(gdal.ReprojectImage, lambda src, dst, *a, **k: [src, dst])
