"""Controlled runtime: deterministic scheduling of real Python threads and
event loops in virtual time.

Importing this module replaces, for the whole process, the blocking primitives
(`threading` locks/threads, `time`, `queue.SimpleQueue`, `fcntl.flock`,
`os.open/close`) by versions that behave exactly as the originals from ordinary
threads, but hand control to the scheduler of the running `Sim` from managed
threads.  It must be imported before asyncio and concurrent.futures.
"""
import sys

for _m in ('asyncio', 'concurrent.futures', 'queue', 'logging'):
    if _m in sys.modules:
        raise ImportError(f'vf.sim must be imported before {_m}')

import _thread
import threading
import time as _time_mod
import os as _os
import zlib

_real_lock = _thread.allocate_lock
_get_ident = _thread.get_ident
_real_start = threading._start_new_thread
_real_time = _time_mod.time
_real_monotonic = _time_mod.monotonic
_real_perf = _time_mod.perf_counter
_real_sleep = _time_mod.sleep

BASE = 1000.0   # virtual clocks start here
CLOCK = ()      # of the next execution: (time, step of time.time())
clock_steps = 0     # that came to pass
FINE = False    # preemption also within the lines of the next execution
fine_points = 0
DEEP = False    # preemption also within the plumbing of asyncio
deep_points = 0
LOOP_MODE = None    # of the loops made: None, 'debug' or 'eager'


class SimAbort(SystemExit):
    """Unwinds managed threads once an execution is over."""


_sim = None            # the running Sim, if any
_managed = {}          # thread ident -> MThread


def current():
    """The managed thread running this code, or None."""
    if _sim is None:
        return None
    return _managed.get(_get_ident())


def now():
    """Virtual time of the running execution (0-based)."""
    return _sim.now - BASE


def point():
    mt = current()
    if mt is not None:
        _sim.point(mt)


class MThread:
    __slots__ = ('idx', 'name', 'baton', 'ready', 'key', 'deadline', 'woken',
                 'finished', 'prio', 'spins', 'aborts', 'ident', 'atomic',
                 'started', 'run_len', 'lines', 'thread')

    def __init__(self, idx, name):
        self.idx = idx
        self.name = name
        self.baton = _real_lock()
        self.baton.acquire()
        self.ready = True
        self.key = None
        self.deadline = None
        self.woken = False
        self.finished = False
        self.prio = 0.0
        self.spins = 0
        self.aborts = 0
        self.ident = None
        self.thread = None
        self.atomic = 0
        self.started = False
        self.run_len = 0
        self.lines = 0


class Sim:
    """One controlled execution.

    sched: dict describing the schedule
        kind 'none'                    switch only when blocked
        kind 'rw', p, seed             preempt with probability p
        kind 'pct', points, seed       priorities + change points
        kind 'pre', points, seed       preempt only at the listed decisions
        kind 'rr', q                   round robin, quantum q
    """

    def __init__(self, sched=None, max_steps=2_000_000, live_steps=150_000,
                 horizon=1e7):
        import random
        self.sched = sched or {'kind': 'none'}
        self.kind = self.sched['kind']
        self.rng = random.Random(self.sched.get('seed', 0))
        self.points = set(self.sched.get('points', ()))
        self.p = self.sched.get('p', 0.0)
        self.q = self.sched.get('q', 1)
        self.now = BASE
        self.horizon = BASE + horizon
        self.threads = []
        self.alive = []
        self.steps = 0
        self.decisions = 0
        self.switches = 0
        self.preemptions = 0
        self.since_advance = 0
        self.max_steps = max_steps * (10 if DEEP else 1)
        self.live_steps = live_steps * (10 if DEEP else 1)
        self.digest = 0
        self.aborting = False
        self.verdict = None       # None | 'deadlock' | 'livelock' | 'steps' | 'horizon'
        self.done_lock = _real_lock()
        self.done_lock.acquire()
        self.cur = None
        self.over = False
        self.thread_errors = []
        self.double_run = []      # loops found being run by two threads
        self.loop_errors = []
        self.faults = None        # callable(kind) -> exception | None
        self.wall = 0.0           # offset of time.time() (clock steps)
        self.fine = FINE          # preempt within lines, too
        self.fine_points = 0
        self.deep = DEEP          # preempt within Python's own plumbing, too
        self.deep_points = 0
        self.clock = [(BASE + t, d) for t, d in CLOCK]
        self.sys_calls = {}
        self.low = 0.0
        self.blocked_report = None
        self.leaked = 0
        self.on_loop = None       # callable(loop) at creation of a DetLoop
        self.on_line = None       # callable() before each line of the package

    # -- running ---------------------------------------------------------
    def run(self, fn, wall=60.0):
        """Run fn() in a managed thread until it and all threads it left
        runnable are done.  Returns fn's result; raises its exception."""
        global _sim, clock_steps, fine_points, deep_points
        assert _sim is None
        box = []

        def main():
            try:
                box.append((True, fn()))
            except SimAbort:
                box.append((False, None))
            except BaseException as e:       # noqa: harness error
                box.append((False, e))

        _sim = self
        try:
            mt = self._spawn(main, (), 'main', is_main=True)
            self.cur = mt
            mt.baton.release()
            if not self.done_lock.acquire(timeout=wall):
                self.verdict = 'wall'
                self.over = True
                raise WallClock('execution exceeded the wall-clock watchdog')
            self._unwind()
        finally:
            self.over = True
            _sim = None
            fine_points += self.fine_points
            deep_points += self.deep_points
            clock_steps += sum(t <= self.now for t, _ in self.clock)
            for mt in self.threads:
                if mt.ident is not None:
                    _managed.pop(mt.ident, None)
        ok, val = box[0] if box else (False, None)
        if ok:
            return val
        if val is not None and self.verdict is None:
            raise val
        return None

    def _spawn(self, func, args, name, is_main=False):
        mt = MThread(len(self.threads), name)
        mt.prio = self.rng.random() + 1.0
        self.threads.append(mt)
        self.alive.append(mt)

        def boot():
            mt.ident = _get_ident()
            _managed[mt.ident] = mt
            mt.baton.acquire()
            mt.started = True
            try:
                if not self.aborting:
                    func(*args)
            except SimAbort:
                pass
            except BaseException as e:   # noqa
                if not self.aborting:
                    self.thread_errors.append((mt.name, repr(e)))
            finally:
                _managed.pop(mt.ident, None)
                self._finish(mt, is_main)

        _real_start(boot, ())
        return mt

    def _finish(self, mt, is_main):
        mt.finished = True
        mt.ready = False
        if mt in self.alive:
            self.alive.remove(mt)
        self.wake(('join', mt))
        if self.aborting:
            self.done_lock.release()     # hand control to _unwind
            return
        if is_main:
            self._stop(None)
            return
        nxt = self._pick_blocking()
        if nxt is None:
            return                        # _stop was called
        self._hand(nxt)

    def _stop(self, verdict):
        """End of the execution: give control to run()."""
        if verdict and not self.verdict:
            self.verdict = verdict
        if not self.aborting:
            self.blocked_report = [
                (t.name, 'ready' if t.ready else repr(t.key)[:60])
                for t in self.alive]
        self.aborting = True
        self.done_lock.release()

    def _unwind(self):
        """Called by run(): unwind every remaining thread, one at a time."""
        for mt in list(self.alive):
            tries = 0
            while not mt.finished and tries < 1:
                tries += 1
                self.cur = mt
                mt.baton.release()
                if not self.done_lock.acquire(timeout=20.0):
                    self.leaked += 1
                    break

    # -- scheduling ------------------------------------------------------
    def _abort(self, mt):
        mt.aborts += 1
        if mt.aborts > 3000:              # swallows the abort: park for ever
            self.leaked += 1
            self.done_lock.release()
            mt.finished = True
            _real_lock_forever()
        raise SimAbort()

    def point(self, mt):
        """A potential preemption point of the running thread."""
        if self.aborting:
            if self.cur is mt:
                self._abort(mt)
            return
        if mt.atomic:
            return
        self.steps += 1
        self.since_advance += 1
        if self.since_advance > self.live_steps or self.steps > self.max_steps:
            self._stop('livelock' if self.since_advance > self.live_steps
                       else 'steps')
            self._parked(mt)
            return
        if len(self.alive) == 1:
            return
        others = [t for t in self.alive if t.ready and t is not mt]
        if not others:
            return
        self.decisions += 1
        nxt = self._choose(mt, others)
        if nxt is not mt:
            self.preemptions += 1
            self._switch(mt, nxt)

    def _choose(self, mt, others):
        k = self.kind
        mt.run_len += 1
        if k == 'rw':
            if self.rng.random() < self.p or mt.run_len > 4000:
                mt.run_len = 0
                return others[self.rng.randrange(len(others))]
            return mt
        if k == 'pct':
            if self.decisions in self.points or mt.run_len > 2500:
                self.low -= 1.0
                mt.prio = self.low
            best = mt
            for t in others:
                if t.prio > best.prio:
                    best = t
            if best is not mt:
                mt.run_len = 0
            return best
        if k == 'pre':
            if self.decisions in self.points or mt.run_len > 2500:
                mt.run_len = 0
                return others[self.rng.randrange(len(others))]
            return mt
        if k == 'rr':
            if mt.run_len >= self.q:
                mt.run_len = 0
                i = mt.idx
                return min(others, key=lambda t: (t.idx - i) % 1000)
            return mt
        if mt.run_len > 2500:
            mt.run_len = 0
            return others[0]
        return mt

    def _pick_blocking(self):
        """Next thread to run when the current one cannot: advances time."""
        while True:
            ready = [t for t in self.alive if t.ready]
            if ready:
                if len(ready) == 1:
                    return ready[0]
                self.decisions += 1
                if self.kind in ('rw', 'pre'):
                    return ready[self.rng.randrange(len(ready))]
                if self.kind == 'pct':
                    return max(ready, key=lambda t: t.prio)
                return ready[0]
            nxt = None
            for t in self.alive:
                if t.deadline is not None and (nxt is None or t.deadline < nxt):
                    nxt = t.deadline
            if nxt is None:
                self._stop('deadlock')
                return None
            if nxt > self.horizon:
                self._stop('horizon')
                return None
            if nxt > self.now:
                if nxt > self.now + 1e-6:
                    self.since_advance = 0
                self.now = nxt
            for t in self.alive:
                if t.deadline is not None and t.deadline <= self.now:
                    t.ready = True
                    t.woken = False
                    t.key = t.deadline = None

    def _hand(self, nxt):
        self.cur = nxt
        self.switches += 1
        self.digest = zlib.crc32(b'%d:%d;' % (nxt.idx, self.steps), self.digest)
        nxt.baton.release()

    def _switch(self, mt, nxt):
        self._hand(nxt)
        self._parked(mt)

    def _parked(self, mt):
        mt.baton.acquire()
        if self.aborting:
            self._abort(mt)

    def block(self, mt, key, deadline=None):
        """Block the running thread until wake(key) or the deadline (absolute
        virtual time).  Returns True if woken, False on timeout."""
        if self.aborting:
            if self.cur is mt:
                self._abort(mt)
            return True
        self.steps += 1
        self.since_advance += 1
        if self.since_advance > self.live_steps:
            self._stop('livelock')
            self._parked(mt)
        mt.ready = False
        mt.key = key
        mt.deadline = deadline
        mt.woken = False
        mt.run_len = 0
        nxt = self._pick_blocking()
        if nxt is None:
            self._parked(mt)
            return False
        if nxt is not mt:
            self._switch(mt, nxt)
        return mt.woken

    def wake(self, key):
        for t in self.alive:
            if not t.ready and t.key == key:
                t.ready = True
                t.woken = True
                t.key = t.deadline = None

    def live_threads(self):
        return [t for t in self.alive]


class WallClock(Exception):
    pass


def _real_lock_forever():
    lk = _real_lock()
    lk.acquire()
    lk.acquire()


class atomic:
    """No preemption inside (harness bookkeeping)."""
    def __enter__(self):
        self.mt = current()
        if self.mt:
            self.mt.atomic += 1

    def __exit__(self, *_):
        if self.mt:
            self.mt.atomic -= 1


# -- locks ---------------------------------------------------------------
class CLock:
    """threading.Lock: real lock + scheduler-aware waiting."""
    __slots__ = ('_l', '_sim', '__weakref__')

    def __init__(self):
        self._l = _real_lock()
        self._sim = _sim

    def acquire(self, blocking=True, timeout=-1):
        mt = current()
        if mt is None:
            if self._sim is not None and self._sim.over:
                self._l.acquire(False)       # left over from a past execution
                return True
            return self._l.acquire(blocking, timeout)
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        sim = _sim
        sim.point(mt)
        if self._l.acquire(False):
            return True
        if not blocking or timeout == 0:
            return False
        if sim.aborting:
            sim._abort(mt)
        if sim.faults is not None:
            e = sim.faults('wait')           # interrupted while waiting
            if e is not None:
                raise e
        deadline = None if timeout == -1 else sim.now + timeout
        while True:
            if not sim.block(mt, self, deadline):
                return self._l.acquire(False)
            if self._l.acquire(False):
                return True

    def release(self):
        sim = _sim
        if self._sim is not None and (self._sim.over or self._sim.aborting):
            if self._l.locked():             # being unwound
                self._l.release()
            return
        self._l.release()
        if sim is not None:
            sim.wake(self)
            mt = current()
            if mt is not None and not sim.aborting:
                sim.point(mt)

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    __enter__ = acquire
    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __exit__(self, *_):
        self.release()

    def __repr__(self):
        return f'<CLock {"locked" if self._l.locked() else "free"}>'


threading._allocate_lock = CLock
threading.Lock = CLock
threading.RLock = threading._PyRLock


# -- threads -------------------------------------------------------------
def _start_new_thread(func, args, kwargs=None):
    mt = current()
    if mt is None:
        return _real_start(func, args, kwargs or {})
    name = getattr(getattr(func, '__self__', None), 'name', 'thread')
    new = _sim._spawn(lambda: func(*args, **(kwargs or {})), (), name)
    new.thread = getattr(func, '__self__', None)
    while new.ident is None:      # real thread exists; it parks on its baton
        _real_sleep(0)
    return new.ident


threading._start_new_thread = _start_new_thread
_orig_join = threading.Thread.join


def _join(self, timeout=None):
    mt = current()
    if mt is not None and self is not threading.current_thread():
        sim = _sim
        tgt = None
        for t in sim.threads:
            if t.thread is self:         # idents are reused by the system
                tgt = t
        if tgt is not None:
            sim.point(mt)
            deadline = None if timeout is None else sim.now + max(0, timeout)
            while not tgt.finished:
                if not sim.block(mt, ('join', tgt), deadline):
                    return
            return _orig_join(self)
    return _orig_join(self, timeout)


threading.Thread.join = _join


def _excepthook(args):
    if issubclass(args.exc_type, SystemExit):
        return
    if _sim is not None and not _sim.aborting:
        _sim.thread_errors.append((getattr(args.thread, 'name', '?'),
                                   repr(args.exc_value)))


threading.excepthook = _excepthook
unraisable = []


def _unraisable(args):
    if _sim is not None and not _sim.aborting:
        unraisable.append(repr(args.exc_value))
        del unraisable[:-20]


sys.unraisablehook = _unraisable


# -- time ----------------------------------------------------------------
def _vtime():
    if current() is None:
        return _real_time()
    s = _sim
    return s.now + s.wall + sum(d for t, d in s.clock if t <= s.now)


def _vmono():
    return _sim.now if current() is not None else _real_monotonic()


def _vperf():
    return _sim.now if current() is not None else _real_perf()


def _vsleep(secs):
    mt = current()
    if mt is None:
        return _real_sleep(secs)
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    sim = _sim
    if sim.faults is not None:
        e = sim.faults('sleep')
        if e is not None:
            raise e
    if secs == 0:
        mt.spins += 1
        if mt.spins < 40:
            others = [t for t in sim.alive if t.ready and t is not mt]
            if others and sim.kind != 'pct':
                sim.steps += 1
                sim.since_advance += 1
                if sim.since_advance <= sim.live_steps and not sim.aborting:
                    sim._switch(mt, others[sim.rng.randrange(len(others))])
                    return
            sim.point(mt)
            if others and sim.kind == 'pct':
                secs = 1e-7
            else:
                return
        else:
            mt.spins = 0
            secs = 1e-5
    sim.block(mt, ('sleep', mt.idx), sim.now + secs)


_time_mod.time = _vtime
_time_mod.monotonic = _vmono
_time_mod.perf_counter = _vperf
_time_mod.sleep = _vsleep
_time_mod.time_ns = lambda: int(_vtime() * 1e9)
_time_mod.monotonic_ns = lambda: int(_vmono() * 1e9)
_time_mod.perf_counter_ns = lambda: int(_vperf() * 1e9)
threading._time = _vmono

# -- files ---------------------------------------------------------------
import fcntl as _fcntl                                            # noqa: E402

_r_open, _r_close = _os.open, _os.close
_r_flock, _r_lockf = _fcntl.flock, _fcntl.lockf


def _fault(kind):
    sim = _sim
    sim.sys_calls[kind] = sim.sys_calls.get(kind, 0) + 1
    if sim.faults is not None:
        e = sim.faults(kind)
        if e is not None:
            raise e


def _c_open(*a, **k):
    mt = current()
    if mt is None:
        return _r_open(*a, **k)
    _sim.point(mt)
    _fault('open')
    return _r_open(*a, **k)


def _c_close(fd):
    mt = current()
    if mt is None:
        return _r_close(fd)
    sim = _sim
    if not sim.aborting:
        sim.point(mt)
    _r_close(fd)
    sim.wake('flock')
    _fault('close')


def _locker(real):
    def lock(fd, op, *a):
        mt = current()
        if mt is None:
            return real(fd, op, *a)
        sim = _sim
        if not sim.aborting:
            sim.point(mt)
        if op & _fcntl.LOCK_UN:
            _fault('unlock')
            r = real(fd, op, *a)
            sim.wake('flock')
            return r
        _fault('lock')
        if op & _fcntl.LOCK_NB:
            return real(fd, op, *a)
        while True:
            try:
                return real(fd, op | _fcntl.LOCK_NB, *a)
            except BlockingIOError:
                sim.block(mt, 'flock')
    return lock


_os.open, _os.close = _c_open, _c_close
_fcntl.flock, _fcntl.lockf = _locker(_r_flock), _locker(_r_lockf)

# -- stdlib built on the above -------------------------------------------
import queue                                                      # noqa: E402
queue.SimpleQueue = queue._PySimpleQueue
import logging                                                    # noqa: E402
import warnings                                                   # noqa: E402
import concurrent.futures.thread                                  # noqa: E402
import asyncio                                                    # noqa: E402
import asyncio.base_events as _be                                 # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')


class _Selector:
    def __init__(self, loop):
        self.loop = loop
        self.flag = False

    def select(self, timeout=None):
        if self.loop._closed:
            raise ValueError('I/O operation on closed epoll object')
        mt = current()
        if mt is None:
            if _sim is None and self.flag is False and timeout is None:
                raise RuntimeError('DetLoop would block outside an execution')
            self.flag = False
            return ()
        sim = _sim
        if sim.aborting:
            sim._abort(mt)
        if self.flag or timeout == 0:
            self.flag = False
            sim.point(mt)
            self.flag = False
            return ()
        deadline = None if timeout is None else sim.now + max(0.0, timeout)
        sim.block(mt, self, deadline)
        self.flag = False
        return ()

    def close(self):
        pass


class DetLoop(_be.BaseEventLoop):
    """A real asyncio loop whose waiting is done by the scheduler."""
    count = 0

    def __init__(self):
        super().__init__()
        DetLoop.count += 1
        self.serial = DetLoop.count
        self._selector = _Selector(self)
        self.on_run = None      # callables for the harness
        self.on_stop = None
        self.runs = 0
        self.run_threads = []
        self.set_exception_handler(self._handler)
        if LOOP_MODE == 'debug':
            self.set_debug(True)
        elif LOOP_MODE == 'eager':
            self.set_task_factory(asyncio.eager_task_factory)
        if _sim is not None and _sim.on_loop is not None:
            _sim.on_loop(self)

    def _handler(self, loop, ctx):
        if _sim is not None:
            _sim.loop_errors.append((ctx.get('message'),
                                     repr(ctx.get('exception'))))

    def time(self):
        return _vmono()

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self._selector.flag = True
        sim = _sim
        if sim is not None:
            sim.wake(self._selector)

    def call_soon_threadsafe(self, callback, *args, context=None):
        point()
        h = super().call_soon_threadsafe(callback, *args, context=context)
        point()
        return h

    def run_forever(self):
        point()
        me = _get_ident()
        try:
            return super().run_forever()
        finally:
            if self._runner == me and self._thread_id is None:
                self._runner = None
                if self.on_stop:
                    self.on_stop(self)
            point()

    _runner = None

    def _check_running(self):
        super()._check_running()
        point()               # the window between this check and the run

    def _run_once(self):
        if self._runner is not None and self._runner != _get_ident() and \
                _sim is not None:
            _sim.double_run.append(self.serial)
        if self._runner is None:
            self._runner = self._thread_id
            self.runs += 1
            self.run_threads.append(self._runner)
            if self.on_run:
                self.on_run(self)
        super()._run_once()

    def is_running(self):
        r = super().is_running()
        point()
        return r

    def is_closed(self):
        return self._closed

    def close(self):
        point()
        super().close()

    def __del__(self):
        pass


class DetPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = DetLoop

    def get_child_watcher(self):
        raise NotImplementedError


asyncio.set_event_loop_policy(DetPolicy())


def real_now():
    return _real_monotonic()


def real_sleep(s):
    _real_sleep(s)
