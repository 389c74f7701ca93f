"""Shared pieces of the property harnesses."""
from . import sim, load
import asyncio as aio
import time

EPS = 1e-6


class HarnessBug(Exception):
    pass


def execute(fn, sched=None, wall=90.0, **kw):
    """Run fn() under the controlled runtime.  Returns (Sim, result)."""
    s = sim.Sim(sched or {'kind': 'none'}, **kw)
    r = s.run(fn, wall=wall)
    return s, r


def judge_end(s, out, what='call'):
    """Translate the runtime's verdict; True if the execution ran to its end."""
    if s.verdict is None:
        return True
    if s.verdict in ('deadlock', 'livelock', 'horizon'):
        return False
    out.inconclusive = f'{s.verdict} after {s.steps} steps'
    return False


def stats(s, out):
    out.counts['steps'] += s.steps
    out.counts['thread_switches'] += s.switches
    out.counts['preemptions'] += s.preemptions


def outcome(coro_or_exc):
    raise NotImplementedError


class AlwaysEq:
    """Equal to everything."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__

    def __repr__(self):
        return 'AlwaysEq'


class OddExc(Exception):
    """False, equal to everything, and not to be built from its arguments."""
    def __init__(self, tag, *, _only_here=False):
        if not _only_here:
            raise TypeError('rebuilt')
        super().__init__(tag)

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


def odd(tag):
    return OddExc(tag, _only_here=True)


class EqRaises:
    def __eq__(self, other):
        raise RuntimeError('compared')

    __ne__ = __eq__
    __hash__ = object.__hash__

    def __bool__(self):
        raise RuntimeError('truth value taken')

    def __repr__(self):
        return 'EqRaises'


class Aw:
    """A value that must not be awaited, called, iterated, entered or closed."""
    def _no(self, *a, **k):
        raise RuntimeError('the value was used')

    __await__ = __call__ = __iter__ = __aiter__ = __enter__ = __aenter__ = _no
    __len__ = __next__ = __anext__ = __getitem__ = set_result = result = close = _no
    __hash__ = None

    def __repr__(self):
        return 'Aw'


ODD = [Aw, AlwaysEq, EqRaises, list, dict, lambda: NotImplemented, lambda: ValueError,
       lambda: StopIteration('value'), lambda: aio.CancelledError('value'), lambda: (),
       lambda: (i for i in ()), lambda: len, lambda: KeyboardInterrupt('value'),
       lambda: GeneratorExit('value'), lambda: aio.TimeoutError('value')]


def odd_value(n):
    return ODD[n % len(ODD)]()


def cancel_all(loop, rounds=1):
    """What asyncio.run does at shutdown."""
    tasks = aio.all_tasks(loop)
    for t in tasks:
        t.cancel()
    return tasks


def run_paused(loop, coro, pauses, during=None):
    """run_until_complete(coro), with the loop stopped for a while: pauses is a list of
    (time, loop iterations, duration, extra); during(extra) happens while it is stopped.
    Returns the number of pauses made."""
    mt = loop.create_task(coro)

    async def until(d, y):
        if d > 1e-9:
            await aio.wait([mt], timeout=d)
        for _ in range(y):
            await aio.sleep(0)
    n = 0
    for t, y, d, extra in pauses:
        loop.run_until_complete(until(t - sim.now(), y))
        if mt.done():
            break
        n += 1
        time.sleep(d / 2)
        if during is not None:
            during(extra)
        time.sleep(d / 2)
    loop.run_until_complete(mt)
    return n
