"""Batcher programs: shared by C04, C09, C10, C11 (and C15)."""
import asyncio as aio
import functools
import gc
import random
from . import sim, load
from .harness import execute, run_paused, odd_value


class Val:
    __slots__ = ('batch', 'key', 'n')

    def __init__(self, batch, key, n):
        self.batch, self.key, self.n = batch, key, n

    def __repr__(self):
        return f'Val(batch {self.batch}, key {self.key!r}, #{self.n})'


class YExc(Exception):
    """Yielded by the batch function."""


class RExc(Exception):
    """Raised by the batch function."""


class RBase(BaseException):
    pass


class EvilExc(Exception):
    """Equal to everything, falsy."""
    def __eq__(self, o):
        return True

    __hash__ = object.__hash__

    def __bool__(self):
        return False


class Call:
    __slots__ = ('i', 'key', 'arg', 'arrive', 'aseq', 'end', 'eseq', 'kind', 'obj',
                 'cancelled', 'cseq', 'ctime', 'task', 'timed')

    def __init__(self, i, key, arg):
        self.i, self.key, self.arg = i, key, arg
        self.arrive = self.aseq = self.end = self.eseq = None
        self.kind = self.obj = None
        self.cancelled = False
        self.cseq = self.ctime = None
        self.task = None
        self.timed = False

    def __repr__(self):
        return (f'call{self.i}({self.key!r}) at {self.arrive} -> {self.kind} '
                f'{self.obj!r} at {self.end}' + (f' cancelled at {self.ctime}'
                                                 if self.cancelled else ''))


class Batch:
    __slots__ = ('id', 'start', 'sseq', 'end', 'eseq', 'items', 'yields', 'raised', 'closed',
                 'loop')

    def __init__(self, id, items):
        self.id, self.items = id, items
        self.start = self.sseq = self.end = self.eseq = None
        self.yields = []       # (key, obj, seq, time)
        self.raised = None
        self.closed = False
        self.loop = None

    @property
    def keys(self):
        return [k for k, _ in self.items]

    def __repr__(self):
        return (f'batch{self.id} {self.items} {self.start}-{self.end} '
                f'yields={[(k, round(t, 4)) for k, _, _, t in self.yields]} '
                f'raised={self.raised!r}')


class Trace:
    def __init__(self):
        self.calls = []
        self.batches = []
        self.seq = 0
        self.running = 0
        self.max_running = 0
        self.run_log = []      # (time, running)
        self.sim = None
        self.bad_args = []
        self.mutations = []    # (time, mbs)
        self.paused = 0
        self.spawn = None      # make a further call from inside the batch function
        self.twin = None       # the trace of another batcher in the same program

    def all(self):
        return [self] if self.twin is None else [self, self.twin]

    def next(self):
        self.seq += 1
        return self.seq

    def lines(self):
        return [repr(b) for b in self.batches] + [repr(c) for c in self.calls]


def keyof(call):
    return str(call['arg']) if call.get('key') is None else call['key']


def cancel_call(c, tr):
    if c.task is not None and not c.task.done():
        c.task.cancel()
        if not c.cancelled:
            c.cancelled = True
            c.ctime, c.cseq = sim.now(), tr.next()


def make_func(spec, tr, label=None):
    """The harness-owned batch function."""
    occ = {}
    rng = random.Random(spec.get('fseed', 0))
    durs = spec.get('dur') or [0]

    async def sleep(d):
        if d is None:
            return
        await aio.sleep(d)

    def cut(when, k):
        """Cancel callers from inside the batch function (exact instants)."""
        for i, w in spec.get('fc', ()):
            if w == when and i < len(tr.calls):
                c = tr.calls[i]
                if (k is None or c.key == k) and c.arrive is not None:
                    cancel_call(c, tr)

    def begin(batch):
        items = list(batch)
        b = Batch(len(tr.batches), items)
        b.start, b.sseq = sim.now(), tr.next()
        if not spec.get('noloop'):
            b.loop = aio.get_running_loop()
        for it in items:
            if not (isinstance(it, tuple) and len(it) == 2):
                tr.bad_args.append(repr(it))
        tr.batches.append(b)
        tr.running += 1
        tr.max_running = max(tr.max_running, tr.running)
        tr.run_log.append((b.start, tr.running))
        return b

    async def body(b):
        try:
            cut('start', None)
            await sleep(spec.get('pre'))
            items = list(b.items)
            if spec.get('order') == 'rev':
                items.reverse()
            elif spec.get('order') == 'shuf':
                rng.shuffle(items)
            for j, (k, a) in enumerate(items):
                n = occ[k] = occ.get(k, 0) + 1
                bl = spec['beh'].get(k, ['v'])
                be = bl[(n - 1) % len(bl)]
                await sleep(durs[(b.id + j) % len(durs)])
                cut('before', k)
                if be == 'omit':
                    continue
                if be == 'raise':
                    e = {'exc': lambda: RExc(b.id), 'cancel': lambda: aio.CancelledError(),
                         'base': lambda: RBase(b.id), 'key': lambda: KeyError(k),
                         'stop': lambda: RExc(b.id), 'inv': lambda: aio.InvalidStateError(),
                         'value': lambda: ValueError('x'),
                         'timeout': lambda: TimeoutError('t')}[spec.get('rk', 'exc')]()
                    b.raised = (e, tr.next())
                    raise e
                obj = {'v': lambda: Val(b.id, k, n), 'x': lambda: YExc(b.id, k, n),
                       'vnone': lambda: None, 'vfalse': lambda: False,
                       'evil': lambda: EvilExc(b.id, k), 'twice': lambda: Val(b.id, k, n),
                       'twicex': lambda: YExc(b.id, k, n),
                       'unk': lambda: Val(b.id, k, n), 'kerr': lambda: KeyError(k),
                       'base': lambda: RBase(b.id, k), 'terr': lambda: TimeoutError(k),
                       'stop': lambda: StopIteration(k),
                       'vodd': lambda: odd_value(spec.get('fseed', 0) + n),
                       'vodd2': lambda: odd_value((spec.get('fseed', 0) + n) % 5),
                       'cls': lambda: ValueError}[be]()
                if be == 'unk':
                    b.yields.append((f'?{k}', 'unknown', tr.next(), sim.now()))
                    yield f'?{k}', 'unknown'
                b.yields.append((k, obj, tr.next(), sim.now()))
                yield k, obj
                cut('after', k)
                if tr.spawn and n == 1:
                    for after, arg, key in spec.get('nest', ()):
                        if after == k:
                            tr.spawn({'arg': arg, 'key': key})
                if be.startswith('twice'):
                    obj = Val(b.id, k, n)
                    b.yields.append((k, obj, tr.next(), sim.now()))
                    yield k, obj
            await sleep(spec.get('post'))
        except GeneratorExit:
            b.closed = True
            raise
        finally:
            b.end = sim.now() if sim._sim is not None else None
            b.eseq = tr.next()
            tr.running -= 1
            if b.end is not None:
                tr.run_log.append((b.end, tr.running))

    kind = spec.get('fkind', 'gen')
    if kind == 'iter':
        def func(batch):
            b = begin(batch)
            g = body(b)

            class It:
                def __aiter__(self):
                    return self

                def __anext__(self):
                    return g.__anext__()
            return It()
    elif kind == 'syncraise':
        def func(batch):
            b = begin(batch)
            g = body(b)
            if b.id % 2 == 0:
                e = RExc(b.id)
                b.raised = (e, tr.next())
                b.end = sim.now()
                b.eseq = tr.next()
                tr.running -= 1
                tr.run_log.append((b.end, tr.running))
                raise e
            return g
    else:
        async def func(batch):
            b = begin(batch)
            async for x in body(b):
                yield x
        if kind == 'partial':
            async def two(extra, batch, *, kw):
                b = begin(batch)
                async for x in body(b):
                    yield x
            return functools.partial(two, 0, kw=1)
        if kind in ('obj', 'method'):
            # a callable without a name of its own / a bound method
            class Service:
                __slots__ = ()

                def __call__(self, batch):
                    return func(batch)

                async def fetch(self, batch):
                    async for x in func(batch):
                        yield x
            return Service() if kind == 'obj' else Service().fetch
    return func


async def drive(spec, tr, batched, t0=0.0):
    """Make the calls of the program on the running loop; wait for them."""
    loop = aio.get_running_loop()
    tasks = []

    async def one(c, sp):
        if sp.get('pc'):                 # its task survived a cancellation before
            aio.current_task().cancel()
            try:
                await aio.sleep(0)
            except aio.CancelledError:
                pass
        c.arrive, c.aseq = sim.now(), tr.next()
        kw = {} if sp.get('key') is None else {'key': sp['key']}
        try:
            if sp.get('wf') is not None:
                c.timed = True
                r = await aio.wait_for(batched(sp['arg'], **kw), sp['wf'])
            else:
                r = await batched(sp['arg'], **kw)
            c.kind, c.obj = 'ret', r
        except sim.SimAbort:
            raise
        except BaseException as e:
            if c.kind == 'hang':         # the harness gave up on it
                return
            c.kind, c.obj = 'exc', e
        c.end, c.eseq = sim.now(), tr.next()

    def spawn(sp):
        c = Call(len(tr.calls), keyof(sp), sp['arg'])
        tr.calls.append(c)
        c.task = loop.create_task(one(c, sp))
        tasks.append(c.task)
    tr.spawn = spawn

    evs = []
    for i, sp in enumerate(spec['calls']):
        c = Call(i, keyof(sp), sp['arg'])
        tr.calls.append(c)
        evs.append((sp['t'], i * 2, sp.get('y', 0), 'call', c, sp))
        if sp.get('cancel') is not None:
            evs.append((sp['cancel'], i * 2 + 1, sp.get('cy', 0), 'cancel', c, sp))
    for t, mbs in spec.get('mutate', ()):
        evs.append((t, -1, 0, 'mut', None, mbs))
    evs.sort(key=lambda e: e[:2])
    # one driver per event: same-instant order is by creation, shifted
    # by y extra loop iterations
    tr.mutations.append((0.0, spec['mbs']))
    for t, _, y, kind, c, sp in evs:
        d = t0 + t - sim.now()
        if d > 1e-9:
            await aio.sleep(d)
        for _ in range(y):
            await aio.sleep(0)
        if kind == 'call':
            c.task = loop.create_task(one(c, sp))
            tasks.append(c.task)
        elif kind == 'cancel':
            cancel_call(c, tr)
        else:
            batched.max_batch_size = sp
            tr.mutations.append((sim.now(), sp))
        if spec.get('gc') and kind == 'call':
            gc.collect()
    if spec.get('leave') is not None:
        await aio.sleep(spec['leave'])
        tr.spawn = None
        return
    n = -1
    while n != len(tasks):
        n = len(tasks)
        if tasks:
            await aio.wait(list(tasks), timeout=50000)
    tr.spawn = None
    for c in tr.calls:
        if c.task is not None and not c.task.done():
            c.kind = 'hang'
            c.task.cancel()
    await aio.sleep(0)


def run_program(spec, factory=None):
    """Execute the program; returns its Trace."""
    tr = Trace()

    def scen():
        m = load.fresh('asyncio')

        async def main():
            func = make_func(spec, tr)
            if spec.get('twin'):
                tr.twin = Trace()
                func2 = make_func(spec, tr.twin)
                try:
                    func2.__name__, func2.__qualname__ = func.__name__, func.__qualname__
                except AttributeError:
                    pass
            opts = dict(max_batch_size=spec['mbs'], max_concurrent_batches=spec['mcb'],
                        batch_timeout=spec['bt'], retention_timeout=spec['rt'])
            def make(f):
                if factory is not None:
                    return factory(m, f, opts)
                if spec.get('form') == 'deco':
                    return m.async_background_batcher(f, **opts)
                return m.AsyncBackgroundBatcher(f, **opts)
            batched = make(func)
            if tr.twin is None:
                await drive(spec, tr, batched)
                return
            t0 = sim.now()
            await aio.gather(drive(spec, tr, batched, t0),
                             drive(spec, tr.twin, make(func2), t0))

        loop = aio.new_event_loop()
        try:
            tr.paused = run_paused(loop, main(), spec.get('pauses') or ())
        finally:
            for t in aio.all_tasks(loop):
                t.cancel()
            loop.close()

    tr.sim, _ = execute(scen)
    if tr.twin is not None:
        tr.twin.sim = tr.sim
    return tr


def widen(p, rng):
    """The program with many calls."""
    n = rng.choice([40, 90, 300, 600])
    keys = rng.choice([n, n, max(2, n // 3)])
    gap = rng.choice([0, 0, p['bt'] / 40])
    every = rng.choice([n, 7, 50])
    t, calls = 0.0, []
    for j in range(n):
        if j and j % every == 0:
            t += rng.choice([0.5, 1.2, 3]) * p['bt']
        t += gap
        calls.append({'t': round(t, 9), 'arg': j % keys, 'key': None, 'y': 0})
    beh = list(p['beh'].values()) or [['v']]
    return dict(p, calls=calls, mbs=rng.choice([1, 7, 64, 256, 600, 1000]),
                mcb=rng.choice([1, 3, 5, 12]), dur=[None], wide=n, mutate=[], fc=[],
                beh={str(k): rng.choice(beh) for k in range(keys)})


def pause(p, rng):
    """The program on a loop that is stopped for a while now and then."""
    bt = p['bt'] or .1
    ts = [c['t'] for c in p['calls']]
    p['pauses'] = sorted(
        [round(rng.choice(ts) + rng.choice([0, 0, .5, .999, 1, 1, 1.001, 1.3, 1.6, 2, 4]) * bt, 9),
         rng.choice([0, 0, 1, 2, 3, 5]), rng.choice([0, .5, 1, 2, 50]) * bt, None]
        for _ in range(rng.choice([1, 1, 2, 4])))
    return p


def stretch(p, rng):
    """The program with a very long quiet time somewhere."""
    k, gap = rng.randrange(len(p['calls'])), rng.choice([400.0, 4000.0, 1e5, 1e6])
    t0 = p['calls'][k]['t']
    return dict(p, calls=[dict(c, t=c['t'] + gap) if c['t'] >= t0 else c for c in p['calls']])


def check_end(tr, o):
    """The execution itself ended properly?"""
    v = tr.sim.verdict
    if v in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{v}: {tr.sim.blocked_report}; ' + '; '.join(tr.lines())[:800])
        return False
    if v:
        o.inconclusive = v
        return False
    return True


def explain(c, tr):
    """None if call c's outcome is one its own key produced, else why not."""
    if c.kind == 'hang':
        return 'hang', 'never completed'
    mine = [b for b in tr.batches if c.key in b.keys]
    for b in mine:
        for k, obj, _, _ in b.yields:
            if k == c.key and obj is c.obj:
                if (c.kind == 'exc') == isinstance(obj, Exception):
                    return None
                return 'wrong-form', f'{obj!r} was yielded but {c.kind} happened'
    if c.kind == 'ret':
        for b in tr.batches:
            for k, obj, _, _ in b.yields:
                if obj is c.obj:
                    return 'foreign', f'got {obj!r}, yielded for key {k!r} by batch {b.id}'
        return 'made-up', f'got {c.obj!r}, which was never yielded'
    for b in tr.batches:
        for k, obj, _, _ in b.yields:
            if obj is c.obj:
                return 'foreign', f'raised {obj!r}, yielded for key {k!r} by batch {b.id}'
        if b.raised and b.raised[0] is c.obj:
            if c.key not in b.keys:
                return 'foreign', f'raised {c.obj!r} of batch {b.id}, which did not carry it'
            if any(k == c.key and s < b.raised[1] for k, _, s, _ in b.yields):
                return 'answered-then-failed', (
                    f'batch {b.id} had yielded its result before raising {c.obj!r}')
            return None
    for b in mine:
        ys = [obj for k, obj, _, _ in b.yields if k == c.key]
        if not ys and b.end is not None and not b.raised:
            return None                # never yielded: any error will do
        if ys and isinstance(ys[0], StopIteration):
            return None                # cannot be raised from a coroutine as is
        if not ys and b.raised and not isinstance(b.raised[0], Exception):
            return None
    return 'made-up', (f'raised {c.obj!r}, which the batch function neither yielded nor '
                       f'raised for it')
