"""Cache programs: threads with their own loops calling one cached function
(shared by C01, C05, C06)."""
import asyncio as aio
import functools
import contextvars
import gc
import threading
import time
import weakref
from collections.abc import MutableMapping
from . import sim, load
from .harness import execute, odd, odd_value

WINDOW = 60.0
_cv = contextvars.ContextVar('vf_caller', default=None)


class CExc(Exception):
    """Raised by the wrapped function."""


class CBase(BaseException):
    pass


EXCS = {'exc': CExc, 'key': KeyError, 'timeout': TimeoutError, 'runtime': RuntimeError,
        'cancel': aio.CancelledError, 'base': CBase, 'odd': odd,
        'atime': lambda *a: aio.TimeoutError(*a)}


class Value:
    __slots__ = ('inv', 'key')

    def __init__(self, inv, key):
        self.inv, self.key = inv, key

    def __repr__(self):
        return f'Value(inv {self.inv}, {self.key!r})'


class Inv:
    __slots__ = ('id', 'key', 'caller', 'loop', 'lref', 'start', 'sseq', 'end', 'eseq',
                 'how', 'obj', 'gone', 'gseq', 'thread')

    def __init__(self):
        self.end = self.eseq = self.how = self.obj = self.gone = self.gseq = None

    def __repr__(self):
        g = f' loop stopped at {self.gone:g}' if self.gone is not None else ''
        e = '...' if self.end is None else f'{self.end:g}'
        return (f'inv{self.id}({self.key!r} by caller{self.caller} on L{self.loop}) '
                f'{self.start:g}-{e} {self.how} {self.obj!r}{g}')


class Caller:
    __slots__ = ('id', 'key', 'loop', 'arrive', 'aseq', 'end', 'eseq', 'kind', 'obj', 'sub',
                 'task', 'ccount', 'ctime', 'wf', 'lost', 'shut', 'spec', 'thread')

    def __init__(self, id, spec):
        self.id, self.spec, self.key = id, spec, spec['key']
        self.loop = self.arrive = self.aseq = self.end = self.eseq = None
        self.kind = self.obj = self.task = self.ctime = None
        self.ccount = 0
        self.wf = spec.get('wf')
        self.lost = None           # its loop stopped while it was pending
        self.sub = None            # the call its own invocation is performing
        self.shut = False          # its task was cancelled by loop shutdown

    def __repr__(self):
        def f(t):
            return '...' if t is None else f'{t:g}'
        x = f' cancelled at {f(self.ctime)}' if self.ctime is not None else ''
        x += f' loop stopped at {f(self.lost)}' if self.lost is not None else ''
        x += f' limit {self.wf}' if self.wf is not None else ''
        return (f'caller{self.id}({self.key!r} on L{self.loop}) {f(self.arrive)}-'
                f'{f(self.end)} {self.kind} {self.obj!r}{x}')


class Trace:
    def __init__(self):
        self.callers, self.invs = [], []
        self.seq = 0
        self.stops = []            # (time, seq, loop serial)
        self.runs = []
        self.overlaps = []         # (new inv, live inv)
        self.after = []            # (new inv, successful inv)
        self.success = {}          # key -> Inv
        self.sim = None
        self.nested = self.spawned = self.hashed = 0
        self.mixed = []            # results of another wrapped function gone wrong
        self.cache = None
        self.gcs = 0
        self.converted = 0         # cancellations the function answered its own way

    def next(self):
        self.seq += 1
        return self.seq

    def lines(self):
        evs = [(v.sseq, repr(v)) for v in self.invs]
        evs += [(c.aseq or 0, repr(c)) for c in self.callers]
        return [t for _, t in sorted(evs)]


class PMap(MutableMapping):
    """A retaining mapping whose operations are preemption points."""
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        sim.point()
        return self.d[k]

    def __setitem__(self, k, v):
        sim.point()
        self.d[k] = v
        sim.point()

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class EMap(PMap):
    """A mapping that forgets an entry after some reads."""
    def __init__(self, reads):
        super().__init__()
        self.reads, self.left = reads, {}

    def __getitem__(self, k):
        sim.point()
        with sim.atomic():
            v = self.d[k]
            self.left[k] -= 1
            if self.left[k] <= 0:
                del self.d[k]
        return v

    def __setitem__(self, k, v):
        with sim.atomic():
            self.left[k] = self.reads
            if self.reads:
                super().__setitem__(k, v)


class HKey:
    """Different arguments of one hash."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        sim.point()
        return type(other) is HKey and other.n == self.n

    def __hash__(self):
        return 7

    def __repr__(self):
        return f'HKey({self.n!r})'


ARGS = {None: {}, 'int': {'k': -1, 'j': -2}}
NAMES = {-1: 'k', -2: 'j'}


def name(arg):
    return arg.n if type(arg) is HKey else NAMES.get(arg, arg) if type(arg) is int else arg


def _is_running(loop):
    return loop is not None and loop._thread_id is not None


def run_program(spec):
    tr = Trace()
    beh = spec['beh']
    nkey = {}
    tr.hashed = int(bool(spec.get('args')))
    spawned = {}               # serial of the loop -> callers

    def arg(key):
        if spec.get('args') == 'hash':
            return HKey(key)
        return ARGS[spec.get('args')].get(key, key)

    def cut(when, key, inv):
        """Cancellations placed exactly around the computation."""
        for cid, w in spec.get('cuts', ()):
            if w == when and cid < len(tr.callers):
                c = tr.callers[cid]
                t, lp = c.task, None
                if t is None or c.key != key or c.end is not None or c.arrive is None:
                    continue
                lp = t.get_loop()
                if c.loop == inv.loop:
                    cancel(c)
                else:
                    try:
                        lp.call_soon_threadsafe(cancel, c)
                    except RuntimeError:
                        pass

    def cancel(c):
        if c.task is not None and not c.task.done():
            c.task.cancel()
            while c is not None and c.end is None:
                c.ccount += 1
                if c.ctime is None:
                    c.ctime = sim.now()
                c = c.sub

    async def nest(b, v):
        """The invocation itself calls a wrapped function."""
        how, key = b['nest']
        tr.nested += 1
        if how == 'fn2':
            r = await fns[1](key)
            if r != ('fn2', key):
                tr.mixed.append((key, r))
            return
        oc = tr.callers[v.caller]
        c = Caller(len(tr.callers), {'key': key})
        tr.callers.append(c)
        c.loop, c.thread = oc.loop, oc.thread
        if how != 'task':
            c.ctime, c.ccount = oc.ctime, oc.ccount      # a cancellation still to come
        if how == 'task':
            c.task = aio.get_running_loop().create_task(caller(c, fns[0]))
            await aio.wait([c.task])
            return
        if oc.wf is not None:
            c.wf = oc.arrive + oc.wf - sim.now()
        oc.sub = c
        await inner(c, fns[0])
        _cv.set(v.caller)
        oc.sub = None
        if c.kind == 'exc' and (how == 'raise' or isinstance(c.obj, aio.CancelledError)):
            v.obj = c.obj
            raise c.obj

    async def func(key):
        key = name(key)
        v = Inv()
        with sim.atomic():
            n = nkey[key] = nkey.get(key, -1) + 1
            b = beh[key][n % len(beh[key])]
            loop = aio.get_running_loop()
            v.id, v.key, v.caller = len(tr.invs), key, _cv.get()
            v.loop, v.lref = loop.serial, weakref.ref(loop)
            v.thread = threading.get_ident()
            v.start, v.sseq = sim.now(), tr.next()
            for x in tr.invs:
                if x.key == key and x.end is None and x.gone is None:
                    if _is_running(x.lref()):
                        tr.overlaps.append((v, x))
                    else:
                        x.gone, x.gseq = v.start, v.sseq
            if key in tr.success:
                tr.after.append((v, tr.success[key]))
            tr.invs.append(v)
        if b.get('spawn') and n < 3:       # a task of its own which outlives it
            c = Caller(len(tr.callers), {'key': b['spawn']})
            tr.callers.append(c)
            tr.spawned += 1
            c.loop, c.thread = loop.serial, v.thread
            spawned.setdefault(loop.serial, []).append(c)
            c.task = loop.create_task(caller(c, fns[0]))
            c = None
        del loop
        try:
            cut('start', key, v)
            d = b.get('d')
            if b.get('nest'):
                await nest(b, v)
                if v.gone is not None:      # only ever ends by cancellation
                    raise aio.CancelledError
            if d is not None:
                try:
                    await aio.sleep(d)
                except aio.CancelledError:
                    if b.get('cleanup') is not None:
                        await aio.sleep(b['cleanup'])
                    how = b.get('oncancel')
                    if how is None or how != 'raise' and v.gone is not None:
                        raise
                    tr.converted += 1
                    if how == 'raise':          # reports its cancellation its own way
                        v.obj = CExc(v.id)
                        raise v.obj
                    if how == 'ignore':
                        await aio.sleep(d)
            cut('end', key, v)
            k = b['out']
            if k == 'ret':
                v.obj = {None: lambda: Value(v.id, key), 'none': lambda: None,
                         'exc': lambda: CExc('returned'),
                         'odd': lambda: odd_value(b['ov']),
                         'false': lambda: False}[b.get('val')]()
                with sim.atomic():
                    v.how, v.end, v.eseq = 'ret', sim.now(), tr.next()
                    if key not in tr.success:
                        tr.success[key] = v
                return v.obj
            e = EXCS[k](v.id)
            v.obj = e
            raise e
        except BaseException as e:
            if sim._sim is not None and not sim._sim.aborting:
                with sim.atomic():
                    v.how = 'cancelled' if isinstance(e, aio.CancelledError) and \
                        e is not v.obj else type(e).__name__
                    v.obj = e
                    v.end, v.eseq = sim.now(), tr.next()
            raise

    class Aw:
        def __init__(self, coro):
            self.coro = coro

        def __await__(self):
            return self.coro.__await__()

    def entry(key):
        """Like func, not being a coroutine function."""
        key = name(key)
        with sim.atomic():
            n = nkey.get(key, -1) + 1
            b = beh[key][n % len(beh[key])]
            if b.get('sync') and b['out'] != 'ret':
                nkey[key] = n
                loop = aio.get_running_loop()
                v = Inv()
                v.id, v.key, v.caller = len(tr.invs), key, _cv.get()
                v.loop, v.lref = loop.serial, weakref.ref(loop)
                v.thread = threading.get_ident()
                v.start, v.sseq = sim.now(), tr.next()
                if key in tr.success:
                    tr.after.append((v, tr.success[key]))
                tr.invs.append(v)
                v.obj = EXCS[b['out']](v.id)
                v.how, v.end, v.eseq = type(v.obj).__name__, sim.now(), tr.next()
                raise v.obj
        return Aw(func(key))

    class Service:
        __slots__ = ()

        async def __call__(self, key):
            return await func(key)

        async def fetch(self, extra, key):
            return await func(key)

    async def func2(key):
        await aio.sleep(0.01)
        return 'fn2', key
    func2.__name__, func2.__qualname__ = func.__name__, func.__qualname__

    async def inner(c, fn):
        _cv.set(c.id)
        loop = aio.get_running_loop()
        with sim.atomic():
            c.arrive, c.aseq = sim.now(), tr.next()
        try:
            r = await fn(arg(c.key))
            k = 'ret'
        except sim.SimAbort:
            raise
        except GeneratorExit:
            raise
        except BaseException as e:
            r, k = e, 'exc'
            if not _is_running(loop):     # being collected: nobody sees this
                raise
        if c.kind == 'hang':              # the harness gave up on it
            return
        with sim.atomic():
            c.kind, c.obj, c.end, c.eseq = k, r, sim.now(), tr.next()

    async def caller(c, fn):
        try:
            if c.wf is not None:
                await aio.wait_for(inner(c, fn), c.wf)
            else:
                await inner(c, fn)
        except (TimeoutError, aio.CancelledError):
            pass

    def on_loop(loop):
        serial = loop.serial

        def stop(lp):
            with sim.atomic():
                t, q = sim.now(), tr.next()
                tr.stops.append((t, q, serial))
                for v in tr.invs:
                    if v.loop == serial and v.end is None and v.gone is None:
                        v.gone, v.gseq = t, q
                for c in tr.callers:
                    if c.loop == serial and c.end is None and c.lost is None \
                            and c.arrive is not None:
                        c.lost = t
        loop.on_stop = stop

    async def seg_main(seg, cs, fn):
        loop = aio.get_running_loop()
        t0 = sim.now()
        tasks = []
        for c in cs:
            c.loop = loop.serial
            c.thread = threading.get_ident()
        todo = sorted(cs, key=lambda c: c.spec['at'])

        async def feed():
            for c in todo:
                d = t0 + c.spec['at'] - sim.now()
                if d > 1e-9:
                    await aio.sleep(d)
                for _ in range(c.spec.get('y', 0)):
                    await aio.sleep(0)
                c.task = loop.create_task(caller(c, fn))
                tasks.append(c.task)
                if c.spec.get('cancel') is not None:
                    loop.call_later(c.spec['cancel'], cancel, c)
        f = loop.create_task(feed())
        if seg.get('stop') is not None:
            d = seg['stop']
            await aio.wait([f], timeout=d)
            d = t0 + d - sim.now()
            if d > 1e-9:
                await aio.sleep(d)
            for _ in range(seg.get('sy', 0)):
                await aio.sleep(0)
        else:
            await f
            if tasks:
                await aio.wait(tasks, timeout=5000)
            for c in spawned.get(loop.serial, ()):     # may grow meanwhile
                await aio.wait([c.task], timeout=5000)
            for c in cs + spawned.get(loop.serial, []):
                if c.end is None and c.arrive is not None and not c.task.done():
                    c.kind = 'hang'
                    c.task.cancel()
            if seg.get('linger'):
                await aio.sleep(seg['linger'])

    def thread(segs, fn, base):
        n = base
        for seg in segs:
            if seg.get('delay'):
                time.sleep(seg['delay'])
            cs = tr.callers[n:n + len(seg['callers'])]
            n += len(seg['callers'])
            how = seg['how']
            if how == 'run':
                aio.run(seg_main(seg, cs, fn))
                continue
            loop = aio.new_event_loop()
            loop.run_until_complete(seg_main(seg, cs, fn))
            if seg.get('after'):
                time.sleep(seg['after'])
            if how == 'shutdown':
                ts = aio.all_tasks(loop)
                for t in ts:
                    t.cancel()
                if ts:
                    loop.run_until_complete(aio.gather(*ts, return_exceptions=True))
                loop.close()
            elif how == 'close':
                loop.close()
                keep.append(loop)
            elif how == 'abandon':
                for c in cs + spawned.get(loop.serial, []):
                    c.task = None
                if seg.get('closed'):
                    loop.close()
                del loop
                if seg.get('gc'):
                    gc.collect()
                    tr.gcs += 1
            else:
                keep.append(loop)

    keep, fns = [], []
    wrapped = {None: lambda: func, False: lambda: func, 'obj': Service,
               'method': lambda: functools.partial(Service().fetch, 0)}.get(
        spec.get('entry'), lambda: entry)()

    def scen():
        m = load.fresh('asyncio')
        s = sim._sim
        s.on_loop = on_loop
        gcs = set(spec.get('gc_at') or ())
        if gcs:
            cnt = [0]

            def on_line():
                cnt[0] += 1
                if cnt[0] in gcs:
                    tr.gcs += 1
                    with sim.atomic():
                        gc.collect()
            s.on_line = on_line
        mp = spec.get('map')
        if mp == 'pts':
            tr.cache = PMap()
        elif isinstance(mp, int):
            tr.cache = EMap(mp)
        elif mp == 'dict':
            tr.cache = {}
        if tr.cache is not None:
            fn = m.threadsafe_async_cache(cache=tr.cache)(wrapped)
        else:
            fn = m.threadsafe_async_cache(wrapped)
        fns.append(fn)
        fns.append(m.threadsafe_async_cache(func2))
        base, ths = 0, []
        for segs in spec['threads']:
            for seg in segs:
                for c in seg['callers']:
                    tr.callers.append(Caller(len(tr.callers), c))
        for segs in spec['threads']:
            ths.append(threading.Thread(target=thread, args=(segs, fn, base)))
            base += sum(len(seg['callers']) for seg in segs)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        s.on_line = None
        if spec.get('later'):
            # a later call, after everything else, must be answered as well
            for key in sorted(beh)[:8]:
                c = Caller(len(tr.callers), {'key': key})
                tr.callers.append(c)

                async def one():
                    c.loop = aio.get_running_loop().serial
                    c.task = aio.create_task(inner(c, fn))
                    await aio.wait([c.task], timeout=5000)
                    if not c.task.done():
                        c.kind = 'hang'
                        c.task.cancel()
                lp = aio.new_event_loop()
                lp.run_until_complete(one())
                lp.close()

    # a lost caller's coroutine being collected must not find the sim's state
    tr.sim, _ = execute(scen, spec.get('sched'), max_steps=400_000)
    for c in tr.callers:
        c.task = None
    fns.clear()
    return tr


def gen_wide(rng):
    """Many keys, or many callers of one key."""
    from .runner import gen_sched
    if rng.random() < .5:
        n = rng.choice([150, 300, 700, 1300])
        ks = [f'q{j:03}' for j in range(n)]
        cs = [{'key': k, 'at': 0} for k in ks]
        th = [[{'how': 'run', 'callers': cs}],
              [{'how': 'run', 'callers': cs, 'delay': rng.choice([1.0, 1.0, 4000.0, 1e6])}]]
        beh = {k: [{'d': rng.choice([0, None, .5]), 'out': 'ret'}] for k in ks}
    else:
        n = rng.choice([20, 60, 150])
        beh = {'k': [{'d': 1.0, 'out': rng.choice(['ret', 'exc'])}, {'d': 1.0, 'out': 'ret'}]}
        th = [[{'how': 'run', 'callers': [{'key': 'k', 'at': 0, **(
            {'cancel': rng.choice([0, .5])} if rng.random() < .1 else {})}
            for _ in range(n)]}] for _ in range(rng.choice([1, 2, 3]))]
    return {'threads': th, 'beh': beh, 'map': None, 'later': True, 'wide': n,
            'sched': gen_sched(rng, est=20000)}


def gen_program(rng, life=None, cancels=.2, fails=.4, forget=0):
    """life: probability that a thread's loop stops early."""
    from .runner import gen_sched
    if life is None:
        life = rng.choice([0, .5, .5, .8])
    D = rng.choice([1.0, 1.0, 5.0, 100.0])
    keys = ['k'] if rng.random() < .75 else ['k', 'j']
    beh = {}
    for k in keys:
        bs = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            b = {'d': rng.choice([D, D, D, 0, None, 0.4 * D]), 'out': 'ret'}
            if rng.random() < fails:
                b['out'] = rng.choice(['exc', 'exc', 'key', 'timeout', 'runtime', 'cancel',
                                       'atime', 'odd'])
            elif rng.random() < .15:
                b['val'] = rng.choice(['none', 'exc', 'false', 'odd', 'odd'])
                b['ov'] = rng.randrange(15)
            if rng.random() < .15:
                b['cleanup'] = rng.choice([0, 0.5, 3])
            if rng.random() < .15:
                b['oncancel'] = rng.choice(['raise', 'raise', 'ret', 'ignore'])
            bs.append(b)
        beh[k] = bs
    grid = [0, 0, 0, 0.5 * D, D, 0.4 * D, 1.3 * D]
    threads, total = [], 0
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        segs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            cs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = {'key': rng.choice(keys), 'at': rng.choice(grid), 'y': rng.choice([0, 0, 1, 2])}
                if rng.random() < cancels:
                    c['cancel'] = rng.choice([0, 0.2 * D, 0.5 * D, D, 0.6 * D, 59.0, 60.0])
                elif rng.random() < cancels * .6:
                    c['wf'] = rng.choice([0.2 * D, 0.5 * D, D, 0.6 * D, 60.0])
                cs.append(c)
                total += 1
            seg = {'callers': cs, 'delay': rng.choice([0, 0, 0, 0.3 * D, D])}
            if rng.random() < life:
                seg['stop'] = rng.choice([0.5 * D, 0.5 * D, 0.3 * D, D, 0.9 * D, 0])
                seg['sy'] = rng.choice([0, 0, 1, 2, 3])
                seg['how'] = rng.choice(['run', 'run', 'shutdown', 'close', 'stopped',
                                         'abandon', 'abandon'])
                seg['after'] = rng.choice([0, 0, 0.1 * D, D, 70.0])
                if seg['how'] == 'abandon':
                    seg['gc'] = rng.random() < .4
                    seg['closed'] = rng.random() < .3
            else:
                seg['how'] = rng.choice(['run', 'run', 'shutdown', 'close', 'stopped'])
                if rng.random() < .5:
                    seg['linger'] = rng.choice([0.5, 2 * D, 200.0])
            segs.append(seg)
        threads.append(segs)
    if rng.random() < .08:          # and much later
        threads.append([{'how': 'run', 'delay': rng.choice([400.0, 4000.0, 1e5, 1e6]),
                         'callers': [{'key': k, 'at': 0, 'y': 0} for k in keys]}])
        total += len(keys)
    if len(keys) > 1 and rng.random() < .5:
        for b in beh['k']:
            if rng.random() < .7:
                b['nest'] = [rng.choice(['task', 'call', 'call', 'raise']), 'j']
    elif rng.random() < .1:
        for b in beh['k']:
            b['nest'] = ['fn2', 'k']
    p = {'threads': threads, 'beh': beh, 'map': rng.choice([0, 1, 1, 2, 3]) if rng.random() < forget
         else rng.choice([None, 'dict', 'pts']),
         'later': rng.random() < .3, 'sched': gen_sched(rng, est=rng.choice([150, 400]))}
    if rng.random() < cancels:
        p['cuts'] = [[rng.randrange(total), rng.choice(['start', 'end', 'end'])]
                     for _ in range(rng.choice([1, 1, 2]))]
    if len(keys) > 1 and rng.random() < .4:
        p['args'] = rng.choice(['hash', 'int'])
    if rng.random() < .1:
        for b in beh['k']:
            if rng.random() < .6:
                b['spawn'] = rng.choice(keys)
    if rng.random() < .15:
        p['entry'] = rng.choice([True, True, 'obj', 'method'])
        for bs in beh.values():
            for b in bs:
                b['sync'] = rng.random() < .5
    if any(seg['how'] == 'abandon' for segs in threads for seg in segs):
        p['gc_at'] = sorted(rng.randrange(1, 300) for _ in range(rng.choice([1, 3, 8])))
    return p


def shrinks(spec):
    th = spec['threads']
    for k in range(len(th)):
        if len(th) > 1:
            yield dict(spec, threads=th[:k] + th[k + 1:], cuts=[])
        for j in range(len(th[k])):
            seg = th[k][j]

            def put(segs):
                return dict(spec, threads=th[:k] + [segs] + th[k + 1:])
            if len(th[k]) > 1:
                yield dict(put(th[k][:j] + th[k][j + 1:]), cuts=[])
            for i in range(len(seg['callers'])):
                if len(seg['callers']) > 1:
                    s2 = dict(seg, callers=seg['callers'][:i] + seg['callers'][i + 1:])
                    yield dict(put(th[k][:j] + [s2] + th[k][j + 1:]), cuts=[])
                c = seg['callers'][i]
                for a in ('cancel', 'wf', 'y'):
                    if c.get(a):
                        c2 = {x: y for x, y in c.items() if x != a}
                        s2 = dict(seg, callers=seg['callers'][:i] + [c2] +
                                  seg['callers'][i + 1:])
                        yield put(th[k][:j] + [s2] + th[k][j + 1:])
            for a in ('sy', 'after', 'linger', 'gc', 'closed'):
                if seg.get(a):
                    s2 = {x: y for x, y in seg.items() if x != a}
                    yield put(th[k][:j] + [s2] + th[k][j + 1:])
    if spec.get('cuts'):
        yield dict(spec, cuts=[])
    if spec.get('gc_at'):
        yield dict(spec, gc_at=[])
    if spec.get('entry'):
        yield dict(spec, entry=False)
    if any(b.get('nest') for bs in spec['beh'].values() for b in bs):
        yield dict(spec, beh={k: [{x: y for x, y in b.items() if x != 'nest'} for b in bs]
                              for k, bs in spec['beh'].items()})
    if spec.get('later'):
        yield dict(spec, later=False)
    if isinstance(spec.get('map'), str):
        yield dict(spec, map=None)
    s = spec.get('sched') or {}
    if s.get('points') and len(s['points']) > 1:
        for j in range(len(s['points'])):
            yield dict(spec, sched=dict(s, points=s['points'][:j] + s['points'][j + 1:]))
    if s and s.get('kind') != 'none':
        yield dict(spec, sched={'kind': 'none'})


def ended(tr, o, mech='hang', judge=True):
    """Did the execution end?  A hang belongs to C05; elsewhere it is noted."""
    v = tr.sim.verdict
    if v in ('deadlock', 'livelock', 'horizon'):
        if judge:
            o.bad(mech, f'{v}: {tr.sim.blocked_report}; ' + ' | '.join(tr.lines())[:1200])
        else:
            o.counts['hung_executions'] += 1
        return False
    if v:
        o.inconclusive = v
        return False
    return True


def base_counts(tr, o):
    o.counts['callers'] += sum(1 for c in tr.callers if c.arrive is not None)
    o.counts['invocations'] += len(tr.invs)
    o.counts['invocations_lost_with_loop'] += sum(1 for v in tr.invs if v.gone is not None)
    o.counts['loop_stops'] += len(tr.stops)
    o.counts['collections'] += tr.gcs
    o.counts['converted'] += tr.converted
    o.counts['nested_calls'] += tr.nested
    o.counts['spawned_calls'] += tr.spawned
    o.counts['equal_hashes'] += tr.hashed
    for key, r in tr.mixed:
        o.bad('functions-mixed', f'another wrapped function called with {key!r} got {r!r}; '
              + ' | '.join(tr.lines())[:800])
