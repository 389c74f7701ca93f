"""Buffer programs: shared by C03, C07, C08 (and C15)."""
import asyncio as aio
import gc
import collections
import threading
import time
from . import sim, load
from .harness import execute, run_paused

SPECIAL = {1: None, 2: '', 3: 0.5, 4: (), 5: frozenset(), 6: float('nan'), 7: False,
           8: ValueError('an argument'), 9: range(3)}


KINDS = {'list': list, 'tuple': tuple, 'set': set, 'deque': collections.deque,
         'dict': dict.fromkeys, 'keys': lambda es: dict.fromkeys(es).keys(),
         'chain': lambda es: [*es, *es[:1]]}


def val(n):
    return SPECIAL.get(n, n)


class PExc(Exception):
    """Raised by a producer."""


class PBase(BaseException):
    pass


class FExc(Exception):
    """Raised by the wrapped function."""


class FBase(BaseException):
    pass


class Sub:
    __slots__ = ('id', 'who', 'op', 'elems', 'seq', 'time', 'produced', 'pseq', 'slow',
                 'done')

    def __init__(self, id, who, op, elems):
        self.id, self.who, self.op, self.elems = id, who, op, elems
        self.seq = self.time = None
        self.produced = []        # elements the producer handed over
        self.pseq = []
        self.slow = False
        self.done = False         # producer over

    def __repr__(self):
        return (f'sub{self.id}({self.who} {self.op} {self.elems} at {self.time} '
                f'produced={self.produced})')


class FCall:
    __slots__ = ('id', 'args', 'start', 'sseq', 'end', 'eseq', 'ok', 'thread', 'loop')

    def __repr__(self):
        return (f'func#{self.id}({sorted(map(repr, self.args))}) {self.start}-{self.end} '
                f'{ {True: "ok", False: "raised", None: "running"}[self.ok]}')


class Wait:
    __slots__ = ('id', 'who', 'cancel', 'cseq', 'ctime', 'rseq', 'rtime', 'how')

    def __repr__(self):
        return (f'wait{self.id}({self.who} cancel={self.cancel}) {self.ctime} -> '
                f'{self.how} {self.rtime}')


class Trace:
    def __init__(self):
        self.subs, self.calls, self.waits = [], [], []
        self.seq = 0
        self.running = 0
        self.overlap = []
        self.sim = None
        self.shutdown = None       # (time, how)
        self.notes = []
        self.t0 = 0.0
        self.paused = self.inner = self.gcs = 0
        self.twin = None           # the trace of another buffer in the same program

    def all(self):
        return [self] if self.twin is None else [self, self.twin]

    def next(self):
        self.seq += 1
        return self.seq

    def lines(self):
        evs = [(s.seq or 0, repr(s)) for s in self.subs]
        evs += [(c.sseq, repr(c)) for c in self.calls]
        evs += [(w.cseq, repr(w)) for w in self.waits]
        return [t for _, t in sorted(evs)] + self.notes

    def delivered(self, before=None):
        """element -> list of successful calls it was part of."""
        d = {}
        for c in self.calls:
            if c.ok and (before is None or c.eseq < before):
                for a in c.args:
                    d.setdefault(a, []).append(c)
        return d


def make_func(spec, tr, box):
    f = spec.get('f', {})
    durs = f.get('dur') or [0]
    fails = f.get('fail') or []
    resub = {int(k): v for k, v in (f.get('resub') or {}).items()}

    async def func(args):
        c = FCall()
        c.id = len(tr.calls)
        c.args = frozenset(args)
        c.start, c.sseq = sim.now(), tr.next()
        c.end = c.eseq = c.ok = None
        c.thread = threading.get_ident()
        c.loop = aio.get_running_loop()
        tr.calls.append(c)
        tr.running += 1
        if tr.running > 1:
            tr.overlap.append(c)
        how = fails[c.id] if c.id < len(fails) else None
        try:
            if how == 'clear':
                args.clear()
            for op in resub.get(c.id, ()):
                submit(box[0], op, tr, 'own', box)
            d = durs[c.id % len(durs)]
            if d is not None:
                try:
                    await aio.sleep(d)
                except aio.CancelledError:
                    oc = f.get('oncancel')
                    if oc == 'exc':
                        raise FExc('while cancelled')
                    if oc == 'slow':
                        await aio.sleep(0.3)
                    if oc != 'ignore':
                        raise
            if how == 'base':
                raise FBase(c.id)
            if how == 'cancel':
                raise aio.CancelledError()
            if how == 'timeout':
                raise TimeoutError()
            if how:
                raise FExc(c.id)
            c.ok = True
        except BaseException:
            c.ok = False
            raise
        finally:
            tr.running -= 1
            if sim._sim is not None:
                c.end = sim.now()
            c.eseq = tr.next()
    if spec.get('callable') == 'obj':
        class F:
            async def __call__(self, args):
                await func(args)
        return F()
    if spec.get('callable') == 'sync':       # plain callable returning an awaitable
        def sfunc(args):
            return aio.ensure_future(func(args))
        return sfunc
    return func


def _err(kind):
    return {'exc': PExc, 'base': PBase, 'cancel': aio.CancelledError,
            'runtime': lambda: RuntimeError('x'), 'timeout': TimeoutError,
            'qempty': aio.QueueEmpty}[kind]()


def submit(buf, op, tr, who, box):
    """Perform one submission through the public API."""
    s = Sub(len(tr.subs), who, op['op'], op['elems'])
    tr.subs.append(s)
    elems = [val(n) for n in op['elems']]
    fail = op.get('fail')             # position of the producer failure
    kind = op.get('fk', 'exc')
    delays = op.get('d') or [None]
    s.slow = any(delays) or op['op'] == 'await'

    inner = list(op.get('inner') or ())
    tr.inner += len(inner)

    def hand(x):
        s.produced.append(x)
        s.pseq.append(tr.next())

    def nested(j, thread='own'):
        """Submissions made by the producer itself."""
        if inner and j >= op.get('ij', 0):
            ops = inner[:]
            inner.clear()
            for sub in ops:
                submit(buf, sub, tr, who if thread == 'own' and who == 'own' else
                       f'producer{s.id}', box)

    if op['op'] == 'plain':
        arg = elems[0]
        hand(arg)
        s.seq, s.time = tr.next(), sim.now()
        buf(arg)
        return s
    if op['op'] == 'await':
        async def aw():
            try:
                if delays[0] is not None:
                    await aio.sleep(delays[0])
                if fail is not None:
                    raise _err(kind)
                nested(0)
                hand(elems[0])
                nested(9)
                return elems[0]
            finally:
                s.done = True
        a = aw()
        if op.get('as') == 'obj':
            class Aw:
                def __await__(self, co=a):
                    return co.__await__()
            a = Aw()
        if who == 'own' and op.get('as') == 'task':
            a = aio.get_running_loop().create_task(a)
        elif who == 'own' and op.get('as') == 'future':
            co, a = a, aio.get_running_loop().create_future()

            async def fill(co=co, a=a):
                try:
                    r = await co
                except BaseException as e:
                    if not a.done():
                        a.set_exception(e) if not isinstance(e, aio.CancelledError) \
                            else a.cancel()
                else:
                    if not a.done():
                        a.set_result(r)
            box.append(aio.get_running_loop().create_task(fill()))
        s.seq, s.time = tr.next(), sim.now()
        buf.await_(a)
        return s
    if op['op'] == 'map':
        def g():
            how = 'own' if op.get('as') == 'iterable' else 'pool'
            try:
                for j, x in enumerate(elems):
                    if fail == j:
                        raise _err(kind)
                    d = delays[j % len(delays)]
                    if d is not None:
                        time.sleep(d)
                    nested(j, how)
                    hand(x)
                    yield x
                if fail is not None and fail >= len(elems):
                    raise _err(kind)
            finally:
                s.done = True
        how = op.get('as', 'list')
        if how == 'gen':
            it = g()
        elif how == 'iterable' or fail is not None:
            class It:
                def __iter__(self):
                    return g()
            it = It()
        elif how == 'iter':
            it = iter(elems)
            for x in elems:
                hand(x)
        else:
            it = KINDS[how](elems)
            for x in it:
                hand(x)
        s.seq, s.time = tr.next(), sim.now()
        buf.map(it)
        return s

    async def ag():
        try:
            for j, x in enumerate(elems):
                if fail == j:
                    raise _err(kind)
                d = delays[j % len(delays)]
                if d is not None:
                    await aio.sleep(d)
                nested(j)
                hand(x)
                yield x
            if fail is not None and fail >= len(elems):
                raise _err(kind)
        finally:
            s.done = True
    a = ag()
    if op.get('as') == 'obj':
        class A:
            def __aiter__(self):
                return a
        src = A()
    else:
        src = a
    s.seq, s.time = tr.next(), sim.now()
    buf.amap(src)
    return s


def begin_wait(tr, who, cancel):
    w = Wait()
    w.id, w.who, w.cancel = len(tr.waits), who, cancel
    w.cseq, w.ctime = tr.next(), sim.now()
    w.rseq = w.rtime = w.how = None
    tr.waits.append(w)
    return w


def end_wait(tr, w, how):
    w.rseq, w.rtime, w.how = tr.next(), sim.now(), how


def _foreign(buf, ops, tr, who, box):
    try:
        for op in ops:
            if op.get('dt'):
                time.sleep(op['dt'])
            if op['op'] == 'wait':
                w = begin_wait(tr, who, op['cancel'])
                try:
                    aio.run(buf.wait_from_anywhere(cancel=op['cancel']))
                    end_wait(tr, w, 'returned')
                except sim.SimAbort:
                    raise
                except BaseException as e:
                    end_wait(tr, w, f'raised {e!r}')
            else:
                submit(buf, op, tr, who, box)
    except sim.SimAbort:
        raise


def _foreign_loop(buf, ops, tr, who, box):
    """The same from inside a coroutine on the thread's own loop."""
    async def go():
        for op in ops:
            if op.get('dt'):
                await aio.sleep(op['dt'])
            if op['op'] == 'wait':
                w = begin_wait(tr, who, op['cancel'])
                try:
                    await buf.wait_from_anywhere(cancel=op['cancel'])
                    end_wait(tr, w, 'returned')
                except sim.SimAbort:
                    raise
                except BaseException as e:
                    end_wait(tr, w, f'raised {e!r}')
            else:
                submit(buf, op, tr, who, box)
    aio.run(go())


def run_program(spec, factory=None):
    """spec: T, ops (own thread), threads (foreign op lists), f, end, shutdown."""
    tr = Trace()

    if spec.get('twin') and not spec.get('shutdown'):
        tr.twin = Trace()

    def scen():
        m = load.fresh('asyncio')
        box, box2 = [None], [None]
        T = spec['T']

        def build():
            build1(tr, box)
            if tr.twin is not None:
                build1(tr.twin, box2)

        def build1(tr, box):
            func = make_func(spec, tr, box)
            if factory is not None:
                b = factory(m, func, T)
            elif spec.get('form') == 'opts':
                b = m.buffer_until_timeout(timeout=T)(func)
            elif spec.get('form') == 'class':
                b = m.BufferAsyncCalls(func, timeout=T)
            else:
                b = m.buffer_until_timeout(func, timeout=T)
            box[0] = b

        async def one_wait(op, w, tr, buf):
            try:
                if op.get('wf') is not None:
                    await aio.wait_for(buf.wait(cancel=op['cancel']), op['wf'])
                else:
                    await buf.wait(cancel=op['cancel'])
                end_wait(tr, w, 'returned')
            except sim.SimAbort:
                raise
            except BaseException as e:
                end_wait(tr, w, f'raised {e!r}')

        async def main():
            if box[0] is None:
                if spec.get('shutdown', {}).get('how') == 'task':
                    before = aio.all_tasks()
                    build()
                    box.append(('daemon', aio.all_tasks() - before))
                else:
                    build()
            buf = box[0]
            loop = aio.get_running_loop()
            ths = []
            for k, ops in enumerate(spec.get('threads', ())):
                th = threading.Thread(target=_foreign_loop if spec.get('fl') else _foreign,
                                      args=(buf, ops, tr, f'thread{k}', box))
                ths.append(th)
                th.start()
            tasks = []

            async def driver(tr, box):
                for op in spec['ops']:
                    d = op['t'] - sim.now()
                    if d > 1e-9:
                        await aio.sleep(d)
                    for _ in range(op.get('y', 0)):
                        await aio.sleep(0)
                    if op['op'] == 'wait':
                        w = begin_wait(tr, 'own', op['cancel'])
                        tk = loop.create_task(one_wait(op, w, tr, box[0]))
                        tasks.append(tk)
                        if op.get('block'):
                            await aio.wait([tk], timeout=3000)
                    elif op.get('cb'):           # from a callback, not a task
                        loop.call_soon(submit, box[0], op, tr, 'own', box)
                        await aio.sleep(0)
                    else:
                        submit(box[0], op, tr, 'own', box)

            sd = spec.get('shutdown')
            if sd:
                drv = loop.create_task(driver(tr, box))
                d = sd['t'] - sim.now()
                if d > 0:
                    await aio.sleep(d)
                for _ in range(sd.get('y', 0)):
                    await aio.sleep(0)
                tr.next()
                tr.shutdown = sim.now()
                if sd['how'] == 'task':
                    dm = next(x[1] for x in box if isinstance(x, tuple))
                    for t in dm:
                        t.cancel()
                    if dm:
                        _, pend = await aio.wait(dm, timeout=2000)
                        if pend:
                            tr.notes.append('daemon task still pending')
                return
            if tr.twin is not None:
                await aio.gather(driver(tr, box), driver(tr.twin, box2))
            else:
                await driver(tr, box)
            if spec.get('drop'):           # the user keeps no reference
                del buf
                box[0] = box2[0] = None
                for _ in range(spec['drop']):
                    gc.collect()
                    await aio.sleep(0)
                gc.collect()
                tr.gcs += 1
            # let everything settle
            left = spec.get('settle', 60 * T + 100)
            if spec.get('nap'):            # the loop has nothing else to wake it up
                await aio.sleep(1.5 * left)
                return
            end = sim.now() + left
            while sim.now() < end and (
                    any(not t.done() for t in tasks) or any(t.is_alive() for t in ths)):
                await aio.sleep(left / 20)
            await aio.sleep(left / 2)

        if spec.get('shutdown', {}).get('how') == 'run':
            aio.run(main())
            return
        loop = aio.new_event_loop()
        try:
            if spec.get('early'):
                aio.set_event_loop(loop)
                build()
                for op in spec.get('pre') or ():
                    submit(box[0], op, tr, 'own', box)

            def during(ops):
                if box[0] is not None:
                    for op in ops:
                        submit(box[0], op, tr, 'own', box)
            tr.paused = run_paused(loop, main(), spec.get('pauses') or (), during)
        finally:
            aio.set_event_loop(None)

    tr.sim, _ = execute(scen, spec.get('sched'))
    if tr.twin is not None:
        tr.twin.sim = tr.sim
    return tr


def gen_op(rng, T, ids, kinds=('plain', 'await', 'map', 'amap'), fails=True, slow=True,
           empty=True):
    op = rng.choice(kinds)
    n = 1 if op in ('plain', 'await') else rng.choice([0, 1, 1, 2, 3] if empty else [1, 2, 3])
    d = {'op': op, 'elems': [next(ids) for _ in range(n)]}
    if op == 'plain':
        return d
    if slow and rng.random() < .6:
        d['d'] = [rng.choice([None, 0, 0.3 * T, 0.8 * T, 1.3 * T, 3 * T])
                  for _ in range(rng.choice([1, 2]))]
    if fails and rng.random() < .25:
        d['fail'] = rng.randrange(0, n + 1)
        d['fk'] = rng.choice(['exc', 'exc', 'base', 'cancel', 'runtime', 'timeout', 'qempty'])
    d['as'] = {'await': rng.choice(['coro', 'task', 'future', 'obj']),
               'map': rng.choice(['list', 'gen', 'gen', 'gen', 'iterable', 'iter', 'tuple',
                                  'set', 'deque', 'dict', 'keys', 'chain']),
               'amap': rng.choice(['gen', 'obj'])}[op]
    return d


def enlarge(rng, ops, ids):
    """Make one of the submissions large: many elements, or many submissions."""
    own = [op for op in ops if op['op'] != 'wait']
    if not own:
        return
    op = rng.choice(own)
    n = rng.choice([70, 150, 300, 600])
    if rng.random() < .5:
        for k in ('d', 'fail', 'fk'):
            op.pop(k, None)
        op.update(op=rng.choice(['map', 'amap']), elems=[next(ids) for _ in range(n)])
        op['as'] = 'list' if op['op'] == 'map' else 'gen'
        op['dense'] = True
    else:
        k = ops.index(op)
        ops[k:k] = [{'op': 'plain', 'elems': [next(ids)], 't': op['t'], 'y': 0, 'dense': True}
                    for _ in range(n // 2)]


def gen_program(rng, nops, pwait=.25, pthreads=.4, T=None, big=.02, dup=0, zero=0, **kw):
    import itertools
    ids = itertools.count(1 if rng.random() < .4 else 10)
    T = T or rng.choice([0.1, 1.0, 1.0])
    grid = rng.choice([[0, 0, 0.3, 0.6, 0.95, 1.05, 2.3], [0], [0, 0.95], [0, 0, 1, 1.05, 4]])
    ops, t = [], 0.0
    for _ in range(nops):
        t += rng.choice(grid) * T
        if rng.random() < pwait:
            op = {'op': 'wait', 'cancel': rng.random() < .6, 'block': rng.random() < .3}
            if rng.random() < .1:
                op['wf'] = rng.choice([0, 0.5 * T, T])
        else:
            op = gen_op(rng, T, ids, **kw)
        op['t'], op['y'] = round(t, 9), rng.choice([0, 0, 0, 1, 2, 3, 4])
        ops.append(op)
    if ops and rng.random() < .04:               # a very long quiet time
        k, gap = rng.randrange(len(ops)), rng.choice([400.0, 4000.0, 1e5, 1e6])
        for op in ops[k:]:
            op['t'] = round(op['t'] + gap, 9)
    large = rng.random() < big
    if large:
        enlarge(rng, ops, ids)
    elif rng.random() < dup:
        # arguments equal to ones submitted before
        old = []
        for op in ops:
            es = op.get('elems', ())
            for j in range(len(es)):
                if old and rng.random() < .5:
                    e = rng.choice(old)
                    if e not in es:
                        es[j] = e
            old += es
    p = {'T': T, 'ops': ops, 'threads': [], 'twin': rng.random() < .1, 'early': rng.random() < .3,
         'form': rng.choice(['plain', 'opts', 'class']),
         'callable': rng.choice(['fn', 'fn', 'fn', 'obj', 'sync']),
         'f': {'dur': rng.choice([[0], [None], [0.5 * T], [None, 1.5 * T], [2.2 * T, 0]])}}
    if rng.random() < .5:
        p['f']['fail'] = [rng.choice([None, 'exc', 'exc', 'base', 'cancel', 'clear',
                                      'timeout']) if rng.random() < .6 else None
                          for _ in range(rng.choice([1, 2, 3, 6]))]
        if rng.random() < .04:                   # failing for a long time
            p['f']['fail'] = [rng.choice(['exc', 'exc', 'base', 'cancel'])] * rng.choice([12, 30])
            p['settle'] = 300 * T + 100
    if rng.random() < .2:
        p['f']['resub'] = {'0': [gen_op(rng, T, ids, **kw)]}
        if rng.random() < .3:
            p['f']['resub']['1'] = [gen_op(rng, T, ids, **kw)]
    if not large and rng.random() < pthreads:
        for _ in range(rng.choice([1, 1, 2])):
            th = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.random()
                if th and x < .35:
                    op = {'op': 'wait', 'cancel': rng.random() < .6}
                else:
                    op = gen_op(rng, T, ids, **kw)
                op['dt'] = rng.choice([0, 0, 0.6, 1, 1, 1.5, 2]) * T
                th.append(op)
            p['threads'].append(th)
    if rng.random() < zero:
        p['T'] = 0
    if rng.random() < .12:
        for op in ops:
            op['cb'] = rng.random() < .7
    if rng.random() < .1:                        # producers which submit something
        for op in ops + [op for th in p['threads'] for op in th]:
            if op.get('as') in ('gen', 'iterable', 'obj', 'coro', 'task', 'future') and \
                    rng.random() < .6:
                op['ij'] = rng.choice([0, 0, 1])
                op['inner'] = []
                for _ in range(rng.choice([1, 1, 2])):
                    q = gen_op(rng, T, ids, **kw)
                    if q.get('as') in ('task', 'future'):
                        q['as'] = 'coro'
                    op['inner'].append(q)
    if rng.random() < .02 and not p['f'].get('resub'):
        p['drop'] = rng.choice([1, 2, 4, 7])
        for op in ops:
            op.pop('inner', None)
    p['nap'] = rng.random() < .35
    p['fl'] = rng.random() < .3
    return p


def interrupt(rng, p, ids=None, **kw):
    """The program on a loop that is not always running: submissions before it starts,
    and while it is stopped for some time."""
    import itertools
    ids = ids or itertools.count(100000)
    T = p['T']

    def some(n):
        r = []
        for _ in range(n):
            op = gen_op(rng, T, ids, **kw)
            if op.get('as') in ('task', 'future'):
                op['as'] = 'coro'
            r.append(op)
        return r
    p['early'], p['twin'] = True, False
    p['pre'] = some(rng.choice([0, 0, 1, 2, 3]))
    end = max([op['t'] for op in p['ops']], default=0)
    ts = [op['t'] for op in p['ops']] or [0]
    p['pauses'] = []
    for t in sorted(max(0, rng.choice(ts) + rng.choice([0, 0, 0.5, 0.999, 1, 1.001, 1.5, 2]) * T)
                    for _ in range(rng.choice([1, 1, 2, 4]))):
        p['pauses'].append([round(t, 9), rng.choice([0, 0, 1, 2, 3, 5]),
                            rng.choice([0, 0.3, 0.9, 1.1, 5]) * T, some(rng.choice([0, 0, 1, 2]))])
    for th in p['threads']:       # wait_from_anywhere needs a running loop
        th[:] = [op for op in th if op['op'] != 'wait']
    return p


def shrinks(spec):
    if spec.get('pauses'):
        yield dict(spec, pauses=[])
        for k, (t, y, d, ops) in enumerate(spec['pauses']):
            ps = spec['pauses']
            yield dict(spec, pauses=ps[:k] + ps[k + 1:])
            if ops:
                yield dict(spec, pauses=ps[:k] + [[t, y, d, ops[1:]]] + ps[k + 1:])
    if spec.get('pre'):
        yield dict(spec, pre=spec['pre'][1:])
    for k in range(len(spec['ops'])):
        yield dict(spec, ops=spec['ops'][:k] + spec['ops'][k + 1:])
    for k in range(len(spec['threads'])):
        yield dict(spec, threads=spec['threads'][:k] + spec['threads'][k + 1:])
        th = spec['threads'][k]
        for j in range(len(th)):
            ths = list(spec['threads'])
            ths[k] = th[:j] + th[j + 1:]
            yield dict(spec, threads=ths)
    f = spec['f']
    for k in ('fail', 'resub', 'oncancel'):
        if f.get(k):
            yield dict(spec, f={a: b for a, b in f.items() if a != k})
    if f.get('fail'):
        for j, x in enumerate(f['fail']):
            if x and x != 'exc':
                yield dict(spec, f=dict(f, fail=f['fail'][:j] + ['exc'] + f['fail'][j + 1:]))
    if f['dur'] != [0]:
        yield dict(spec, f=dict(f, dur=[0]))
    for k, op in enumerate(spec['ops']):
        for a in ('y', 'd', 'fail', 'wf', 'block', 'inner', 'cb'):
            if op.get(a):
                yield dict(spec, ops=spec['ops'][:k] +
                           [{x: v for x, v in op.items() if x != a}] + spec['ops'][k + 1:])
    for k, v in (('twin', False), ('form', 'plain'), ('callable', 'fn'), ('early', False), ('fl', False)):
        if spec.get(k) != v:
            yield dict(spec, **{k: v})
    s = spec.get('sched') or {}
    if s.get('points') and len(s['points']) > 1:
        for j in range(len(s['points'])):
            yield dict(spec, sched=dict(s, points=s['points'][:j] + s['points'][j + 1:]))
    if s and s.get('kind') != 'none':
        yield dict(spec, sched={'kind': 'none'})


def check_end(tr, o):
    v = tr.sim.verdict
    if v in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{v}: {tr.sim.blocked_report}; ' + '; '.join(tr.lines())[:900])
        return False
    if v:
        o.inconclusive = v
        return False
    return True
