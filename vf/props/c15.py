"""Decorator-with-options forms == direct forms; one batcher per loop."""
import asyncio as aio
import gc
import threading
import time
from collections.abc import MutableMapping
from vf import sim, load, batch, buf
from vf.runner import Out, gen_sched
from vf.harness import execute, stats
from . import c04, c08, c10, c11

ID = 'C15'
LEVEL = 'exploration'
RULE = ('a case = (batcher) a timed program run through 3..5 equivalent forms with a random '
        'subset of the options set; (buffer) the same with the timeout option; (cache) the '
        'same with several cache stores, shared and pre-filled; (loops) a decorated batcher '
        'used from 1..4 loops one after another, alternating or concurrently in threads, or '
        'revisited in turn (what one knows must not depend on the others). '
        'Forms are compared by trace; every trace is also judged absolutely against the '
        'options. Non-trivial = at least one option set and its effect observed')
CASES = {'quick': 16000, 'thorough': 120000}
NEED = {'batcher_cases': 800, 'buffer_cases': 400, 'cache_cases': 400, 'loop_cases': 800,
        'opt_mbs': 500, 'opt_mcb': 500, 'opt_bt': 500, 'opt_rt': 500, 'opt_timeout': 300,
        'store_used': 500, 'shared_hits': 100, 'loops_used': 1500, 'concurrent_loops': 150,
        'splits': 300, 'joined_retained': 100, 'timed_out_batches': 500,
        'slots_filled': 300, 'visits': 1500, 'visit_answers': 1000}
ASSUMPTIONS = ['traces of the forms are compared at arrival times without ties between '
               'timers', 'defaults documented by the signatures: 256, 5, 0.05 s, 0 s, 1 s']
DEF = {'mbs': 256, 'mcb': 5, 'bt': 0.05, 'rt': 0.}
LONG = {'mbs': 'max_batch_size', 'mcb': 'max_concurrent_batches', 'bt': 'batch_timeout',
        'rt': 'retention_timeout'}


# -- generation -----------------------------------------------------------
def gen_opts(rng):
    vals = {'mbs': rng.choice([1, 2, 3, 4, 300]), 'mcb': rng.choice([1, 2, 3, 6, 8]),
            'bt': rng.choice([0.2, 1.0, 0.01, 3, 30, 0]), 'rt': rng.choice([0.04, 0.5, 2, 20, 400])}
    x = rng.random()
    if x < .08:
        return {}
    if x < .5:
        k = rng.choice(list(vals))
        return {k: vals[k]}
    if x < .75:
        return vals
    return {k: v for k, v in vals.items() if rng.random() < .5}


def gen_calls(rng, e, repeat, n):
    """A c04-shaped program for the effective options e."""
    p = c04.program(rng, n, [None])
    p.update({k: e[k] for k in ('mbs', 'mcb', 'bt', 'rt')})
    p['gc'], p['fkind'], p['form'], p['rk'] = False, 'gen', 'class', 'exc'
    bt, rt = e['bt'] or .1, e['rt']
    p['post'] = rng.choice([None, 0.7 * bt])
    if repeat:
        p['pre'] = pre = rng.choice([None, 0.6 * bt])
        p['dur'] = rng.choice([[0], [0.3 * bt]])
        d = bt + (pre or 0) + .3 * bt
        gaps = [0, 0.3 * bt, 1.15 * d, 0.5 * rt, 0.9 * rt, rt + 1.1 * d, 1.5 * rt, 3 * d]
        keys = rng.choice([['a'], ['a', 'b'], [None]])
        args = rng.choice([[1], [1, 2]])
        t = 0.0
        for j, c in enumerate(p['calls']):
            t += rng.choice(gaps) * rng.uniform(.985, 1) + 1e-5 * j
            c.update(t=round(t, 9), y=0, key=rng.choice(keys), arg=rng.choice(args))
    else:
        p['pre'] = rng.choice([None, 0.6 * bt, 1.53 * bt, 4.1 * bt, 9.7 * bt])
        p['dur'] = rng.choice([[0], [None], [0.31 * bt]])
        g = rng.choice([[0, 0, 0.2, 0.5, 0.9, 1.1, 2.5], [0, 0.9, 0.9, 1.1], [0], [1.1, 1.5],
                        [0.9, 1.5]])
        t = 0.0
        for j, c in enumerate(p['calls']):
            x = rng.choice(g) * bt
            t += x and x * rng.uniform(.99, 1) + 1e-6 * j
            c.update(t=round(t, 9), y=0, key=rng.choice([f'k{j}', None]), arg=j)
    for k in {batch.keyof(c) for c in p['calls']}:
        p['beh'][k] = [rng.choice(['v', 'v', 'v', 'x'])]
    p['repeat'] = repeat
    return p


class Store(MutableMapping):
    """A cache store that remembers what happened to it."""
    def __init__(self, bound=None):
        self.d, self.bound, self.log = {}, bound, []

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v
        self.log.append(k)
        while self.bound and len(self.d) > self.bound:
            del self.d[next(iter(self.d))]

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class DictStore(dict):
    pass


class Falsy(dict):
    def __bool__(self):
        return False


def gen(rng, i, tier):
    part = rng.choice(['batcher', 'batcher', 'batcher', 'buffer', 'cache', 'cache', 'loops',
                       'loops', 'loops'])
    p = {'part': part}
    if part in ('batcher', 'loops'):
        p['opts'] = o = gen_opts(rng)
        e = dict(DEF, **o)
        p['repeat'] = rep = rng.random() < (.6 if 'rt' in o else .25)
        if part == 'batcher':
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
            if not o or 'mcb' in o and not rep:
                n = rng.choice([8, 12, 18])
            p['prog'] = q = gen_calls(rng, e, rep, n)
            if 'mcb' in o and not rep and rng.random() < .6:
                # many small batches: the slots are what limits
                t = 0.0
                for j, c in enumerate(q['calls']):
                    t += 1.2 * (e['bt'] or .1) + 1e-6 * j
                    c['t'] = round(t, 9)
                q['pre'] = rng.choice([4.1, 9.7, 14.3]) * (e['bt'] or .1)
            if e['mbs'] == 256 and rng.random() < .02:
                q['calls'] = [{'t': 0.0, 'arg': j, 'key': None, 'y': 0} for j in range(520)]
                q['beh'], q['pre'] = {}, None
                p['repeat'] = q['repeat'] = False
            return p
        if rng.random() < .15:
            return visits(rng, p)
        mode = rng.choice(['seq', 'seq', 'seqthread', 'conc', 'conc', 'alt', 'leave'])
        p['mode'] = mode
        nl = rng.choice([2, 2, 3]) if mode != 'seq' else rng.choice([1, 2, 3, 4])
        p['loops'] = [gen_calls(rng, e, rep, rng.choice([1, 2, 3, 5])) for _ in range(nl)]
        p['form'] = rng.choice(['opts', 'opts', 'func'])
        p['collect'] = rng.random() < .3
        p['keep'] = rng.random() < .2
        if mode == 'leave':
            p['loops'][0]['leave'] = rng.choice([0, 0.3, 0.5, 1.2]) * e['bt']
            if nl > 2 and rng.random() < .5:
                p['loops'][1]['leave'] = 0.4 * e['bt']
            p['how'] = rng.choice(['run', 'close', 'drop'])
        p['sched'] = gen_sched(rng, est=200) if mode == 'conc' else {'kind': 'none'}
        return p
    if part == 'buffer':
        T = rng.choice([None, 0, 0.1, 0.4, 2.0, 7.5])
        q = buf.gen_program(rng, rng.choice([1, 2, 3, 4, 6, 8]), pwait=0, pthreads=0,
                            T=1 if T is None else T, kinds=('plain', 'plain', 'map'),
                            fails=False, slow=False, empty=False)
        q['T'] = 1 if T is None else T
        g = rng.choice([[0, 0.3, 0.6, 0.95, 1.05, 2.3], [0.95, 0.95, 1.06, 3], [0, 0.5, 4]])
        t = 0.0
        for op in q['ops']:
            op['t'], op['y'] = round(t, 9), 0
            if op.get('as') in ('gen', 'iter'):
                op['as'] = 'list'
            t += rng.choice(g) * (q['T'] or 1) * rng.uniform(.992, 1)
        q['early'] = False
        p.update(prog=q, given=T is not None, sched={'kind': 'none'})
        return p
    p['store'] = rng.choice([None, None, 'dict', 'dictsub', 'falsy', 'custom', 'bounded'])
    ks = [1, '1', (1,), None, 2]
    p['keys'] = rng.sample(ks, rng.choice([1, 2, 3]))
    p['prog'] = []
    for _ in range(rng.choice([1, 2, 4, 6, 8])):
        x = rng.random()
        if x < .15 and p['store']:
            p['prog'].append({'op': 'clear'})
        else:
            p['prog'].append({'op': 'call', 'k': rng.randrange(len(p['keys'])),
                              'n': rng.choice([1, 1, 2]), 'fail': rng.random() < .2})
    p['prefill'] = p['store'] is not None and p['store'] != 'bounded' and rng.random() < .5
    return p


def visits(rng, p):
    """Some loops used in turn, each again and again."""
    p['part'] = 'visits'
    p['n'] = rng.choice([2, 2, 3, 4])
    p['opts'] = dict(rng.choice([{}, {'mbs': 300}, {'bt': 0.2}, {'mcb': 2}]), rt=1e4)
    p['form'] = rng.choice(['opts', 'func'])
    p['steps'] = [{'k': rng.randrange(p['n']), 'key': rng.choice('abc'),
                   'how': rng.choice(['finish', 'finish', 'leave', 'leave', 'leave2',
                                      'drop', 'close', 'gc'] if j else ['finish', 'leave'])}
                  for j in range(rng.choice([3, 5, 8, 12, 20]))]
    return p


def shrinks(spec):
    if spec['part'] == 'visits':
        for j in range(len(spec['steps'])):
            if len(spec['steps']) > 1:
                yield dict(spec, steps=spec['steps'][:j] + spec['steps'][j + 1:])
        return
    for k in ('prog', 'loops'):
        q = spec.get(k)
        if isinstance(q, list):
            for j in range(len(q)):
                if len(q) > 1:
                    yield dict(spec, **{k: q[:j] + q[j + 1:]})
        elif isinstance(q, dict):
            f = 'calls' if 'calls' in q else 'ops'
            for j in range(len(q[f])):
                if len(q[f]) > 1:
                    yield dict(spec, **{k: dict(q, **{f: q[f][:j] + q[f][j + 1:]})})
    if spec['part'] == 'loops':
        for j, q in enumerate(spec['loops']):
            for i in range(len(q['calls'])):
                if len(q['calls']) > 1:
                    q2 = dict(q, calls=q['calls'][:i] + q['calls'][i + 1:])
                    yield dict(spec, loops=spec['loops'][:j] + [q2] + spec['loops'][j + 1:])
        s = spec['sched']
        if s.get('kind') != 'none':
            yield dict(spec, sched={'kind': 'none'})


# -- the parts ------------------------------------------------------------
def full(opts):
    return {LONG[k]: v for k, v in opts.items()}


async def _dummy(batch):
    for k, a in batch:
        yield k, a


def run_batcher(spec, o):
    opts, p = full(spec['opts']), spec['prog']

    def f_class(m, f, _):
        return m.AsyncBackgroundBatcher(f, **opts)

    def f_func(m, f, _):
        return m.async_background_batcher(f, **opts)

    def f_opts(m, f, _):
        return m.async_background_batcher(**opts)(f)

    def f_second(m, f, _):
        deco = m.async_background_batcher(**opts)
        deco(_dummy)
        return deco(f)

    def f_named(m, f, _):
        return m.async_background_batcher(func=None, **opts)(f)
    forms = [('class', f_class), ('direct', f_func), ('options', f_opts),
             ('options, second use', f_second), ('func=None', f_named)]
    first = None
    names = set()
    for name, fac in forms:
        got = []

        def fac2(m, f, _):
            w = fac(m, f, _)
            if name != 'class':
                names.add((w.__name__, w.__qualname__, w.__module__, w.__doc__))
            return w
        tr = batch.run_program(p, fac2)
        stats(tr.sim, o)
        if not batch.check_end(tr, o):
            return
        bad = Out()
        for t in tr.all():
            (c11 if p['repeat'] else c10).judge(p, t, bad)
        for mech, msg in bad.violations:
            o.bad(f'effect-{mech}', f'form {name}, options {opts}: {msg}')
        view = [(round(b.start, 6), None if b.end is None else round(b.end, 6), b.items)
                for b in tr.batches] + \
               [(c.key, round(c.arrive, 6), c.end and round(c.end, 6), c.kind, repr(c.obj))
                for c in tr.calls]
        if first is None:
            first = (name, view)
            o.trace = tr.lines()
            for k, v in bad.counts.items():
                o.counts[k] += v
            o.counts['splits'] += sum(len(b.items) == p['mbs'] for b in tr.batches)
            o.counts['slots_filled'] += tr.max_running == p['mcb']
        elif view != first[1]:
            d = next((a, b) for a, b in zip(first[1] + [None], view + [None]) if a != b)
            o.bad('forms-differ', f'{opts}: {first[0]} gives {d[0]}, {name} gives {d[1]}')
    if len(names) > 1:
        o.bad('forms-differ', f'metadata {names}')
    o.counts['batcher_cases'] += 1
    for k in spec['opts']:
        o.counts['opt_' + k] += 1
    o.nontrivial = bool(opts)


def run_buffer(spec, o):
    p = spec['prog']
    kw = {'timeout': p['T']} if spec['given'] else {}

    async def nothing(args):
        pass
    forms = [('class', lambda m, f, T: m.BufferAsyncCalls(f, **kw)),
             ('direct', lambda m, f, T: m.buffer_until_timeout(f, **kw)),
             ('options', lambda m, f, T: m.buffer_until_timeout(**kw)(f))]

    def second(m, f, T):
        deco = m.buffer_until_timeout(**kw)
        deco(nothing)
        return deco(f)
    forms.append(('options, second use', second))
    first = None
    for name, fac in forms:
        tr = buf.run_program(p, fac)
        stats(tr.sim, o)
        bad = Out()
        for t in tr.all():
            c08.judge(p, t, bad)
        for mech, msg in bad.violations:
            o.bad(f'effect-{mech}', f'form {name}, {kw}: {msg}')
        if o.violations:
            return
        view = [(round(c.start, 6), None if c.end is None else round(c.end, 6),
                 sorted(map(repr, c.args)), c.ok) for c in tr.calls]
        if first is None:
            first = (name, view)
            o.trace = tr.lines()
        elif view != first[1]:
            o.bad('forms-differ', f'{kw}: {first[0]} gives {first[1]}, {name} gives {view}')
    o.counts['buffer_cases'] += 1
    o.counts['opt_timeout'] += spec['given']
    o.nontrivial = spec['given']


STORES = {'dict': dict, 'dictsub': DictStore, 'falsy': Falsy, 'custom': Store,
          'bounded': lambda: Store(1)}


class CErr(Exception):
    pass


def run_cache(spec, o):
    prog, kind = spec['prog'], spec['store']
    views = []

    def form(name, m, func, kw):
        if name == 'direct':
            return m.threadsafe_async_cache(func, **kw)
        if name == 'options':
            return m.threadsafe_async_cache(**kw)(func)
        deco = m.threadsafe_async_cache(**kw)
        if name == 'second':
            async def other(k):
                return 'other'
            deco(other)
            return deco(func)
        if name == 'sibling':
            # a used sibling of the same decorator: shares the store only if given
            async def sib(k):
                return 'sibling'
            s = deco(sib)
            return deco(func), s
        return deco(func)

    for name in ('direct', 'options', 'second', 'sibling'):
        log, viol = [], []

        def scen():
            m = load.fresh('asyncio')
            store = STORES[kind]() if kind else None
            kw = {} if store is None else {'cache': store}
            inv = []
            fail = [False]

            async def func(k):
                inv.append(k)
                await aio.sleep(0.5)
                if fail[0]:
                    raise CErr(len(inv))
                return ('v', k, len(inv))

            w = form(name, m, func, kw)
            sib = None
            if name == 'sibling':
                w, sib = w

            async def main():
                raw = {}
                keys = spec['keys']
                if sib is not None and store is None:
                    for k in keys:
                        r = await sib(k)
                        if r != 'sibling':
                            viol.append(('mixed-up', f'sibling({k!r}) gave {r!r}'))
                if spec['prefill']:
                    async def pre(k):
                        return ('pre', k)
                    g = m.threadsafe_async_cache(pre, **kw) if name == 'options' else \
                        m.threadsafe_async_cache(**kw)(pre)
                    await g(keys[0])
                    if not len(store):
                        viol.append(('store-unused', f'{kind} still empty after g()'))
                    n = len(inv)
                    r = await w(keys[0])
                    if r != ('pre', keys[0]) or len(inv) != n:
                        viol.append(('store-unused', f'a value stored by another function '
                                                     f'in the same {kind} was ignored: {r!r}'))
                    o.counts['shared_hits'] += 1
                    log.append(('pre', repr(r)))
                    store.clear()
                for op in prog:
                    if op['op'] == 'clear':
                        store.clear()
                        continue
                    k = op['k']
                    key = keys[k]
                    if store is None:
                        have = k in raw
                    else:
                        have = k in raw and raw[k] in store
                    fail[0] = op['fail']
                    n, before = len(inv), set() if store is None else set(store)
                    t0 = sim.now()
                    rs = await aio.gather(*[w(key) for _ in range(op['n'])],
                                          return_exceptions=True)
                    log.append((k, len(inv) - n, repr(rs), round(sim.now() - t0, 6)))
                    if (len(inv) - n == 0) != have:
                        viol.append(('store-unused' if kind else 'cache-effect',
                                     f'call {op} {"had" if have else "had no"} entry in '
                                     f'{kind} but {len(inv) - n} invocations'))
                    if not have and not op['fail']:
                        if store is None:
                            raw[k] = True
                        else:
                            new = set(store) - before
                            if len(new) != 1:
                                viol.append(('store-unused', f'{len(new)} new entries in '
                                             f'{kind} after a computation'))
                                return
                            raw[k] = new.pop()
                            o.counts['store_used'] += 1
                log.append(('store', len(store) if store is not None else None))
            aio.run(main())
            views.append((name, log))

        s, _ = execute(scen)
        stats(s, o)
        for mech, msg in viol:
            o.bad(mech, f'form {name}: {msg}; {log}')
        if s.verdict or s.thread_errors:
            o.bad('hang', f'form {name}: {s.verdict} {s.thread_errors} {s.blocked_report}')
        if o.violations:
            return
    o.trace = [repr(v) for v in views]
    for name, log in views[1:]:
        if log != views[0][1]:
            o.bad('forms-differ', f'direct gives {views[0][1]}, {name} gives {log}')
    o.counts['cache_cases'] += 1
    o.nontrivial = kind is not None


def release(tr):
    """Drop what keeps a loop alive."""
    tr.spawn = None
    for c in tr.calls:
        c.task = None
        e, seen = c.obj if isinstance(c.obj, BaseException) else None, 0
        while e is not None and seen < 5:
            e.__traceback__ = None
            e, seen = e.__context__, seen + 1
    for b in tr.batches:
        b.loop = None
        if b.raised:
            b.raised[0].__traceback__ = None
        for y in b.yields:
            if isinstance(y[1], BaseException):
                y[1].__traceback__ = None


def run_loops(spec, o):
    opts, loops, mode = full(spec['opts']), spec['loops'], spec['mode']
    trs = [batch.Trace() for _ in loops]
    foreign = []
    ids = []
    kept = []

    def scen():
        m = load.fresh('asyncio')
        funcs = [batch.make_func(dict(p, noloop=True), tr) for p, tr in zip(loops, trs)]

        async def func(items):
            lp = aio.get_running_loop()
            k = getattr(lp, '_vk', None)
            tid = getattr(lp, '_vt', None)
            if tid != threading.get_ident():
                foreign.append(f'batch {items} of loop {k} runs in another thread')
            async for x in funcs[k](items):
                yield x
        f = m.async_background_batcher(**opts)(func) if spec['form'] == 'opts' else \
            m.async_background_batcher(func, **opts)

        async def main(k, t0):
            lp = aio.get_running_loop()
            lp._vk, lp._vt = k, threading.get_ident()
            ids.append(id(lp))
            if spec.get('keep'):
                kept.append(lp)
            await batch.drive(loops[k], trs[k], f, t0)

        def one(k, t0):
            p = loops[k]
            if p.get('leave') is not None and spec['how'] != 'run':
                lp = aio.new_event_loop()
                lp.run_until_complete(main(k, t0))
                if spec['how'] == 'close':
                    lp.close()
                return
            if spec['collect'] and ids:
                # a new loop where a dead one was: same id()
                spare = []
                for _ in range(30):
                    lp = aio.new_event_loop()
                    if id(lp) in ids:
                        break
                    spare.append(lp)
                for x in spare:
                    if x is not lp:
                        x.close()
                del spare[:]
                with aio.Runner(loop_factory=lambda: lp) as r:
                    r.run(main(k, t0))
                return
            aio.run(main(k, t0))

        if mode in ('seq', 'leave'):
            for k in range(len(loops)):
                one(k, sim.now())
                release(trs[k])
                if spec['collect']:
                    gc.collect()
        elif mode == 'seqthread':
            for k in range(len(loops)):
                t = threading.Thread(target=one, args=(k, sim.now()))
                t.start()
                t.join()
                release(trs[k])
                if spec['collect']:
                    gc.collect()
        elif mode == 'conc':
            ths = [threading.Thread(target=one, args=(k, 0.0)) for k in range(len(loops))]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        else:
            # the loops alternate in one thread: each is frozen while another runs
            lps = [aio.new_event_loop() for _ in loops]
            for lp in lps:
                aio.set_event_loop(lp)
            for k, lp in enumerate(lps):
                t = lp.create_task(main(k, sim.now()))
                lp._vtask = t
                lp.run_until_complete(aio.wait([t], timeout=0.0))
            for k, lp in enumerate(lps):
                lp.run_until_complete(lp._vtask)
            for lp in lps:
                for t in aio.all_tasks(lp):
                    t.cancel()
                lp.close()
            aio.set_event_loop(None)

    s, _ = execute(scen, spec['sched'])
    stats(s, o)
    o.trace = [f'loop {k}: {x}' for k, tr in enumerate(trs) for x in tr.lines()]
    ctx = ' | '.join(o.trace)[:1200]
    if s.verdict in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{s.verdict}: {s.blocked_report}; {ctx}')
        return
    if s.verdict:
        o.inconclusive = s.verdict
        return
    if s.thread_errors:
        o.bad('thread-died', f'{s.thread_errors[:3]}; {ctx}')
    if foreign:
        o.bad('wrong-loop', f'{foreign[:2]}; {ctx}')
    for k, (p, tr) in enumerate(zip(loops, trs)):
        mine = {(c.key, repr(c.arg)) for c in tr.calls}
        for b in tr.batches:
            for key, arg in b.items:
                if (key, repr(arg)) not in mine:
                    o.bad('foreign-item', f'loop {k} was given {key!r}, {arg!r}; {ctx}')
        if p.get('leave') is not None or mode == 'alt':
            # abandoned or frozen: times say nothing
            if mode == 'alt':
                for c in tr.calls:
                    why = batch.explain(c, tr)
                    if why:
                        o.bad(why[0], f'loop {k} {c!r}: {why[1]}; {ctx}')
            continue
        bad = Out()
        for t in tr.all():
            (c11 if p['repeat'] else c10).judge(p, t, bad)
        for mech, msg in bad.violations:
            o.bad(f'loop-{mech}', f'{mode} loop {k}, options {opts}: {msg}; {ctx}')
        for c in tr.calls:
            why = batch.explain(c, tr)
            if why:
                o.bad(why[0], f'loop {k} {c!r}: {why[1]}; {ctx}')
    o.counts['loop_cases'] += 1
    o.counts['loops_used'] += len(loops)
    o.counts['concurrent_loops'] += mode == 'conc'
    o.counts['reused_ids'] += len(set(ids)) < len(ids)
    for k in spec['opts']:
        o.counts['opt_' + k] += 1
    o.nontrivial = len(loops) > 1


def run_visits(spec, o):
    """What a loop's batcher knows must not depend on the use of other loops."""
    log, viol = [], []
    opts = full(spec['opts'])

    def scen():
        m = load.fresh('asyncio')
        gens = [0] * spec['n']
        asked = {}            # (loop index, generation, key) -> number of computations
        lps = [aio.new_event_loop() for _ in gens]
        pend = [[] for _ in gens]

        async def func(items):
            items = list(items)
            k = next(j for j, lp in enumerate(lps) if lp is aio.get_running_loop())
            log.append(f'loop {k}.{gens[k]}: batch {items}')
            await aio.sleep(0.1)
            for key, arg in items:
                if arg != (k, gens[k]):
                    viol.append(('foreign-item', f'loop {k}.{gens[k]} was given {items}'))
                a = (k, gens[k], key)
                asked[a] = asked.get(a, 0) + 1
                if asked[a] > 1:
                    viol.append(('forgotten', f'{key!r} asked again of loop {k} within its '
                                              'retention time'))
                yield key, (a, asked[a])

        f = m.async_background_batcher(**opts)(func) if spec['form'] == 'opts' else \
            m.async_background_batcher(func, **opts)

        async def one(k, key):
            try:
                r = await f((k, gens[k]), key=key)
            except sim.SimAbort:
                raise
            except BaseException as e:
                viol.append(('failed', f'{key!r} on loop {k}: {e!r}'))
                return
            o.counts['visit_answers'] += 1
            if r != ((k, gens[k], key), 1):
                viol.append(('mixed-up', f'{key!r} on loop {k}.{gens[k]} was given {r!r}'))

        def finish(k):
            if pend[k]:
                aio.set_event_loop(lps[k])
                lps[k].run_until_complete(aio.wait(pend[k], timeout=500))
                if not all(t.done() for t in pend[k]):
                    viol.append(('hang', f'loop {k}: unanswered'))
                del pend[k][:]

        for s in spec['steps']:
            k, lp = s['k'], lps[s['k']]
            aio.set_event_loop(lp)
            log.append(f'step {s}')
            if s['how'] in ('drop', 'close'):
                finish(k)
                for t in aio.all_tasks(lp):
                    t.cancel()
                lp.run_until_complete(aio.sleep(0))
                if s['how'] == 'close':
                    lp.close()
                gens[k] += 1
                lps[k] = lp = aio.new_event_loop()
                aio.set_event_loop(lp)
                gc.collect()
            if s['how'] == 'gc':
                gc.collect()
            if s['how'] == 'finish' or s['how'] == 'gc':
                finish(k)
                lp.run_until_complete(one(k, s['key']))
            else:
                pend[k].append(lp.create_task(one(k, s['key'])))
                lp.run_until_complete(aio.sleep(0.06 if s['how'] == 'leave2' else 0))
        for k, lp in enumerate(lps):
            finish(k)
            for t in aio.all_tasks(lp):
                t.cancel()
            lp.close()
        aio.set_event_loop(None)

    s, _ = execute(scen)
    stats(s, o)
    o.trace = log
    if s.verdict or s.thread_errors:
        o.bad('hang', f'{s.verdict} {s.thread_errors} {s.blocked_report}; {log[-12:]}')
    for mech, msg in viol[:3]:
        o.bad(mech, f'{msg}; {log}')
    o.counts['visits'] += len(spec['steps'])
    o.nontrivial = len({x['k'] for x in spec['steps']}) > 1


def run(spec):
    o = Out()
    {'batcher': run_batcher, 'buffer': run_buffer, 'cache': run_cache,
     'loops': run_loops, 'visits': run_visits}[spec['part']](spec, o)
    o.key = repr(spec)
    return o
