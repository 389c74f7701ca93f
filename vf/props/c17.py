"""Cross-loop awaiting: transparent, on the target loop, completing."""
import asyncio as aio
import threading
import time
from vf import sim, load
from vf.runner import Out, gen_sched
from vf.harness import execute, odd, odd_value, stats

ID = 'C17'
LEVEL = 'exploration'
RULE = ('a case = 1..3 caller threads with own loops, each awaiting 1..3 awaitables '
        '(coroutine, future, task, custom; returning, raising, cancelled; durations from a '
        'grid; some resolved by another thread) through ensure_aw / run_aw_threadsafe on one '
        'target loop that is idle, run by loop_in_thread (started/stopped at chosen times, '
        'possibly twice), the own loop, or closed, or a net of 1..40 loops with chains of '
        'calls across them, calls back to the first loop and overlapping '
        'loop_in_thread calls, with some callers cancelled or timing out at chosen times (they '
        'end in time, the others are judged as ever), under a random line-level schedule; '
        'non-trivial = two calls on one target in flight at once or a start/stop in between')
CASES = {'quick': 18000, 'thorough': 150000}
NEED = {'calls': 15000, 'returned': 8000, 'raised': 3000, 'on_idle': 5000, 'on_running': 3000,
        'closed_errors': 300, 'user_run': 300, 'own': 800, 'starts': 3000, 'stops': 3000, 'concurrent': 3000,
        'net_cases': 600, 'cut': 800, 'net_calls': 2500, 'net_deep': 10, 'net_many': 20,
        'net_overlapping': 900, 'stopped_twice': 300}
ASSUMPTIONS = ['run_aw_threadsafe is only used on a target that is running until the call '
               'ended, or on a closed one', 'the standard library re-creates TimeoutError '
               'when it crosses loops: same type and arguments are accepted']
EPS = 0.25


class AExc(Exception):
    pass


class ABase(BaseException):
    pass


class Call:
    __slots__ = ('id', 'spec', 'who', 'start', 'end', 'kind', 'obj', 'exp', 'expobj',
                 'aend', 'loops', 'threads', 'before', 'parent', 'own')

    def __init__(self, id, spec, who):
        self.id, self.spec, self.who = id, spec, who
        self.start = self.end = self.kind = self.obj = None
        self.exp = self.expobj = self.aend = self.before = self.parent = None
        self.loops, self.threads, self.own = [], [], False

    def __repr__(self):
        s = self.spec
        return (f"call{self.id}({self.who} {s['helper']} {s['kind']}/{s['out']} d={s['d']} "
                f"cut={s.get('tmo')}) "
                f'{self.start}-{self.end} {self.kind} {self.obj!r} (awaitable: {self.exp} '
                f'{self.expobj!r} at {self.aend})')


def gen_call(rng, target, mode):
    d = rng.choice([None, 0, 0, 1, 1, 2.5])
    if rng.random() < .01:
        d = rng.choice([31, 65])
    return {'helper': 'ensure', 'd': d, 'ov': rng.random() < .25,
            'kind': rng.choice(['coro', 'coro', 'coro', 'future', 'task', 'custom', 'ext']),
            'out': rng.choice(['ret', 'ret', 'ret', 'none', 'exc', 'key', 'runtime',
                               'timeout', 'cancel', 'base', 'stop', 'odd']),
            'delay': rng.choice([0, 0, 0, 1, 1, 2.5])}


def gen_cut(rng, p):
    """Some callers lose interest: cancelled, or by a timeout."""
    p.update(tmo=rng.choice([0, 0, 0.02, 0.1, 0.5, 1, 1, 2.5]),
             cut=rng.choice(['cancel', 'wait_for', 'twice']))


def gen_node(rng, nl, depth, kids, tgt=None):
    t = rng.randrange(nl) if tgt is None else tgt
    n = {'t': -1 if rng.random() < .15 and tgt is None else t, 'h': 'ensure',
         'd1': rng.choice([None, None, 0, 0.1, 1]), 'd2': rng.choice([None, 0, 0.1]),
         'out': rng.choice(['ret', 'ret', 'ret', 'none', 'exc', 'key', 'timeout', 'cancel',
                            'base', 'odd']),
         'gather': rng.random() < .6, 'kids': [], 'ov': rng.random() < .25}
    if rng.random() < .07:
        gen_cut(rng, n)
    if depth > 0:
        n['kids'] = [gen_node(rng, nl, depth - 1, kids)
                     for _ in range(rng.choice([0, 1, 1, 2]) if kids else 1)]
    return n


def gen_net(rng, tier):
    """Many loops at once, chains and back-calls between them, overlapping starts."""
    r = rng.random()
    sched = gen_sched(rng, est=rng.choice([80, 200, 400]))
    if r < .03 + .03 * (tier == 'thorough'):         # many loops / deep chains
        nl = rng.choice([6, 9, 17, 34, 40])
        chain = None
        for t in reversed(range(nl)):
            n = gen_node(rng, nl, 0, 0, tgt=t)
            n['kids'] = [chain] if chain else []
            chain = n
        p = {'loops': [rng.choice(['idle', 'thread']) if rng.random() < .3 else k
                       for k in [rng.choice(['idle', 'thread'])] * nl],
             'roots': [[0, chain]] if rng.random() < .6 else
             [[rng.choice([0, 1]), gen_node(rng, nl, 1, 1)] for _ in range(3)], 'ctl': []}
    elif r < .55:
        nl = rng.choice([2, 2, 3, 4])
        p = {'loops': [rng.choice(['idle', 'idle', 'thread']) for _ in range(nl)],
             'roots': [[rng.choice([0, 0, 0.1, 1]), gen_node(rng, nl, rng.choice([1, 2, 3]), 1)]
                       for _ in range(rng.choice([1, 2, 2, 3]))], 'ctl': []}
    else:                                            # overlapping loop_in_thread
        nl = rng.choice([1, 1, 2])
        p = {'loops': ['idle'] * nl,
             'roots': [[rng.choice([0, 0.5, 1]), gen_node(rng, nl, rng.choice([0, 0, 1]), 1)]
                       for _ in range(rng.choice([0, 1, 2, 3]))],
             'ctl': [[rng.randrange(nl), rng.choice([0, 0, 0.5, 1]), rng.choice([0, 0.5, 1, 2]),
                      rng.choice([1, 1, 2]), rng.choice([0, 0, rng.randrange(90)])]
                     for _ in range(rng.choice([2, 2, 3]))]}
        if rng.random() < .3:                        # the stops coincide
            k, w, d = rng.randrange(nl), rng.choice([0, 0.5]), rng.choice([0, 0.5])
            p['ctl'] = [[k, w, d + .05, 1, rng.choice([0, 0, rng.randrange(90)])],
                        [k, w, d, 1, rng.randrange(90)]] + p['ctl'][:rng.choice([0, 0, 1])]
    return {'net': p, 'sched': sched}


def gen(rng, i, tier):
    if rng.random() < .3:
        return gen_net(rng, tier)
    target = rng.choice(['idle', 'idle', 'idle', 'thread', 'thread', 'thread', 'closed',
                         'own', 'user'])
    n = rng.choice([1, 2, 2, 2, 3, 3])
    p = {'target': target, 'callers': [], 'control': []}
    for _ in range(n):
        p['callers'].append({'calls': [gen_call(rng, target, None)
                                       for _ in range(rng.choice([1, 1, 2, 3]))],
                             'gather': rng.random() < .4, 'delay': rng.choice([0, 0, 1])})
    if target == 'idle' and rng.random() < .5:
        # loop_in_thread comes while callers borrow the loop
        for _ in range(rng.choice([1, 1, 2])):
            p['control'].append({'wait': rng.choice([0, 0, 0.5, 1, 2.5]),
                                 'for': rng.choice([0, 0.5, 1, 4])})
    elif target in ('thread', 'user'):
        keep = rng.random() < .5
        p['control'].append({'wait': -1, 'for': None if keep else
                             rng.choice([0, 0.5, 1, 1, 2])})
        if not keep and rng.random() < .5:
            p['control'].append({'wait': rng.choice([0, 0.5, 1]),
                                 'for': rng.choice([0, 1, 3])})
        if keep:
            for c in p['callers']:
                for k in c['calls']:
                    if rng.random() < .4:
                        k['helper'] = 'raw'
    elif target == 'closed':
        for c in p['callers']:
            for k in c['calls']:
                k['kind'] = rng.choice(['coro', 'custom', 'future'])
                k['resolved'] = rng.choice([None, 'ret'])
                k['helper'] = rng.choice(['ensure', 'raw'])
    if target in ('idle', 'thread', 'own', 'user') and rng.random() < .35:
        for c in p['callers']:
            for k in c['calls']:
                if rng.random() < .4:
                    gen_cut(rng, k)
    if target == 'user' and not keep and rng.random() < .4:
        p['close'] = True
        del p['control'][1:]
    for c in p['control']:
        if rng.random() < .2:
            c['twice'] = True
    p['double'] = rng.random() < .15 and target != 'closed'
    p['sched'] = gen_sched(rng, est=rng.choice([80, 200, 400]))
    return p


def shrink_node(n):
    for k in range(len(n['kids'])):
        yield dict(n, kids=n['kids'][:k] + n['kids'][k + 1:])
        for x in shrink_node(n['kids'][k]):
            yield dict(n, kids=n['kids'][:k] + [x] + n['kids'][k + 1:])
    for a, v in (('out', 'ret'), ('d1', None), ('d2', None)):
        if n[a] != v:
            yield dict(n, **{a: v})
    if n.get('tmo') is not None:
        yield dict(n, tmo=None)


def shrink_net(spec):
    p = spec['net']
    for f in ('roots', 'ctl'):
        for k in range(len(p[f])):
            yield dict(spec, net=dict(p, **{f: p[f][:k] + p[f][k + 1:]}))
    for k, (d, n) in enumerate(p['roots']):
        for x in shrink_node(n):
            yield dict(spec, net=dict(p, roots=p['roots'][:k] + [[d, x]] + p['roots'][k + 1:]))
    if spec['sched'].get('kind') != 'none':
        yield dict(spec, sched={'kind': 'none'})


def shrinks(spec):
    if 'net' in spec:
        yield from shrink_net(spec)
        return
    cs = spec['callers']
    for k in range(len(cs)):
        if len(cs) > 1:
            yield dict(spec, callers=cs[:k] + cs[k + 1:])
        calls = cs[k]['calls']
        for j in range(len(calls)):
            if len(calls) > 1:
                yield dict(spec, callers=cs[:k] + [dict(cs[k], calls=calls[:j] + calls[j + 1:])]
                           + cs[k + 1:])
            for a, v in (('kind', 'coro'), ('out', 'ret'), ('delay', 0), ('d', 1),
                         ('tmo', None)):
                if calls[j].get(a) != v:
                    c2 = dict(calls[j], **{a: v})
                    yield dict(spec, callers=cs[:k] + [dict(
                        cs[k], calls=calls[:j] + [c2] + calls[j + 1:])] + cs[k + 1:])
    for k in range(len(spec['control'])):
        if len(spec['control']) > 1:
            yield dict(spec, control=spec['control'][:k] + spec['control'][k + 1:])
    s = spec['sched']
    if s.get('points') and len(s['points']) > 1:
        for j in range(len(s['points'])):
            yield dict(spec, sched=dict(s, points=s['points'][:j] + s['points'][j + 1:]))
    if s.get('kind') != 'none':
        yield dict(spec, sched={'kind': 'none'})


EXC = {'exc': AExc, 'key': KeyError, 'runtime': RuntimeError, 'timeout': TimeoutError,
       'cancel': aio.CancelledError, 'base': ABase, 'stop': StopAsyncIteration, 'odd': odd}


async def cutting(coro, spec):
    """Await it as a caller who loses interest at some time."""
    if spec.get('tmo') is None:
        return await coro
    if spec['cut'] == 'wait_for':
        return await aio.wait_for(coro, spec['tmo'])
    t = aio.ensure_future(coro)
    for k in range(2 if spec['cut'] == 'twice' else 1):
        aio.get_running_loop().call_later(spec['tmo'] + k * .01, t.cancel)
    return await t


def was_cut(c):
    """Ended by its own caller, in time?"""
    tmo = c.spec.get('tmo')
    return tmo is not None and c.kind == 'exc' and isinstance(
        c.obj, (aio.CancelledError, TimeoutError)) and \
        c.start + tmo - 1e-6 <= c.end <= c.start + tmo + EPS


def agree(c):
    """Did the caller get exactly what the awaitable produced?"""
    return c.kind == c.exp and (
        c.obj is c.expobj or c.kind == 'exc' and (
            isinstance(c.expobj, aio.CancelledError) and
            isinstance(c.obj, aio.CancelledError) or
            type(c.expobj) is TimeoutError and type(c.obj) is TimeoutError and
            c.obj.args == c.expobj.args))


def inherits(c):
    """Did the caller of any call around this one try to end it by then?"""
    x = c
    while x.parent is not None:
        x = x.parent
        tmo = x.spec.get('tmo')
        if tmo is not None and (c.end is None or c.end >= x.start + tmo - 1e-6):
            return True
    return False


def run_net(spec):
    p = spec['net']
    o = Out()
    calls, notes, sessions = [], [], []
    loops = []
    n = {'starts': 0, 'stops': 0, 'depth': 0, 'overlap': 0, 'stopped_twice': 0}
    stop_calls = []            # [loop, begin, end] of calls of stop functions

    def scen():
        m = load.fresh('asyncio')
        for k in range(len(p['loops'])):
            L = aio.new_event_loop()
            loops.append(L)

            def on_run(_, k=k):
                sessions.append([k, threading.get_ident(), sim.now(), None])

            def on_stop(_, k=k):
                for x in sessions:
                    if x[0] == k and x[1] == threading.get_ident() and x[3] is None:
                        x[3] = sim.now()
            L.on_run, L.on_stop = on_run, on_stop

        def start(k):
            began = [x for x in stop_calls if x[2] is None]
            before = len(stop_calls)
            stop = m.loop_in_thread(loops[k])
            with sim.atomic():
                n['starts'] += 1
                running = loops[k]._thread_id is not None
                live = [x for x in sessions if x[0] == k and x[3] is None]
                if any(x[0] == k for x in began + stop_calls[before:]):
                    live = []      # somebody else may have stopped it already
                elif not running:
                    notes.append(('returned-idle', f'loop_in_thread of L{k} returned while the '
                                                   f'loop was not running at {sim.now()}'))

            def stopper():
                call = [k, sim.now(), None]
                stop_calls.append(call)
                stop()
                with sim.atomic():
                    call[2] = sim.now()
                    n['stops'] += 1
                    if any(x[3] is None for x in live):
                        notes.append(('stopped-early', f'stop() of L{k} returned before the '
                                                       f'loop had stopped at {sim.now()}'))
            return stopper

        async def do(node, root, depth, parent=None):
            c = Call(len(calls), dict(helper=node['h'], kind='coro', out=node['out'],
                                      d=node['d1'], tmo=node.get('tmo'),
                                      cut=node.get('cut')), f'depth{depth}/L{node["t"]}')
            calls.append(c)
            c.parent = parent
            n['depth'] = max(n['depth'], depth)
            tgt = root if node['t'] < 0 else loops[node['t']]
            c.own = tgt is aio.get_running_loop()

            def here():
                c.loops.append(aio.get_running_loop() is tgt)

            async def co():
                here()
                if node['d1'] is not None:
                    await aio.sleep(node['d1'])
                    here()
                if node['gather']:
                    await aio.gather(*[do(x, root, depth + 1, c) for x in node['kids']])
                else:
                    for x in node['kids']:
                        await do(x, root, depth + 1, c)
                        here()
                if node['d2'] is not None:
                    await aio.sleep(node['d2'])
                here()
                c.aend = sim.now()
                if node['out'] in ('ret', 'none'):
                    c.exp, c.expobj = 'ret', (
                        None if node['out'] == 'none' else
                        odd_value(c.id) if node.get('ov') else object())
                    return c.expobj
                c.exp, c.expobj = 'exc', EXC[node['out']](c.id)
                raise c.expobj
            c.start = sim.now()
            try:
                r = await cutting(m.ensure_aw(co(), tgt), c.spec)
                k = 'ret'
            except sim.SimAbort:
                raise
            except BaseException as e:
                if c.kind == 'hang':
                    raise
                r, k = e, 'exc'
            c.kind, c.obj, c.end = k, r, sim.now()

        def caller(delay, node):
            async def main():
                mine = len(calls)
                t = aio.ensure_future(do(node, aio.get_running_loop(), 0))
                await aio.wait([t], timeout=500)
                if not t.done():
                    for c in calls:
                        if c.kind is None:
                            c.kind = 'hang'
                    t.cancel()
            if delay:
                time.sleep(delay)
            aio.run(main())

        def control(k, wait, dur, times, lag=0):
            for _ in range(times):
                if wait:
                    time.sleep(wait)
                stop = start(k)
                n['overlap'] += 1
                if dur:
                    time.sleep(dur)
                for _ in range(lag):
                    sim.point()
                if lag % 3 == 1:              # and somebody else does, too
                    n['stopped_twice'] += 1
                    th = threading.Thread(target=stop)
                    th.start()
                    stop()
                    th.join()
                else:
                    stop()
        stops = [start(k) for k, x in enumerate(p['loops']) if x == 'thread']
        ths = [threading.Thread(target=caller, args=r) for r in p['roots']] + \
              [threading.Thread(target=control, args=c) for c in p['ctl']]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for s in stops:
            s()
        time.sleep(100)         # what was cut may go on for some time

    s, _ = execute(scen, spec['sched'], max_steps=900_000)
    stats(s, o)
    o.trace = [repr(c) for c in calls] + [f'run {x}' for x in sessions]
    ctx = ' | '.join(o.trace)[:1100]
    o.key = repr(p) + str(s.digest)
    for mech, msg in notes:
        o.bad(mech, f'{msg}; {ctx}')
    if s.double_run:
        o.bad('double-run', f'a loop was run by two threads at once; {ctx}')
    if s.verdict in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{s.verdict}: {s.blocked_report}; {ctx}')
        return o
    if s.verdict:
        o.inconclusive = s.verdict
        return o
    if s.thread_errors:
        o.bad('thread-died', f'{s.thread_errors[:3]}; {ctx}')
    for k, L in enumerate(loops):
        if L._thread_id is not None:
            o.bad('left-running', f'L{k} is still being run; {ctx}')
    o.counts.update(starts=n['starts'], stops=n['stops'], sessions=len(sessions),
                    net_cases=1, net_calls=len(calls), net_deep=n['depth'] > 3,
                    net_loops=len(loops), net_overlapping=n['overlap'],
                    stopped_twice=n['stopped_twice'],
                    net_many=len(loops) > 5)
    o.nontrivial = len(calls) > 1 or n['overlap'] > 1
    for c in calls:
        o.counts['calls'] += 1
        if was_cut(c):
            o.counts['cut'] += 1
            continue
        tmo = c.spec.get('tmo')
        if inherits(c) or tmo is not None and c.own and c.end and c.end >= c.start + tmo - 1e-6:
            # may be left behind on an idle loop / do() swallows cancellations
            o.counts['orphans'] += 1
            continue
        if c.kind in ('hang', None):
            o.bad('hang', f'{c!r} never completed; {ctx}')
            continue
        if c.exp is None:
            o.bad('not-evaluated', f'{c!r} completed before its awaitable; {ctx}')
            continue
        if not all(c.loops):
            o.bad('wrong-loop', f'{c!r} evaluated on another loop; {ctx}')
        if not agree(c):
            o.bad('wrong-outcome', f'{c!r}; {ctx}')
        o.counts['returned' if c.kind == 'ret' else 'raised'] += 1
        if c.end > max(c.aend, c.start) + EPS:
            o.bad('late', f'{c!r} completed later than its awaitable; {ctx}')
    return o


def run(spec):
    if 'net' in spec:
        return run_net(spec)
    o = Out()
    calls = []
    sessions = []              # [thread, start, end]
    notes = []
    state = {'stops': 0, 'starts': 0, 'final': None, 'closed_start': None}

    def scen():
        m = load.fresh('asyncio')
        L = aio.new_event_loop()

        def on_run(_):
            sessions.append([threading.get_ident(), sim.now(), None])

        def on_stop(_):
            for s in sessions:
                if s[0] == threading.get_ident() and s[2] is None:
                    s[2] = sim.now()
        L.on_run, L.on_stop = on_run, on_stop
        if spec['target'] == 'closed':
            L.close()

        def result(c):
            """The outcome of the awaitable; recorded as it happens."""
            k = c.spec['out']
            c.aend = sim.now()
            if k in ('ret', 'none'):
                c.exp, c.expobj = 'ret', (
                    None if k == 'none' else odd_value(c.id) if c.spec.get('ov') else object())
                return c.expobj
            c.exp = 'exc'
            c.expobj = EXC[k](c.id)
            raise c.expobj

        def make(c, tgt):
            d, kind = c.spec['d'], c.spec['kind']

            async def co():
                c.loops.append(aio.get_running_loop())
                c.threads.append(threading.get_ident())
                if d is not None:
                    await aio.sleep(d)
                c.loops.append(aio.get_running_loop())
                c.threads.append(threading.get_ident())
                return result(c)
            if kind == 'coro' or kind == 'task' and c.before is None:
                return co()
            if kind == 'task':
                return c.before
            if kind == 'custom':
                class Aw:
                    def __await__(self):
                        return co().__await__()
                return Aw()
            f = tgt.create_future()

            def fill():
                c.loops.append(aio.get_running_loop())
                c.threads.append(threading.get_ident())
                if f.done():
                    return
                try:
                    f.set_result(result(c))
                except aio.CancelledError as e:
                    c.expobj = e
                    f.cancel()
                except BaseException as e:
                    f.set_exception(e)
            if tgt.is_closed():
                if c.spec.get('resolved') == 'ret':
                    f.set_result(1)
                return f
            if kind == 'ext':         # resolved by yet another thread
                def ext():
                    time.sleep(d or 0)
                    try:
                        tgt.call_soon_threadsafe(fill)
                    except RuntimeError:
                        pass
                threading.Thread(target=ext).start()
            else:
                try:
                    tgt.call_soon_threadsafe(lambda: tgt.call_later(d or 0, fill))
                except RuntimeError:       # closed at this moment
                    pass
            return f

        async def one(c, tgt):
            if c.spec['delay']:
                await aio.sleep(c.spec['delay'])
            aw = make(c, tgt)
            c.start = sim.now()
            try:
                if c.spec['helper'] == 'raw':
                    r = await cutting(m.run_aw_threadsafe(aw, tgt), c.spec)
                else:
                    r = await cutting(m.ensure_aw(aw, tgt), c.spec)
                k = 'ret'
            except sim.SimAbort:
                raise
            except BaseException as e:
                if c.kind == 'hang':
                    return
                r, k = e, 'exc'
            c.kind, c.obj, c.end = k, r, sim.now()
            if hasattr(aw, 'close') and spec['target'] == 'closed':
                aw.close()

        def caller(cs, cspec):
            async def main():
                tgt = aio.get_running_loop() if spec['target'] == 'own' else L
                if cspec['gather']:
                    ts = [aio.ensure_future(one(c, tgt)) for c in cs]
                    await aio.wait(ts, timeout=500)
                else:
                    ts = []
                    for c in cs:
                        t = aio.ensure_future(one(c, tgt))
                        ts.append(t)
                        await aio.wait([t], timeout=500)
                for c, t in zip(cs, ts):
                    if not t.done():
                        c.kind = 'hang'
                        t.cancel()
            if cspec['delay']:
                time.sleep(cspec['delay'])
            aio.run(main())

        first = threading.Event()
        callers_done = threading.Event()

        def control():
            for k, ct in enumerate(spec['control']):
                if ct['wait'] > 0:
                    time.sleep(ct['wait'])
                if k == 0 and spec['target'] == 'user':
                    # the user's own thread runs the loop, for some time
                    aio.set_event_loop(L)
                    L.call_soon(first.set)
                    if ct['for'] is None:
                        def over():
                            callers_done.wait(2000)
                            L.call_soon_threadsafe(L.stop)
                        threading.Thread(target=over).start()
                        L.run_forever()
                    elif ct['for'] == 1:
                        L.call_later(ct['for'], L.stop)
                        L.run_forever()
                    else:
                        L.run_until_complete(aio.sleep(ct['for']))
                    state['user'] = 1
                    if spec.get('close'):
                        try:
                            with sim.atomic():   # checks first that nobody runs it
                                L.close()
                        except RuntimeError:     # being borrowed
                            pass
                        else:
                            state['closed'] = sim.now()
                    continue
                try:
                    stop = m.loop_in_thread(L)
                finally:
                    with sim.atomic():
                        live = [s for s in sessions if s[2] is None]
                        running = L._thread_id is not None
                        state['starts'] += 1
                        if k == 0:
                            first.set()
                if not running:
                    notes.append(('returned-idle', 'loop_in_thread returned while the loop '
                                                   f'was not running at {sim.now()}'))
                if ct['for'] is None:
                    callers_done.wait(2000)
                elif ct['for']:
                    time.sleep(ct['for'])

                def do_stop():
                    stop()
                    with sim.atomic():
                        state['stops'] += 1
                        if live and any(s[2] is None for s in live):
                            notes.append(('stopped-early', 'stop() returned before the loop '
                                                           f'had stopped at {sim.now()}'))
                if ct.get('twice'):           # from two threads at once
                    o.counts['stopped_twice'] += 1
                    second = threading.Thread(target=do_stop)
                    second.start()
                    do_stop()
                    second.join()
                    state['stops'] -= 1
                else:
                    do_stop()

        ths = []
        for k, cspec in enumerate(spec['callers']):
            cs = []
            for sp in cspec['calls']:
                c = Call(len(calls), sp, f'thread{k}')
                calls.append(c)
                cs.append(c)
                if sp['kind'] == 'task' and spec['target'] in ('idle', 'thread', 'user'):
                    # created up front: create_task() is not thread-safe
                    async def co(c=c):
                        c.loops.append(aio.get_running_loop())
                        c.threads.append(threading.get_ident())
                        if c.spec['d'] is not None:
                            await aio.sleep(c.spec['d'])
                        return result(c)
                    c.before = L.create_task(co())
            ths.append(threading.Thread(target=caller, args=(cs, cspec)))
        ct = None
        if spec['control']:
            ct = threading.Thread(target=control)
            ct.start()
            if spec['control'][0]['wait'] < 0:
                first.wait(2000)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        callers_done.set()
        if ct is not None:
            ct.join()
        if spec.get('double') and spec['target'] != 'own' and not L.is_closed():
            # afterwards: the loop must be startable and stoppable again
            stop = m.loop_in_thread(L)
            if L._thread_id is None:
                notes.append(('returned-idle', 'second loop_in_thread'))
            state['starts'] += 1
            stop()
            state['stops'] += 1
        time.sleep(5)
        state['final'] = L._thread_id
        for c in calls:
            for lp in c.loops:
                if spec['target'] != 'own' and lp is not L:
                    notes.append(('wrong-loop', f'{c!r} evaluated on another loop'))
            if c.kind == 'exc' and isinstance(c.obj, RuntimeError):
                pass

    s, _ = execute(scen, spec['sched'], max_steps=600_000)
    stats(s, o)
    o.trace = [repr(c) for c in calls] + [f'run of the target loop {x}' for x in sessions]
    ctx = ' | '.join(o.trace)[:1100]
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(s.digest)
    for mech, msg in notes:
        o.bad(mech, f'{msg}; {ctx}')
    if s.double_run:
        o.bad('double-run', f'the loop was run by two threads at once; {ctx}')
    if s.verdict in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{s.verdict}: {s.blocked_report}; {ctx}')
        return o
    if s.verdict:
        o.inconclusive = s.verdict
        return o
    if s.thread_errors:
        o.bad('thread-died', f'{s.thread_errors[:3]}; {ctx}')
    if state['final'] is not None:
        o.bad('left-running', f'the loop is still being run although everything was stopped; '
                              f'{ctx}')
    o.counts['user_run'] += state.get('user', 0)
    o.counts['starts'] += state['starts']
    o.counts['stops'] += state['stops']
    o.counts['sessions'] += len(sessions)
    o.nontrivial = bool(spec['control'])
    for c in calls:
        o.counts['calls'] += 1
        if spec['target'] == 'closed':
            if c.kind != 'exc' or not isinstance(c.obj, RuntimeError):
                o.bad('closed-target', f'{c!r}; {ctx}')
            o.counts['closed_errors'] += 1
            continue
        if was_cut(c):
            o.counts['cut'] += 1
            continue
        if c.kind in ('hang', None):
            o.bad('hang', f'{c!r} never completed; {ctx}')
            continue
        o.counts['own' if spec['target'] == 'own' else
                 'on_idle' if spec['target'] == 'idle' else 'on_running'] += 1
        if any(x is not c and x.start is not None and x.end is not None and
               x.who != c.who and x.start <= c.end and x.end >= c.start for x in calls):
            o.counts['concurrent'] += 1
            o.nontrivial = True
        if 'closed' in state and c.kind == 'exc' and isinstance(c.obj, RuntimeError) and \
                c.obj is not c.expobj and c.end <= max(state['closed'], c.start) + EPS:
            o.counts['closed_meanwhile'] += 1
            continue
        if c.exp is None:
            o.bad('not-evaluated', f'{c!r} completed before its awaitable; {ctx}')
            continue
        if not agree(c):
            o.bad('wrong-outcome', f'{c!r}; {ctx}')
        o.counts['returned' if c.kind == 'ret' else 'raised'] += 1
        if c.end > max(c.aend, c.start) + EPS:
            o.bad('late', f'{c!r} completed later than its awaitable; {ctx}')
    return o
