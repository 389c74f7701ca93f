"""to_async_iter / to_sync_iter."""
from vf import sim, load
from vf.runner import Out, gen_sched
from vf.harness import execute, AlwaysEq, EqRaises, ODD, stats
import asyncio as aio
import time
import threading

ID = 'C16'
LEVEL = 'exploration'
RULE = ('a case = direction, source kind (also one bridge fed by the other), 0..6 or '
        '100..2100 elements (None, falsy, duplicate, '
        'always-equal, uncomparable, exception and sentinel-like elements), failure '
        'position or none, producer and consumer step durations, 1..2 concurrent '
        'iterations, a line-level schedule; non-trivial = at least one element or a '
        'failure; distinct by case and switch sequence')
CASES = {'quick': 24000, 'thorough': 150000}
NEED = {'elements': 5000, 'errors_seen': 500, 'helper_threads': 1000,
        'ticks_while_blocked': 500, 'long_sequences': 15, 'long_elements': 10000,
        'mutually_waiting': 100, 'same_loop_again': 40, 'inside_loop': 150, 'bridged': 300, 'bound_to_loop': 150}
ASSUMPTIONS = ['helper threads get one virtual second to end after the iteration '
               'has finished', 'loop responsiveness is judged for sources that are '
               'iterators (others are iterated inline by design)']

SRC_A = ['gen', 'gen', 'custom', 'list', 'tuple', 'range', 'iterlist', 'str', 'map', 'set',
         'iterable', 'getitem', 'bridge']
SRC_S = ['agen', 'agen', 'aiter', 'aiterable', 'bridge']
BIG = [100, 300, 1000, 1100, 2100]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Odd(Exception):
    """False, equal to everything, and not to be built from its arguments."""
    def __init__(self, a, b, *, c):
        super().__init__(a)
        self.abc = a, b, c

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


def gen(rng, i, tier):
    d = rng.choice(['async', 'async', 'sync'])
    n = rng.randrange(0, 7)
    durs = rng.choice([[0], [0], [0, 0.1], [0.1], [0, 0.3, 2.0]])
    jobs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        n = rng.randrange(0, 7)
        jobs.append({
            'dir': d, 'src': rng.choice(SRC_A if d == 'async' else SRC_S), 'n': n,
            'els': [rng.randrange(27) for _ in range(n)],
            'fail': rng.choice([None, None, rng.randrange(0, n + 1), n]),
            'exc': rng.choice(['Boom', 'Boom', 'BaseBoom', 'RuntimeError', 'OSError',
                               'IndexError', 'TimeoutError', 'QEmpty', 'KeyError', 'Odd',
                               'Group', 'Cancelled', 'Shutdown', 'InvalidState',
                               'chained']),
            'pd': [rng.choice(durs) for _ in range(n + 1)],
            'cd': [rng.choice(rng.choice([[0], [None], [0, 0.25]])) for _ in range(n + 1)],
            'start': rng.choice([0, 0, 0.05]),
            'given_loop': rng.random() < 0.3,
        })
    r = rng.random()
    if r < .012 + .02 * (tier == 'thorough'):          # long sequences
        jobs = jobs[:1]
        n = rng.choice(BIG + [4200, 9000] * (tier == 'thorough'))
        jobs[0].update(src=rng.choice(['gen', 'custom', 'iterlist', 'iterable', 'bridge']
                                      if d == 'async' else SRC_S), n=n,
                       els=rng.randrange(27), fail=rng.choice([None, n, n - 1, n // 2]),
                       pd=rng.choice([[0], [0], [0] * 400 + [.5]]),
                       cd=rng.choice([[None], [0], [5.0] + [None] * n,
                                      [None] * (n // 2) + [1.0] + [None] * n]))
    elif r < .03 and d == 'async':                     # sources waiting for one another
        m = rng.choice([2, 3, 5, 9, 17, 34])
        jobs = [dict(jobs[0], src='gen', fail=rng.choice([None, 0]), n=k % 3,
                     els=[rng.randrange(27) for _ in range(k % 3)], pd=[0], cd=[None],
                     start=0, barrier=m) for k in range(m)]
    elif r < .06:                                      # producers or consumers in no hurry
        for job in jobs:
            if rng.random() < .6:
                job['pd'] = [rng.choice([0, 7.0, 65.0, 400.0] + [4000.0] * (d == 'sync'))
                             for _ in job['pd']]
            else:
                job['cd'] = [rng.choice([None, 7.0, 65.0, 400.0]) for _ in job['cd']]
    one = d == 'sync' and rng.random() < .15
    if one:
        for job in jobs:
            job['given_loop'] = True
    return {'dir': d, 'jobs': jobs, 'sched': gen_sched(rng, 250),
            'inloop': d == 'sync' and rng.random() < .2, 'oneloop': one,
            'threads': d == 'sync' and rng.random() < 0.5}


def els(codes, n):
    if isinstance(codes, int):
        codes = [(codes + 5 * k) % 27 for k in range(n)]
    same = object()
    tab = [lambda: None, lambda: 0, lambda: False, lambda: '', lambda: 7, lambda: same,
           lambda: AlwaysEq(), lambda: EqRaises(), lambda: Boom('element'),
           lambda: StopIteration('el'), lambda: Ellipsis, lambda: ()] + ODD
    return [tab[c]() for c in codes]


def mkexc(name, tag):
    import queue
    if name == 'Odd':
        return Odd(tag, 2, c=3)
    if name == 'Group':
        return ExceptionGroup(tag, [Boom(1), ValueError(2)])
    if name == 'chained':
        e = Boom(tag)
        e.__cause__ = KeyError('cause')
        return e
    return {'KeyError': KeyError, 'Cancelled': aio.CancelledError,
            'Shutdown': queue.Full, 'InvalidState': aio.InvalidStateError,
            'Boom': Boom, 'BaseBoom': BaseBoom, 'RuntimeError': RuntimeError,
            'OSError': OSError, 'IndexError': IndexError, 'TimeoutError': TimeoutError,
            'QEmpty': queue.Empty}[name](tag)


def run(spec):
    o = Out()
    log = []
    blocked = []          # (start, end) of producer blocking, per execution
    ticks = []
    fins = []
    barrier = []
    slow = max(x or 0 for j in spec['jobs'] for x in j['pd'][:400] + j['cd'][:400])
    tick = max(0.02, slow / 100)

    def sync_source(j, job, xs, exc, m):
        pds = job['pd']

        def g():
            if job.get('barrier'):
                o.counts['mutually_waiting'] += 1
                barrier[0].wait(1000)
            for k, x in enumerate(xs):
                if job['fail'] == k:
                    raise exc
                if pds[k % len(pds)] and inthread:
                    t = sim.now()
                    time.sleep(pds[k % len(pds)])
                    blocked.append((t, sim.now()))
                log.append((j, 'produced', k))
                yield x
            if pds[len(xs) % len(pds)] and inthread:
                t = sim.now()
                time.sleep(pds[len(xs) % len(pds)])
                blocked.append((t, sim.now()))
            if job['fail'] == len(xs):
                raise exc

        k = job['src']
        inthread = k not in ('iterable', 'getitem')     # these are iterated inline
        if k == 'gen':
            return g(), True, True
        if k == 'iterable':
            class Able:
                def __iter__(self):
                    return g()
            return Able(), False, True
        if k == 'getitem':
            class Seq:
                def __len__(self):
                    return len(xs)

                def __getitem__(self, k):
                    if job['fail'] == k:
                        raise exc
                    return xs[k]
            if job['fail'] is not None and isinstance(exc, IndexError):
                job = dict(job, fail=None)              # ends a sequence
            return Seq(), False, job['fail'] is not None
        if k == 'bridge':
            async def ag():
                for k, x in enumerate(xs):
                    if job['fail'] == k:
                        raise exc
                    if pds[k % len(pds)]:
                        await aio.sleep(pds[k % len(pds)])
                    yield x
                if job['fail'] == len(xs):
                    raise exc
            return m.to_sync_iter(ag()), True, True
        if k == 'custom':
            class It:
                def __init__(self):
                    self.g = g()

                def __iter__(self):
                    return self

                def __next__(self):
                    return next(self.g)
            return It(), True, True
        if k == 'map':
            return map(lambda x: x, g()), True, True
        if k == 'iterlist':
            return iter(list(xs)), True, False
        if k == 'list':
            return list(xs), False, False
        if k == 'tuple':
            return tuple(xs), False, False
        return None, False, False

    def scen():
        m = load.fresh('asyncio')
        base = set(t.idx for t in sim._sim.threads)
        if spec['jobs'][0].get('barrier'):
            barrier.append(threading.Barrier(spec['jobs'][0]['barrier']))
        o.counts['long_sequences'] += spec['jobs'][0]['n'] > 20
        o.counts['long_elements'] += spec['jobs'][0]['n'] if spec['jobs'][0]['n'] > 20 else 0

        def prep(job):
            xs = els(job['els'], job['n'])
            exc = mkexc(job['exc'], 'fail')
            k = job['src']
            if k == 'range':
                xs = list(range(job['n']))
            elif k == 'str':
                xs = list('abcdef'[:job['n']])
            elif k == 'set':
                xs = [5] if job['n'] else []
            return xs, exc

        def check(j, job, xs, exc, fails, got, end, late):
            o.counts['bridged'] += job['src'] == 'bridge'
            stop = job['fail'] if fails and job['fail'] is not None else None
            want = xs if stop is None else xs[:stop]
            o.counts['elements'] += len(got)
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                if not (job['src'] in ('str', 'range') and got == want):
                    o.bad('sequence', f'{job["src"]}: received {len(got)} elements '
                          f'{got[:9]!r}, source gave {len(want)} {want[:9]!r} (then {"failed" if stop is not None else "ended"})')
            if stop is None:
                if end is not None:
                    o.bad('spurious-error', f'{job["src"]} ended with {end!r}')
            else:
                o.counts['errors_seen'] += 1
                # asyncio rebuilds TimeoutError when it crosses futures
                if end is not exc and not (
                        type(exc) is TimeoutError and type(end) is TimeoutError
                        and end.args == exc.args):
                    o.bad('error-lost', f'{job["src"]} failed with {exc!r} after {stop} '
                          f'elements, consumer saw {end!r}')
            if late is not None:
                o.bad('not-stopped', f'a finished iterator yielded {late!r}')

        def leftovers(when):
            alive = [t.name for t in sim._sim.alive
                     if t.idx not in base and not t.name.startswith('h')]
            o.counts['helper_threads'] += len(sim._sim.threads) - len(base)
            if alive:
                o.bad('thread-left', f'{when}: helper threads still alive: {alive}')

        if spec['dir'] == 'async':
            async def one(j, job):
                await aio.sleep(job['start'])
                xs, exc = prep(job)
                src, isit, fails = sync_source(j, job, xs, exc, m)
                if src is None:
                    src = {'range': range(job['n']), 'str': 'abcdef'[:job['n']],
                           'set': set(xs)}[job['src']]
                got, end, late = [], None, None
                it = m.to_async_iter(src)
                ai = it.__aiter__()
                while True:
                    try:
                        x = await ai.__anext__()
                    except StopAsyncIteration:
                        break
                    except sim.SimAbort:
                        raise
                    except BaseException as e:
                        end = e
                        break
                    got.append(x)
                    if len(got) > job['n'] + 3:
                        break
                    c = job['cd'][(len(got) - 1) % len(job['cd'])]
                    if c is not None:
                        await aio.sleep(c)
                try:
                    late = await ai.__anext__()
                except StopAsyncIteration:
                    pass
                except sim.SimAbort:
                    raise
                except BaseException as e:
                    late = e
                fins.append(sim.now())
                check(j, job, xs, exc, fails, got, end, late)

            async def main():
                stopped = False
                o.counts['slow_steps'] += tick > 0.02

                async def ticker():
                    while not stopped:
                        ticks.append(sim.now())
                        await aio.sleep(tick)
                t = aio.create_task(ticker())
                ts = [aio.ensure_future(one(j, job)) for j, job in enumerate(spec['jobs'])]
                await aio.wait(ts, timeout=max(200, 20 * slow))
                stopped = True
                for j, t2 in enumerate(ts):
                    if not t2.done():
                        o.bad('hang', f'to_async_iter of {spec["jobs"][j]["src"]} never ended')
                        t2.cancel()
                    elif t2.exception() is not None:
                        raise t2.exception()
                if o.violations:
                    return
                await t
                await aio.sleep(1.0)
                leftovers('1 s after to_async_iter finished')
            loop = aio.new_event_loop()
            loop.run_until_complete(main())
            loop.close()
            return

        shared = []

        def one(j, job):
            if job['start']:
                time.sleep(job['start'])
            xs, exc = prep(job)
            pds = job['pd']
            kw = {}
            if job['given_loop']:
                if spec['oneloop'] and shared and not spec['threads']:
                    kw['loop'] = shared[0]
                    o.counts['same_loop_again'] += 1
                else:
                    kw['loop'] = aio.new_event_loop()
                    shared.append(kw['loop'])
                bound = kw['loop'].create_future()
                if not kw['loop'].is_closed():          # we do not close it
                    kw['loop'].call_soon(bound.set_result, None)

            def g():
                for k, x in enumerate(xs):
                    if job['fail'] == k:
                        raise exc
                    if pds[k % len(pds)]:
                        time.sleep(pds[k % len(pds)])
                    yield x
                if job['fail'] == len(xs):
                    raise exc

            async def ag():
                if kw:                          # needs the loop it was given
                    o.counts['bound_to_loop'] += 1
                    await bound
                for k, x in enumerate(xs):
                    if job['fail'] == k:
                        raise exc
                    if pds[k % len(pds)]:
                        await aio.sleep(pds[k % len(pds)])
                    yield x
                if pds[len(xs) % len(pds)]:
                    await aio.sleep(pds[len(xs) % len(pds)])
                if job['fail'] == len(xs):
                    raise exc

            class AIt:
                def __init__(self):
                    self.a = ag()

                def __aiter__(self):
                    return self

                def __anext__(self):
                    return self.a.__anext__()

            class AItb:
                def __aiter__(self):
                    return ag()
            src = {'agen': ag, 'aiter': AIt, 'aiterable': AItb,
                   'bridge': lambda: m.to_async_iter(g())}[job['src']]()
            got, end, late = [], None, None
            it = iter(m.to_sync_iter(src, **kw))
            while True:
                try:
                    x = next(it)
                except StopIteration:
                    break
                except sim.SimAbort:
                    raise
                except BaseException as e:
                    end = e
                    break
                got.append(x)
                if len(got) > job['n'] + 3:
                    break
                c = job['cd'][(len(got) - 1) % len(job['cd'])]
                if c is not None:
                    time.sleep(c)
            try:
                late = next(it)
            except StopIteration:
                pass
            except sim.SimAbort:
                raise
            except BaseException as e:
                late = e
            check(j, job, xs, exc, True, got, end, late)

        if spec['threads'] and len(spec['jobs']) > 1:
            ts = [threading.Thread(target=one, args=(j, job), name=f'h{j}')
                  for j, job in enumerate(spec['jobs'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        elif spec['inloop']:
            async def inside():
                for j, job in enumerate(spec['jobs']):
                    one(j, job)
            aio.run(inside())
            o.counts['inside_loop'] += 1
        else:
            for j, job in enumerate(spec['jobs']):
                one(j, job)
        time.sleep(1.0)
        leftovers('1 s after to_sync_iter finished')

    s, _ = execute(scen, spec['sched'])
    stats(s, o)
    if s.verdict in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{s.verdict}: {s.blocked_report}')
    elif s.verdict:
        o.inconclusive = s.verdict
    for n, e in s.thread_errors:
        o.bad('thread-error', f'{n}: {e}')
    # the loop must have kept ticking while an iterator was blocked
    if ticks:
        for a, b in blocked:
            inside = [t for t in ticks if a < t < b]
            if b - a > max(0.09, 4.5 * tick):
                o.counts['ticks_while_blocked'] += len(inside)
                edge = [a] + inside + [b]
                gap = max(y - x for x, y in zip(edge, edge[1:]))
                if gap > 2.5 * tick and b <= max(ticks):
                    o.bad('loop-blocked', f'loop did not run for {gap:.3f} s while the '
                          f'iterator was blocked from {a:.3f} to {b:.3f}')
    o.key = repr(spec['jobs']) + str(s.digest)
    o.nontrivial = any(j['n'] or j['fail'] is not None for j in spec['jobs'])
    o.trace = [f'blocked={blocked[:10]} ticks={len(ticks)} steps={s.steps} switches={s.switches}'] + \
        [repr(x) for x in log[:20]]
    return o
