"""Buffer: wait() is a barrier, always returns; shutdown terminates."""
from vf import buf
from vf.runner import Out, gen_sched
from vf.harness import stats
from .c03 import race

ID = 'C07'
LEVEL = 'exploration'
RULE = ('a case = timed buffer program with several wait(cancel=True/False) calls (own loop, '
        'or a foreign thread submitting and then using wait_from_anywhere), producers that '
        'are empty, fail or are slow, failing invocations; or one shut down (asyncio.run '
        'shutdown, or the background task cancelled) at a chosen instant; non-trivial = a '
        'wait() with earlier submissions, or a shutdown with something in flight')
CASES = {'quick': 20000, 'thorough': 160000}
NEED = {'loop_paused': 500, 'before_loop_runs': 300, 'submitted_by_producers': 300,
        'waits_returned': 6000, 'foreign_waits': 700, 'barrier_elements': 10000,
        'shutdowns': 1500, 'shutdown_func_running': 200, 'shutdown_collecting': 60,
        'shutdown_timer': 80, 'shutdown_idle': 100}
ASSUMPTIONS = ['an awaitable/iterable submitted from outside is over when it returned or '
               'raised; at shutdown the wrapped function and producers end when cancelled '
               'or after a bounded time']


def gen(rng, i, tier):
    if i % 5 == 0:
        p = race(rng)
        for th in p['threads']:
            th.append({'op': 'wait', 'cancel': rng.random() < .5,
                       'dt': rng.choice([0, 0, 0, 0.5])})
        p['ops'].append({'op': 'wait', 'cancel': rng.random() < .5, 't': rng.choice([0, 1.0]),
                         'y': rng.choice([0, 1, 2, 3])})
        p['ops'].sort(key=lambda op: op['t'])
        return p
    if rng.random() < .35:
        p = buf.gen_program(rng, rng.choice([0, 1, 1, 2, 3, 5]), pwait=.15, pthreads=.1)
        T = p['T']
        end = max([op['t'] for op in p['ops']], default=0)
        p['shutdown'] = {'how': rng.choice(['run', 'run', 'task']),
                         't': round(rng.choice([0, end, end + 0.5 * T, end + T, end + 1.3 * T,
                                                end + 2.5 * T, rng.uniform(0, end + 3 * T)]),
                                    9),
                         'y': rng.choice([0, 0, 1, 2, 3, 4, 6])}
        p['early'] = False
        p['f']['oncancel'] = rng.choice([None, None, 'exc', 'slow', 'ignore'])
        for th in p['threads']:      # foreign waits cannot end once the loop is gone
            th[:] = [op for op in th if op['op'] != 'wait']
    else:
        p = buf.gen_program(rng, rng.choice([1, 2, 3, 4, 6]), pwait=.2, dup=.15, zero=.03)
        T = p['T']
        last = max([op['t'] for op in p['ops']])
        for _ in range(rng.choice([1, 1, 2, 3])):
            p['ops'].append({'op': 'wait', 'cancel': rng.random() < .6,
                             't': round(rng.choice([last, last, rng.uniform(0, last + T),
                                                    last + rng.choice([.5, .95, 1.05, 2]) * T]
                                                   ), 9),
                             'y': rng.choice([0, 0, 1, 2, 3, 4, 5])})
        p['ops'].sort(key=lambda op: op['t'])
        if rng.random() < .15:
            buf.interrupt(rng, p)
    p['sched'] = gen_sched(rng, est=300) if p['threads'] else {'kind': 'none'}
    return p


def shrinks(spec):
    for s in buf.shrinks(spec):
        yield s
    if spec.get('shutdown', {}).get('y'):
        yield dict(spec, shutdown=dict(spec['shutdown'], y=0))


def run(spec):
    o = Out()
    tr = buf.run_program(spec)
    o.trace = tr.lines()
    stats(tr.sim, o)
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(tr.sim.digest)
    if tr.sim.verdict in ('deadlock', 'livelock', 'horizon') and spec.get('shutdown'):
        o.bad('shutdown-hang', f'shutdown at {tr.shutdown} ({spec["shutdown"]["how"]}) never '
              f'ends: {tr.sim.blocked_report}; ' + ' | '.join(tr.lines())[:900])
        return o
    if not buf.check_end(tr, o):
        return o
    ctx = ' | '.join(tr.lines())[:1200]
    if spec.get('shutdown'):
        o.counts['shutdowns'] += 1
        if tr.notes:
            o.bad('shutdown-hang', f'{tr.notes}; cancelled at {tr.shutdown}; {ctx}')
        t = tr.shutdown
        if any(c.start <= t and (c.end is None or c.end >= t) for c in tr.calls):
            o.counts['shutdown_func_running'] += 1
            o.nontrivial = True
        elif any(s.slow and not s.done for s in tr.subs):
            o.counts['shutdown_collecting'] += 1
            o.nontrivial = True
        elif {x for s in tr.subs for x in s.produced} - set(tr.delivered()):
            o.counts['shutdown_timer'] += 1
            o.nontrivial = True
        else:
            o.counts['shutdown_idle'] += 1
        return o
    o.counts['loop_paused'] += tr.paused
    o.counts['submitted_by_producers'] += sum(t.inner for t in tr.all())
    o.counts['before_loop_runs'] += len(spec.get('pre') or ())
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    ctx = ' | '.join(tr.lines())[:1200]
    for w in tr.waits:
        wf = w.who == 'own' and any(op.get('wf') is not None for op in spec['ops'])
        if w.how is None:
            o.bad('wait-hang', f'{w!r} never returned; {ctx}')
            continue
        if w.how != 'returned':
            if not (wf and 'TimeoutError' in w.how):
                o.bad('wait-raised', f'{w!r}; {ctx}')
            continue
        o.counts['waits_returned'] += 1
        if w.who != 'own':
            o.counts['foreign_waits'] += 1
        done = tr.delivered(before=w.rseq)
        for s in tr.subs:
            if s.who == w.who and s.seq is not None and s.seq < w.cseq:
                o.nontrivial = True
                for x, at in zip(s.produced, s.pseq):
                    o.counts['barrier_elements'] += 1
                    if not any(c.sseq > at for c in done.get(x, ())):
                        o.bad('barrier', f'{w!r} returned before {x!r} of {s!r} was part of '
                                         f'a successful call; {ctx}')
                if (s.slow or s.op != 'plain') and len(s.produced) < len(s.elems) and \
                        not s.done:
                    o.bad('barrier', f'{w!r} returned, {s!r} not consumed; {ctx}')
