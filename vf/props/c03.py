"""Buffer: every submitted argument reaches the function."""
import itertools
from vf import buf
from vf.runner import Out, gen_sched
from vf.harness import stats

ID = 'C03'
LEVEL = 'exploration'
RULE = ('a case = timed program of 1..8 submissions (plain, awaitable, sync/async iterable, '
        'with delays and failures) and wait() calls, own thread plus 0..2 foreign threads, '
        'function durations and any of its first 6 invocations failing (also after emptying '
        'its set, or submitting more), loops paused or not yet running, producers that submit, '
        'foreign coroutines on a loop of their own, under a random line-level schedule; non-trivial = two '
        'successful calls, a failed call, or a foreign submission')
CASES = {'quick': 18000, 'thorough': 150000}
NEED = {'loop_paused': 500, 'before_loop_runs': 300, 'submitted_by_producers': 300,
        'elements_own': 10000, 'elements_foreign': 2000, 'failed_calls': 2000,
        'failed_producers': 1000, 'ok_calls': 8000, 'repeated_arguments': 300}
ASSUMPTIONS = ['arguments are pairwise distinct, so that each can be followed']


def race(rng):
    """A few own submissions; foreign ones arrive as the timer fires or the
    function ends."""
    T = 1.0
    ids = itertools.count(10)
    dur = rng.choice([0, 0, None, 0.5])
    p = {'T': T, 'form': 'plain', 'callable': 'fn', 'early': False,
         'f': {'dur': [dur], 'fail': rng.choice([[], [], ['exc']])},
         'ops': [{'op': 'plain', 'elems': [next(ids)], 't': 0.0}
                 for _ in range(rng.choice([1, 2]))], 'threads': []}
    for _ in range(rng.choice([1, 1, 2])):
        th = []
        for k in range(rng.choice([1, 1, 2])):
            op = buf.gen_op(rng, T, ids, kinds=('plain', 'plain', 'map', 'await')
                            if th else ('plain',), fails=False, slow=False) \
                if not (th and rng.random() < .3) else {'op': 'wait', 'cancel': True}
            op['dt'] = T + (dur or 0) if not th else rng.choice([0, T])
            th.append(op)
        p['threads'].append(th)
    p['nap'] = rng.random() < .5
    p['fl'] = rng.random() < .3
    if rng.random() < .4:
        p['ops'].append({'op': 'wait', 'cancel': rng.random() < .5, 't': T + (dur or 0),
                         'y': rng.choice([0, 1, 2])})
    p['sched'] = gen_sched(rng, est=rng.choice([60, 120, 250]))
    return p


def gen(rng, i, tier):
    if i % 3 == 0:
        return race(rng)
    p = buf.gen_program(rng, rng.choice([1, 2, 3, 4, 6, 8]), dup=.2, zero=.03)
    if rng.random() < .15:
        buf.interrupt(rng, p)
    p['sched'] = gen_sched(rng, est=300) if p['threads'] else {'kind': 'none'}
    return p


shrinks = buf.shrinks


def run(spec):
    o = Out()
    tr = buf.run_program(spec)
    o.trace = tr.lines()
    stats(tr.sim, o)
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(tr.sim.digest)
    if not buf.check_end(tr, o):
        return o
    o.counts['loop_paused'] += tr.paused
    o.counts['dropped'] += tr.gcs
    o.counts['submitted_by_producers'] += sum(t.inner for t in tr.all())
    o.counts['before_loop_runs'] += len(spec.get('pre') or ())
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    ctx = ' | '.join(tr.lines())[:1100]
    ok = tr.delivered()
    o.counts['ok_calls'] += sum(1 for c in tr.calls if c.ok)
    o.counts['failed_calls'] += sum(1 for c in tr.calls if c.ok is False)
    o.counts['failed_producers'] += sum(1 for s in tr.subs if len(s.produced) < len(s.elems))
    o.nontrivial = o.counts['ok_calls'] > 1 or o.counts['failed_calls'] > 0 or \
        any(s.who != 'own' for s in tr.subs)
    given, times, owners = set(), {}, {}
    for s in tr.subs:
        for x in s.produced:
            times[x] = times.get(x, 0) + 1
            owners.setdefault(x, set()).add(s.who)
    o.counts['repeated_arguments'] += sum(n > 1 for n in times.values())
    for s in tr.subs:
        given.update(s.produced)
        for x, at in zip(s.produced, s.pseq):
            o.counts['elements_own' if s.who == 'own' else 'elements_foreign'] += 1
            n = len(ok.get(x, ()))
            if not any(c.sseq > at for c in ok.get(x, ())):
                o.bad('lost', f'{x!r} of {s!r} never reached a successful call; {ctx}')
            elif n > times[x] and owners[x] == {'own'}:
                o.bad('twice', f'{x!r} of {s!r} was submitted {times[x]} times and is part of '
                               f'{n} successful calls; {ctx}')
            elif n > times[x]:
                o.counts['foreign_repeated'] += 1
    for c in tr.calls:
        if c.args - given:
            o.bad('alien', f'{c!r} received {c.args - given!r}, never submitted; {ctx}')
