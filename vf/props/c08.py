"""Buffer: no overlap, no empty call, debounced bursts."""
import itertools
from vf import buf
from vf.runner import Out, gen_sched
from vf.harness import stats

ID = 'C08'
LEVEL = 'exploration'
RULE = ('a case = arrival-time sequence of 1..10 plain/map submissions over a grid of gaps '
        'around the timeout (burst programs, judged for debouncing), or a general buffer '
        'program with wait() and slow/failing producers (judged for overlap and emptiness); '
        'function durations below and above the timeout, failures; non-trivial = a burst of '
        'several submissions judged, or a submission while the function runs')
CASES = {'quick': 24000, 'thorough': 200000}
NEED = {'loop_paused': 500, 'before_loop_runs': 300, 'submitted_by_producers': 300,
        'bursts': 8000, 'bursts_multi': 4000, 'calls': 15000, 'arrivals_while_running': 2000,
        'quiet_gaps': 8000, 'starts_judged': 8000, 'patient_waits': 500}
ASSUMPTIONS = ['gaps within 2% of the timeout are not judged',
               'a burst is judged when every submission of it arrives while the function is '
               'idle']


def gen(rng, i, tier):
    if rng.random() < .25:
        p = buf.gen_program(rng, rng.choice([2, 3, 5, 8]))
        p['general'] = True
        if rng.random() < .2:
            buf.interrupt(rng, p)
        p['sched'] = gen_sched(rng, est=300) if p['threads'] else {'kind': 'none'}
        return p
    T = rng.choice([0.1, 1.0, 2.0])
    p = buf.gen_program(rng, rng.choice([1, 2, 3, 4, 5, 6, 8, 10]), pwait=rng.choice([0, 0, 0, .3]), pthreads=.12, T=T,
                        kinds=('plain', 'plain', 'plain', 'map'), fails=False, slow=False,
                        empty=False, big=.06)
    g = rng.choice([[0, 0.3, 0.6, 0.95, 1.05, 2.3], [0.95, 0.95, 0.95, 1.06, 3],
                    [0, 0, 0.5, 2.5, 4], [0.9, 0.4, 1.1], [0, 0.97, 1.03, 2]])
    t, gap = 0.0, 0.0
    dense = rng.choice([[0], [0, 0, 0, 0.04], [0.02], [0, 0.5]])
    for op in p['ops']:
        if op['op'] == 'wait':               # not a forced flush
            op['cancel'] = False
        t += (rng.choice(dense) if op.get('dense') else gap) * T
        op['t'] = round(t, 9)
        gap = rng.choice(g)
    for th in p['threads']:
        for op in th:
            if op['op'] == 'wait':
                op['cancel'] = False
    p['sched'] = gen_sched(rng, est=300)
    if not p['threads'] and not any(op.get('as') in ('gen', 'iter') for op in p['ops']):
        p['sched'] = {'kind': 'none'}
    return p


shrinks = buf.shrinks


def run(spec):
    o = Out()
    tr = buf.run_program(spec)
    o.trace = tr.lines()
    stats(tr.sim, o)
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(tr.sim.digest)
    if not buf.check_end(tr, o):
        return o
    o.counts['loop_paused'] += tr.paused
    o.counts['submitted_by_producers'] += sum(t.inner for t in tr.all())
    o.counts['before_loop_runs'] += len(spec.get('pre') or ())
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    if not buf.check_end(tr, o):
        return o
    T = spec['T']
    ctx = ' | '.join(tr.lines())[:1100]
    o.counts['calls'] += len(tr.calls)
    if tr.overlap:
        o.bad('overlap', f'{tr.overlap[0]!r} started while another call was running; {ctx}')
    for c in tr.calls:
        if not c.args:
            o.bad('empty', f'{c!r}; {ctx}')
    if spec.get('general'):
        o.nontrivial = len(tr.calls) > 1
        return o
    m = 0.02 * T + 1e-6
    subs = sorted((s for s in tr.subs if s.time is not None), key=lambda s: (s.time, s.seq))
    resub = bool(spec['f'].get('resub'))

    def busy(t):
        return any(c.start - m <= t <= c.end + m for c in tr.calls)

    o.counts['patient_waits'] += len(tr.waits)
    for s in subs:
        if any(c.start < s.time < c.end for c in tr.calls):
            o.counts['arrivals_while_running'] += 1
            o.nontrivial = True
    for a, b in zip(subs, subs[1:]):
        if 2 * m < b.time - a.time < T - m:
            o.counts['quiet_gaps'] += 1
            for c in tr.calls:
                if a.time + m < c.start < b.time - m:
                    o.bad('not-quiet', f'{c!r} started between submissions at {a.time:g} and '
                                       f'{b.time:g}, less than {T} apart; {ctx}')
    times = [s.time for s in subs if s.produced]
    for c in tr.calls:
        seen = [t for t in times if t <= c.start + m]
        if not seen:
            continue
        tie = [t for t in seen if t >= c.start - m]
        before = seen[:len(seen) - len(tie)]
        o.counts['starts_judged'] += 1
        if T > 2 * m and (before and c.start - before[-1] < T - m or tie and not before):
            o.bad('early', f'{c!r} started less than {T} after the submission at '
                           f'{(before or tie)[-1]:g}; {ctx}')
    # bursts
    groups, cur = [], []
    clean = True
    for s in subs:
        if cur and s.time - cur[-1].time >= T - m:
            groups.append((cur, clean and s.time - cur[-1].time > T + m))
            clean = s.time - cur[-1].time > T + m
            cur = []
        cur.append(s)
    if cur:
        groups.append((cur, clean))
    for g, ok in groups:
        if not ok or any(busy(s.time) for s in g) or resub and any(busy(s.time) for s in g):
            continue
        elems = [x for s in g for x in s.produced]
        o.counts['bursts'] += 1
        if len(g) > 1:
            o.counts['bursts_multi'] += 1
            o.nontrivial = True
        got = [c for c in tr.calls if any(x in c.args for x in elems)]
        if not got:
            o.bad('burst-lost', f'burst {g!r} was not delivered; {ctx}')
            continue
        c = got[0]
        missing = [x for x in elems if x not in c.args]
        if missing:
            o.bad('burst-split', f'{c!r} lacks {missing!r} of the burst {g!r}; {ctx}')
        due = g[-1].time + T
        if not due - m <= c.start <= due + m:
            o.bad('burst-time', f'{c!r} should start at {due:g}; {ctx}')
    return o
