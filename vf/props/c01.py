"""Cache: one computation per key, never two at once."""
from vf import cache
from vf.runner import Out
from vf.harness import stats

ID = 'C01'
LEVEL = 'exploration'
RULE = ('a case = 2..4 threads, each running 1..2 own event loops in turn with 1..3 callers '
        'of one or two keys, invocation durations 0..100 s, outcomes, cancellations, loops '
        'that return early with the call pending (then shut down / closed / left / collected '
        'at a chosen line), under a random line-level schedule; non-trivial = callers of one '
        'key from two loops with at least one preemption')
CASES = {'quick': 18000, 'thorough': 150000}
NEED = {'callers': 20000, 'invocations': 8000, 'invocations_lost_with_loop': 700,
        'shared_results': 4000, 'successes': 5000}
ASSUMPTIONS = ['an invocation pending when its loop stopped counts as ended from that moment '
               '(as the property says)', 'an invocation cancelled at shutdown ends cancelled, '
               'possibly after some asynchronous clean-up']


def gen(rng, i, tier):
    if rng.random() < .004:
        return cache.gen_wide(rng)
    return cache.gen_program(rng, fails=rng.choice([0, .3, .6]), cancels=rng.choice([0, .15]))


shrinks = cache.shrinks


def run(spec):
    o = Out()
    tr = cache.run_program(spec)
    o.trace = tr.lines()
    stats(tr.sim, o)
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(tr.sim.digest)
    cache.base_counts(tr, o)
    ctx = ' | '.join(tr.lines())[:1200]
    o.nontrivial = tr.sim.switches > 4 and \
        len({c.loop for c in tr.callers if c.key == 'k'}) > 1
    for v, x in tr.overlaps:
        o.bad('overlap', f'{v!r} began while {x!r} was in progress; {ctx}')
    for v, x in tr.after:
        o.bad('again', f'{v!r} began after {x!r} had returned; {ctx}')
    o.counts['successes'] += len(tr.success)
    for c in tr.callers:
        if c.kind == 'ret':
            s = tr.success.get(c.key)
            if s is None or s.obj is not c.obj:
                o.bad('other-result', f'{c!r} did not get the result of {s!r}; {ctx}')
            elif s.caller != c.id:
                o.counts['shared_results'] += 1
        elif c.kind == 'exc':
            s = tr.success.get(c.key)
            if s is not None and c.aseq > s.eseq and c.ctime is None and c.wf is None \
                    and c.lost is None:
                o.bad('other-result', f'{c!r} came after {s!r} had returned; {ctx}')
    cache.ended(tr, o, judge=False)
    return o
