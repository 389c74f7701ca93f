"""Cache: callers see only their own outcome."""
import asyncio as aio
from vf import cache
from vf.runner import Out
from vf.harness import stats

ID = 'C06'
LEVEL = 'exploration'
RULE = ('a case = cache program (see C01), any subset of invocations failing, callers '
        'cancelled or timed out at grid instants and exactly at start/end of the '
        'computation, all loop life-cycles including shutdown of the loop that hosts the '
        'computation or proxy waits, followed by later calls; non-trivial = a failure, '
        'cancellation or loop stop while another caller was waiting')
CASES = {'quick': 18000, 'thorough': 150000}
NEED = {'callers': 20000, 'got_value': 10000, 'own_exception': 2000, 'own_cancel': 1500,
        'disturbed_others': 2500}
ASSUMPTIONS = ['a caller is regarded as cancelled if the harness cancelled its task, its '
               'wait_for limit passed, or its loop had stopped before']
EPS = 1e-3


def gen(rng, i, tier):
    if rng.random() < .004:
        return cache.gen_wide(rng)
    return cache.gen_program(rng, forget=.2, fails=rng.choice([.2, .5, .8]),
                             cancels=rng.choice([0, .2, .5]))


shrinks = cache.shrinks


def run(spec):
    o = Out()
    tr = cache.run_program(spec)
    o.trace = tr.lines()
    stats(tr.sim, o)
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(tr.sim.digest)
    cache.base_counts(tr, o)
    cache.ended(tr, o, judge=False)
    ctx = ' | '.join(tr.lines())[:1200]
    for c in tr.callers:
        if c.kind is None or c.kind == 'hang':
            continue
        mine = [v for v in tr.invs if v.caller == c.id]
        if c.kind == 'ret':
            ok = [v for v in tr.invs if v.key == c.key and v.how == 'ret' and v.obj is c.obj]
            if not ok:
                o.bad('wrong-value', f'{c!r} got a value nobody computed; {ctx}')
            o.counts['got_value'] += 1
        elif any(v.obj is c.obj and v.how not in ('ret', 'cancelled') for v in mine):
            o.counts['own_exception'] += 1
        elif isinstance(c.obj, aio.CancelledError):
            if c.ctime is not None or c.lost is not None or \
                    c.wf is not None and c.end >= c.arrive + c.wf - EPS:
                o.counts['own_cancel'] += 1
            else:
                o.bad('foreign-cancel', f'{c!r} was cancelled although nobody cancelled it; '
                                        f'{ctx}')
        else:
            src = [v for v in tr.invs if v.obj is c.obj]
            o.bad('foreign-exception' if src else 'made-up-exception',
                  f'{c!r} raised an exception of {src or "the cache itself"}; {ctx}')
        for v in tr.invs:
            if v.key == c.key and v.caller != c.id and v.how != 'ret' and c.arrive is not None \
                    and v.start <= c.end and (v.end is None or v.end >= c.arrive):
                o.counts['disturbed_others'] += 1
                o.nontrivial = True
                break
    if tr.cache is not None:
        for k, val in list(tr.cache.items()):
            if not any(v.how == 'ret' and v.obj is val for v in tr.invs):
                o.bad('cached-garbage', f'{k!r}: {val!r} is in the cache; {ctx}')
    return o
