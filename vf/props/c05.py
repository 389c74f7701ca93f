"""Cache: every call terminates, promptly, even if the computing loop dies."""
from vf import cache
from vf.runner import Out
from vf.harness import stats

ID = 'C05'
LEVEL = 'exploration'
RULE = ('a case = cache program (see C01) with invocations that succeed, raise or are '
        'cancelled at any instant, caller cancellations and time limits, loops stopped / '
        'shut down / closed / collected mid-computation; the time each caller spends '
        'without a computation in progress is accounted exactly in virtual time; non-trivial '
        '= a caller waited for another caller\'s invocation')
CASES = {'quick': 18000, 'thorough': 150000}
NEED = {'callers': 20000, 'waited': 5000, 'cross_loop_waits': 2500, 'recovered': 80,
        'cancelled_callers': 1500}
ASSUMPTIONS = ['a caller whose own loop stopped is not expected to end',
               'after a loop hosting an invocation stopped, callers already waiting have 60 s '
               'to recover; anything else must be immediate in virtual time']
EPS = 1e-3


def gen(rng, i, tier):
    if rng.random() < .004:
        return cache.gen_wide(rng)
    return cache.gen_program(rng, forget=.2, fails=rng.choice([0, .3, .7]),
                             cancels=rng.choice([0, .15, .4]))


shrinks = cache.shrinks


def minus(iv, cuts):
    """iv (lo, hi) without the intervals in cuts."""
    out = [iv]
    for a, b in cuts:
        nxt = []
        for lo, hi in out:
            if b <= lo or a >= hi:
                nxt.append((lo, hi))
                continue
            if lo < a:
                nxt.append((lo, a))
            if b < hi:
                nxt.append((b, hi))
        out = nxt
    return out


def run(spec):
    o = Out()
    tr = cache.run_program(spec)
    o.trace = tr.lines()
    stats(tr.sim, o)
    o.key = repr({k: v for k, v in spec.items() if k != 'sched'}) + str(tr.sim.digest)
    cache.base_counts(tr, o)
    ctx = ' | '.join(tr.lines())[:1200]
    for c in tr.callers:
        if c.kind == 'hang':
            o.bad('hang', f'{c!r} never ended; {ctx}')
    if not cache.ended(tr, o):
        return o
    if tr.sim.thread_errors:
        o.bad('thread-died', f'{tr.sim.thread_errors[:2]}; {ctx}')
    INF = 1e9
    for c in tr.callers:
        if c.arrive is None or c.lost is not None:
            continue
        if c.kind == 'hang':
            continue
        if c.end is None:
            o.bad('hang', f'{c!r} never ended; {ctx}')
            continue
        mine = [v for v in tr.invs if v.caller == c.id]
        # own cancellation / limit: the call ends at that very moment, but for
        # the clean-up of an invocation it performed itself
        limit = None
        if c.ctime is not None:
            limit = c.ctime
            o.counts['cancelled_callers'] += 1
        if c.wf is not None:
            limit = min(x for x in (limit, c.arrive + c.wf) if x is not None)
        if limit is not None and c.end > limit + EPS:
            if not any(v.start <= limit + EPS and v.end is not None and
                       v.end >= c.end - EPS for v in mine):
                o.bad('cancel-late', f'{c!r} was to end at {limit:g}; {ctx}')
        # time spent without a computation in progress
        others = [v for v in tr.invs if v.key == c.key and v.caller != c.id
                  and v.start < c.end and (v.end if v.end is not None else INF) > c.arrive]
        if others:
            o.counts['waited'] += 1
            o.nontrivial = True
            if any(v.loop != c.loop for v in others):
                o.counts['cross_loop_waits'] += 1
        busy = []
        for v in tr.invs:
            if v.key != c.key:
                continue
            if v.end is not None and v.how != 'GeneratorExit':
                hi = v.end       # possibly when its loop ran again to shut down
            else:
                hi = v.gone if v.gone is not None else INF
            busy.append((v.start, hi))
        s = tr.success.get(c.key)
        idle = minus((c.arrive, c.end), busy)
        exc = []
        for t, _, serial in tr.stops:
            # callers that were already waiting when a loop stopped
            if t < c.arrive - EPS or t > c.end + EPS:
                continue
            for v in tr.invs:
                if v.key == c.key and v.loop == serial and v.loop != c.loop and \
                        v.start <= t + EPS and (v.end is None or v.end >= t - EPS):
                    exc.append((t - EPS, t + cache.WINDOW + EPS))
        left = [(a, b) for p in idle for a, b in minus(p, exc) if b - a > EPS]
        if left:
            o.bad('not-prompt', f'{c!r} waited during {left} although nothing was being '
                                f'computed (result known since '
                                f'{s.end if s else None}); {ctx}')
        elif exc and sum(b - a for a, b in idle) > EPS:
            o.counts['recovered'] += 1
    return o
