"""Batcher: one computation per key and retention window, then afresh."""
from vf import batch
from vf.runner import Out
from . import c04

ID = 'C11'
LEVEL = 'exploration'
RULE = ('a case = timed program of 2..10 calls over 1..3 keys (explicit, empty and default '
        'str(arg)), gaps around batch_timeout, batch duration and retention_timeout, '
        'retention 0 / small / large, cancelled callers, outcomes value / exception / omitted / batch failure; '
        'non-trivial = a repeated key met an earlier request, pending or retained')
CASES = {'quick': 28000, 'thorough': 250000}
NEED = {'joined_pending': 10000, 'joined_retained': 5000, 'fresh_after_window': 5000,
        'fresh_after_answer_R0': 3000, 'first': 10000, 'cancelled': 700}
ASSUMPTIONS = ['arrivals within 1% of the end of the retention window are accepted either '
               'way; so is, with retention 0, an arrival between the result and the moment '
               'the original caller is answered']
BEH = ['v', 'v', 'v', 'x', 'x', 'omit', 'raise', 'vnone', 'vfalse', 'evil', 'vodd2']


def gen(rng, i, tier):
    n = rng.choice([2, 3, 4, 5, 6, 8, 10])
    keys = rng.choice([['a'], ['a', 'b'], ['a', 'b', ''], [''], [None], [None, '1'],
                       [None, 'a', '']])
    p = c04.program(rng, n, keys)
    args = rng.choice([[1, '1'], [1], [0, '', None], [1, 2], [1.5, 'x', 1]])
    bt = p['bt'] or .1
    p['rt'] = rt = rng.choice([0, 0, 0.5 * bt, 3 * bt, 3 * bt, 40 * bt])
    p['pre'] = pre = rng.choice([None, 0, 0.6 * bt, 1.7 * bt])
    p['dur'] = rng.choice([[0], [None], [0.3 * bt]])
    p['post'] = rng.choice([None, None, 0, 2 * bt, 6 * bt])
    p['mbs'] = rng.choice([1, 1, 2, 3, 8])
    d = bt + (pre or 0)
    gaps = [0, 0, 0.3 * bt, 0.9 * bt, bt, d, d, 1.1 * d, 2 * d, 0.5 * rt, 0.9 * rt, 0.95 * rt,
            1.1 * rt, rt + 1.05 * d, rt + d, 2 * rt + d]
    t = 0.0
    for c in p['calls']:
        t += rng.choice(gaps)
        c['t'] = round(t, 9)
        c['arg'] = rng.choice(args)
        c['y'] = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 7])
    c04.near(p, rng)
    if rng.random() < .25:         # some callers give up
        p['fc'] = []
        for j, c in enumerate(p['calls']):
            x = rng.random()
            if x < .3:
                c['cancel'] = round(c['t'] + rng.choice([0, 0.5 * bt, bt, 1.3 * bt, d, rt]), 9)
                c['cy'] = rng.choice([0, 1, 1, 2, 3, 4, 5])
            elif x < .4:
                p['fc'].append([j, rng.choice(['start', 'before', 'after'])])
    p['rk'] = rng.choice(['exc', 'exc', 'value', 'timeout'])
    mild = rng.random() < .6
    for k in {batch.keyof(c) for c in p['calls']}:
        p['beh'][k] = [rng.choice(['v', 'v', 'x'] if mild else BEH)
                       for _ in range(rng.choice([1, 2]))]
    if rng.random() < .008:
        p = batch.widen(p, rng)
    if rng.random() < .03:
        p = batch.stretch(p, rng)
    return p


def shrinks(spec):
    n = len(spec['calls'])
    for k in range(n):
        yield dict(spec, calls=spec['calls'][:k] + spec['calls'][k + 1:],
                   fc=[[j - (j > k), w] for j, w in spec.get('fc', ()) if j != k])
    for k in range(n):
        if spec['calls'][k].get('cancel') is not None:
            cs = [dict(c) for c in spec['calls']]
            del cs[k]['cancel']
            yield dict(spec, calls=cs)
    for k in range(len(spec.get('fc', ()))):
        yield dict(spec, fc=spec['fc'][:k] + spec['fc'][k + 1:])
    yield from c04.shrinks_opts(spec)


def result_of(b, key):
    """(seq, time, object or None, distinct) of key's result in batch b."""
    for k, obj, s, t in b.yields:
        if k == key:
            return s, t, obj, not (obj is None or obj is False)
    if b.raised:
        return b.raised[1], b.end, b.raised[0], True
    if b.eseq is None:
        return None
    return b.eseq, b.end, None, False


def given_up(c, calls):
    """Was c's request, and everyone else's who joined in time, cancelled?"""
    if not c.cancelled:
        return False
    until = c.cseq
    for d in calls:
        if c.aseq < d.aseq < until:
            if not d.cancelled:
                return False
            until = max(until, d.cseq)
    return True


def run(spec):
    o = Out()
    tr = batch.run_program(spec)
    o.trace = tr.lines()
    o.key = repr(spec)
    if not batch.check_end(tr, o):
        return o
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    rt = spec['rt']
    m = 1e-6 + 0.01 * rt
    ctx = lambda c: f'{c!r}; ' + ' | '.join(tr.lines())[:900]
    for b in tr.batches:
        if len(set(b.keys)) != len(b.keys):
            o.bad('key-twice', f'{b!r}')
    for c in tr.calls:
        if c.kind == 'hang':
            o.bad('hang', ctx(c))
    if o.violations:
        return o
    o.counts['batches'] += len(tr.batches)
    for key in {c.key for c in tr.calls}:
        bs = [b for b in tr.batches if key in b.keys]
        used = 0
        cur = orig = None
        mine = sorted((c for c in tr.calls if c.key == key and c.aseq is not None),
                      key=lambda c: c.aseq)
        for c in mine:
            must = None
            if c.cancelled and cur is not None:
                o.counts['cancelled'] += 1
            if cur is None:
                must = 'fresh'
                o.counts['first'] += 1
            else:
                r = result_of(cur, key)
                if r is None or c.aseq < r[0]:
                    must = 'join'
                    kind = 'joined_pending'
                elif rt > 0:
                    if c.arrive < r[1] + rt - m:
                        must, kind = 'join', 'joined_retained'
                    elif c.arrive > r[1] + rt + m:
                        must = 'fresh'
                        o.counts['fresh_after_window'] += 1
                elif c.aseq > orig.eseq if not orig.cancelled else c.arrive > r[1] + m:
                    must = 'fresh'
                    o.counts['fresh_after_answer_R0'] += 1
                if must is None:
                    o.counts['ambiguous'] += 1
                    if not r[3]:
                        used = None     # not distinguishable: stop judging
                        break
                    must, kind = ('join', 'joined_tie') if c.obj is r[2] else ('fresh', '')
                o.nontrivial = True
            if must == 'fresh' and given_up(c, mine):
                o.counts['all_gave_up'] += 1
                used = None             # need not have been computed
                break
            if must == 'fresh':
                if used >= len(bs):
                    o.bad('stale', f'a new computation was due but no batch carries it: '
                                   f'{ctx(c)}')
                    used = None
                    break
                cur, orig = bs[used], c
                used += 1
                if cur.sseq < c.aseq:
                    o.bad('stale', f'served by batch {cur.id}, started before the call: '
                                   f'{ctx(c)}')
            else:
                o.counts[kind] += 1
            if c.cancelled:
                continue
            r = result_of(cur, key)
            if r is None:
                o.bad('stale', f'answered before its batch {cur.id}: {ctx(c)}')
            elif r[2] is None and not r[3]:
                if any(k == key for k, *_ in cur.yields):
                    if c.kind != 'ret' or c.obj is not None:
                        o.bad('other-outcome', f'expected None of batch {cur.id}: {ctx(c)}')
                elif c.kind != 'exc':
                    o.bad('other-outcome', f'expected the error of batch {cur.id}: {ctx(c)}')
            elif c.obj is not r[2]:
                o.bad('other-outcome', f'{must}: expected {r[2]!r} of batch {cur.id}: '
                                       f'{ctx(c)}')
        if used is not None and used != len(bs):
            o.bad('extra-work', f'key {key!r} is carried by {len(bs)} batches, {used} '
                                f'requests were due: ' + ' | '.join(tr.lines())[:900])
    return o
