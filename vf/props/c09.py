"""Batcher: cancelling or timing out callers never disturbs the others."""
import asyncio as aio
from vf import batch
from vf.runner import Out
from . import c04

ID = 'C09'
LEVEL = 'exploration'
RULE = ('a case = timed batcher program of 2..8 calls (shared and distinct keys) in which a '
        'subset of callers is cancelled or timed out: at a grid instant (plus 0..5 loop '
        'iterations), or from inside the batch function exactly at batch start, just before '
        'or just after the result of the key is produced; followed by fresh calls; '
        'non-trivial = a caller was actually cancelled while another one was unanswered')
CASES = {'quick': 28000, 'thorough': 250000}
NEED = {'cancelled': 8000, 'timed_out': 1000, 'others': 20000, 'sharing_key': 2000,
        'sharing_batch': 4000, 'fresh': 10000}
ASSUMPTIONS = ['a cancelled caller may still get its result when that was already there; '
               'if the batch function yields a key twice, either value is accepted']
BEH = ['v', 'v', 'v', 'v', 'x', 'x', 'omit', 'raise', 'twice', 'vnone', 'evil', 'vodd']


def gen(rng, i, tier):
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8])
    keys = rng.choice([c04.KEYS, ['a', 'b', 'c'], ['a'], ['a', 'b'], list('abcdefgh')])
    p = c04.program(rng, n, keys)
    bt = p['bt'] or .1
    grid = [0, 0, 0.5 * bt, bt, bt, 1.3 * bt, 1.6 * bt, 2 * bt, 3 * bt]
    p['fc'] = []
    some = False
    for j, c in enumerate(p['calls']):
        x = rng.random()
        if x < .28 or (j == n - 1 and not some):
            c['cancel'] = round(c['t'] + rng.choice(grid), 9)
            c['cy'] = rng.choice([0, 0, 1, 1, 2, 3, 4, 5])
            some = True
        elif x < .38:
            c['wf'] = rng.choice([0.2 * bt, bt, 1.3 * bt, 1.6 * bt, 2 * bt])
            some = True
        elif x < .6:
            p['fc'].append([j, rng.choice(['start', 'before', 'before', 'after', 'after'])])
            some = True
    for k in {batch.keyof(c) for c in p['calls']}:
        p['beh'][k] = [rng.choice(BEH) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .5:        # durations that make results meet the instants
        p['dur'] = rng.choice([[0], [0.3 * bt], [0.6 * bt], [None]])
        p['pre'] = rng.choice([None, None, 0.3 * bt, bt])
    if rng.random() < .025:
        p = batch.widen(p, rng)
        share = rng.choice([.02, .3, .8])
        for j, c in enumerate(p['calls']):
            x = rng.random()
            if x < share / 2:
                c['cancel'] = round(c['t'] + rng.choice(grid), 9)
                c['cy'] = rng.choice([0, 0, 1, 2])
            elif x < share:
                c['wf'] = rng.choice([0.2 * bt, bt, 1.3 * bt, 1.6 * bt])
    end = max([c['t'] for c in p['calls']] + [c.get('cancel', 0) for c in p['calls']])
    end += rng.choice([0, 0, 0.5 * bt, 0.5 * bt, 4 * bt, 4 * bt, 40 * bt, 1e5])
    seen = sorted({batch.keyof(c) for c in p['calls']})
    p['fresh'] = len(p['calls'])
    for k in range(rng.choice([1, 2])):
        p['calls'].append({'t': round(end, 9), 'arg': 1, 'y': 0,
                           'key': rng.choice(seen + ['new', 'new'])})
    if rng.random() < .06:
        batch.pause(p, rng)
    return p


def shrinks(spec):
    n = len(spec['calls'])
    for k in range(n):
        s = dict(spec, calls=spec['calls'][:k] + spec['calls'][k + 1:],
                 fc=[[j - (j > k), w] for j, w in spec['fc'] if j != k])
        s['fresh'] = spec['fresh'] - (k < spec['fresh'])
        yield s
    for k in range(n):
        for a in ('cancel', 'wf', 'cy'):
            if spec['calls'][k].get(a):
                cs = [dict(c) for c in spec['calls']]
                del cs[k][a]
                yield dict(spec, calls=cs)
    for k in range(len(spec['fc'])):
        yield dict(spec, fc=spec['fc'][:k] + spec['fc'][k + 1:])
    yield from c04.shrinks_opts(spec)


def run(spec):
    o = Out()
    tr = batch.run_program(spec)
    o.trace = tr.lines()
    o.key = repr(spec)
    if not batch.check_end(tr, o):
        return o
    o.counts['loop_paused'] += tr.paused
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    hit = [c for c in tr.calls if (c.cancelled or c.timed) and c.arrive is not None]
    o.counts['batches'] += len(tr.batches)
    for c in tr.calls:
        if c.arrive is None:           # its task was cancelled before it called
            continue
        ctx = f'{c!r}: %s; ' + f'{tr.batches[:8]!r:.500}; others {tr.calls[:8]!r:.500}'
        ctx = ctx.replace('%', '%%').replace('%%s', '%s', 1)
        if c.kind == 'hang':
            o.bad('hang', ctx % 'never completed')
            continue
        own_cancel = c.cancelled and c.kind == 'exc' and \
            isinstance(c.obj, aio.CancelledError)
        own_timeout = c.timed and c.kind == 'exc' and isinstance(c.obj, aio.TimeoutError) \
            and batch.explain(c, tr) is not None
        if c.cancelled:
            o.counts['cancelled'] += 1
            if c.end > c.ctime + 1e-6 and not spec.get('pauses'):
                o.bad('cancel-late', ctx % 'did not end when cancelled')
        if own_timeout:
            o.counts['timed_out'] += 1
            wf = spec['calls'][c.i]['wf']
            if not (c.arrive + wf - 1e-6 <= c.end and
                    (c.end <= c.arrive + wf + 1e-6 or spec.get('pauses'))):
                o.bad('timeout-time', ctx % f'timed out although the limit is {wf}')
        if own_cancel or own_timeout:
            continue
        why = batch.explain(c, tr)
        if why:
            o.bad(why[0], ctx % why[1])
            continue
        if c.cancelled or c.timed:
            continue
        o.counts['others'] += 1
        if c.i >= spec['fresh']:
            o.counts['fresh'] += 1
        for h in hit:
            if h.end is not None and h.arrive <= c.end and h.end >= c.arrive:
                o.nontrivial = True
                if h.key == c.key:
                    o.counts['sharing_key'] += 1
                    break
                if not spec.get('wide') and \
                        any(h.key in b.keys and c.key in b.keys for b in tr.batches):
                    o.counts['sharing_batch'] += 1
                    break
