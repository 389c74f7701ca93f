"""Batcher: sizes, concurrency, FIFO, grouping and deadline."""
from vf import batch
from vf.runner import Out
from . import c04

ID = 'C10'
LEVEL = 'exploration'
RULE = ('a case = timed program of 1..12 calls with distinct keys over arrival gaps '
        '{0..2.5} x batch_timeout, batch size 1..5 (possibly mutated while running), 1..3 '
        'slots, batch durations 0..4 x batch_timeout, batch functions that succeed, fail or '
        'omit; non-trivial = two batches and one with several items')
CASES = {'quick': 28000, 'thorough': 250000}
NEED = {'batches': 20000, 'grouped_pairs': 10000, 'full_splits': 3000, 'slot_waits': 2000,
        'mutated': 1500, 'timed_out_batches': 5000}
ASSUMPTIONS = ['gaps within 2% of batch_timeout are not judged for grouping',
               'after a mutation of max_batch_size, any value in effect between the first '
               'arrival of a batch and its start is accepted as its limit']


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
    p = c04.program(rng, n, ['x'])
    bt = p['bt'] or .1
    g = rng.choice([[0, 0, 0.2, 0.5, 0.9, 1.1, 2.5], [0, 0.9, 0.9, 1.1], [0], [0.5, 0.9],
                    [0, 0, 0, 1.1, 3]])
    t = 0.0
    for j, c in enumerate(p['calls']):
        t += rng.choice(g) * bt
        c['t'] = round(t, 9)
        c['key'] = rng.choice([f'k{j}', None])
        c['arg'] = rng.choice([j, f'a{j}'])
    p['dur'] = [0] if rng.random() < .5 else [None]
    p['pre'] = rng.choice([None, 0, 0.6 * bt, 1.5 * bt, 4 * bt])
    p['post'] = rng.choice([None, None, 0.7 * bt])
    p['beh'] = {}
    if rng.random() < .3:
        for c in p['calls']:
            p['beh'][batch.keyof(c)] = [rng.choice(['v', 'x', 'omit', 'raise'])]
        p['rk'] = rng.choice(['exc', 'value', 'cancel'])
    if rng.random() < .25:
        p['form'] = 'class'
        p['mutate'] = sorted([round(rng.uniform(0, t + bt), 9), rng.choice([1, 2, 3, 5, 8])]
                             for _ in range(rng.choice([1, 2])))
    if rng.random() < .008:
        p = batch.widen(p, rng)
        for j, c in enumerate(p['calls']):
            c['arg'] = j
            p['beh'].setdefault(str(j), ['v'])
    if rng.random() < .03:
        p = batch.stretch(p, rng)
    return p


def shrinks(spec):
    n = len(spec['calls'])
    for k in range(n):
        yield dict(spec, calls=spec['calls'][:k] + spec['calls'][k + 1:])
    if spec.get('mutate'):
        yield dict(spec, mutate=[])
    yield from c04.shrinks_opts(spec)


def run(spec):
    o = Out()
    tr = batch.run_program(spec)
    o.trace = tr.lines()
    o.key = repr(spec)
    if not batch.check_end(tr, o):
        return o
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    bt, mcb = spec['bt'], spec['mcb']
    eps = 1e-6 + 0.001 * bt
    ctx = lambda: ' | '.join(tr.lines())[:900]
    call = {c.key: c for c in tr.calls}
    o.counts['batches'] += len(tr.batches)
    o.counts['mutated'] += len(tr.mutations) - 1
    o.nontrivial = len(tr.batches) > 1 and any(len(b.items) > 1 for b in tr.batches)

    def limits(a, b):
        vals, cur = [], None
        for t, v in tr.mutations:
            if t <= a - eps:
                cur = v
            elif t <= b + eps:
                vals.append(v)
        return vals + [cur] if cur is not None else vals

    if tr.max_running > mcb:
        o.bad('concurrency', f'{tr.max_running} executions at once, limit {mcb}; {ctx()}')
    order = [k for b in tr.batches for k in b.keys]
    arrived = [c.key for c in sorted((c for c in tr.calls if c.aseq), key=lambda c: c.aseq)]
    if order != arrived:
        if sorted(order) != sorted(arrived):
            o.bad('lost-or-repeated', f'arrived {arrived}, batched {order}; {ctx()}')
            return o
        o.bad('order', f'arrived {arrived}, batched {order}; {ctx()}')
        return o
    for c in tr.calls:
        b = next((b for b in tr.batches if c.key in b.keys), None)
        if b and (c.key, c.arg) not in b.items:
            o.bad('wrong-item', f'{c!r} appears as {b.items}; {ctx()}')
        if c.kind == 'hang':
            o.bad('hang', ctx())
    prev = None
    for b in tr.batches:
        if not b.items:
            o.bad('empty-batch', ctx())
            continue
        first, last = call[b.keys[0]].arrive, call[b.keys[-1]].arrive
        lim = limits(first, b.start)
        if len(b.items) > max(lim):
            o.bad('oversize', f'batch {b.id} has {len(b.items)} items, limit {max(lim)}; '
                              f'{ctx()}')
        if prev is not None:
            pl, pfirst = call[prev.keys[-1]].arrive, call[prev.keys[0]].arrive
            if first - pl < bt * 0.98 - eps:
                if len(prev.items) < min(limits(pfirst, prev.start)):
                    o.bad('not-grouped', f'batch {b.id} begins {first - pl:g} after the last '
                          f'arrival of batch {prev.id}, which was not full; {ctx()}')
                else:
                    o.counts['full_splits'] += 1
        o.counts['grouped_pairs'] += len(b.items) - 1
        due = last + bt
        if b.start > due + eps:
            # only legitimate if no slot was free in between
            run_, at = 0, 0.0
            free = None
            for t, r in tr.run_log + [(b.start, mcb)]:
                lo, hi = max(at, due), min(t, b.start)
                if run_ < mcb and hi - lo > eps:
                    free = (lo, hi)
                run_, at = r, t
            if free:
                o.bad('late', f'batch {b.id} was due at {due:g}, a slot was free during '
                              f'{free}, started at {b.start:g}; {ctx()}')
            else:
                o.counts['slot_waits'] += 1
        elif b.start > due - eps:
            o.counts['timed_out_batches'] += 1
        prev = b
    return o
