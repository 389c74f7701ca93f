"""Batcher: every caller gets its own outcome, always."""
from vf import sim, load, batch
from vf.runner import Out

ID = 'C04'
LEVEL = 'exploration'
RULE = ('a case = timed program of 1..10 calls over a small key domain (explicit and '
        'default keys), arrival gaps on a grid straddling batch_timeout, limits, retention, '
        'and a batch function with per-key behaviour (value, falsy values, exception value, '
        'omitted, raises, yielded twice, unknown key), result order and durations; '
        'non-trivial = a batch with two items or a key requested twice')
CASES = {'quick': 24000, 'thorough': 200000}
NEED = {'calls': 20000, 'returned': 5000, 'yielded_exc': 1000, 'raised_exc': 1000,
        'omitted': 500, 'batches': 5000, 'nested_calls': 200}
ASSUMPTIONS = ['if the batch function yields a key twice, either yielded value is accepted '
               'for that key', 'an exception that a Future cannot carry (StopIteration) may '
               'reach the caller in another exception']
BEH = ['v', 'v', 'v', 'x', 'x', 'omit', 'raise', 'twice', 'twicex', 'unk', 'vnone',
       'vfalse', 'evil', 'kerr', 'base', 'terr', 'stop', 'cls', 'vodd']
ARGS = [0, 1, 2, '1', 'a', None, 1.5, 0, 1, 2, '1', 'a', [0], {'a': 1}]
NEAR = [[' a', 'a', 'a ', 'a\n'], ['A', 'a'], ['\xe9', 'e\u0301'], [1, 1.0, '01', '1.0', True],
        ['a' * 300 + 'x', 'a' * 300 + 'y'], ['k\0', 'k'], ['a/b', 'a', 'a:b'],
        ['1', "'1'", [1], ['1']]]
KEYS = [None, None, None, 'k0', 'k1', '1', '']


def program(rng, ncalls, keys=KEYS, cancels=False):
    bt = real = rng.choice([0.05, 0.1, 1.0])
    if rng.random() < .04:
        real = 0
    grid = [0, 0, 0, 0.2 * bt, 0.5 * bt, 0.9 * bt, 1.1 * bt, 2.5 * bt, 6 * bt]
    if rng.random() < .3:
        grid = [0, 0, 0, 0, bt * .5]
    calls, t = [], 0.0
    for _ in range(ncalls):
        t += rng.choice(grid)
        calls.append({'t': round(t, 9), 'arg': rng.choice(ARGS),
                      'key': rng.choice(keys), 'y': rng.choice([0, 0, 0, 1, 2, 3, 5])})
    durs = rng.choice([[0], [None], [0, 0.3 * bt], [bt], [0.4 * bt, 3 * bt, None]])
    return {'mbs': rng.choice([1, 2, 3, 4, 5]), 'mcb': rng.choice([1, 1, 2, 3]), 'bt': real,
            'twin': rng.random() < .12,
            'rt': rng.choice([0, 0, 0, 0.5 * bt, 5 * bt]), 'calls': calls,
            'dur': durs, 'pre': rng.choice([None, 0, 0.6 * bt]),
            'post': rng.choice([None, None, 0, 2 * bt]),
            'order': rng.choice(['fwd', 'rev', 'shuf']), 'fseed': rng.randrange(1000),
            'form': rng.choice(['class', 'class', 'deco']),
            'fkind': rng.choice(['gen', 'gen', 'iter', 'syncraise', 'obj', 'partial', 'method'])
            if rng.random() < .4 else 'gen',
            'rk': rng.choice(['exc', 'exc', 'exc', 'key', 'value', 'timeout', 'inv',
                              'cancel', 'base']),
            'gc': rng.random() < 0.01, 'beh': {}}


def near(p, rng):
    """Keys which differ in little."""
    if rng.random() < .05:
        g = rng.choice(NEAR)
        for c in p['calls']:
            c['arg'] = rng.choice(g)
            c['key'] = str(rng.choice(g)) if rng.random() < .3 else None


def gen(rng, i, tier):
    p = program(rng, rng.choice([1, 2, 3, 4, 5, 6, 8, 10]))
    near(p, rng)
    if rng.random() < .08:
        for c in p['calls']:
            c['pc'] = rng.random() < .4
    mild = rng.random() < 0.35
    for k in {batch.keyof(c) for c in p['calls']}:
        p['beh'][k] = [rng.choice(['v', 'x', 'v'] if mild else BEH)
                       for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .06:
        keys = [batch.keyof(c) for c in p['calls']]
        p['nest'] = [[rng.choice(keys), rng.choice(ARGS), rng.choice([None, None, 'k0', 'n'])]
                     for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < .008:
        p = batch.widen(p, rng)
    if rng.random() < .03:
        p = batch.stretch(p, rng)
    if rng.random() < .06:
        batch.pause(p, rng)
    return p


def shrinks(spec):
    n = len(spec['calls'])
    for k in range(n):
        yield dict(spec, calls=spec['calls'][:k] + spec['calls'][k + 1:])
    yield from shrinks_opts(spec)


def shrinks_opts(spec):
    if spec.get('twin'):
        yield dict(spec, twin=False)
    for k in range(len(spec.get('pauses') or ())):
        yield dict(spec, pauses=spec['pauses'][:k] + spec['pauses'][k + 1:])
    for k, v in (('pre', None), ('post', None), ('dur', [0]), ('order', 'fwd'),
                 ('fkind', 'gen'), ('rt', 0), ('form', 'class'), ('rk', 'exc'),
                 ('gc', False)):
        if spec[k] != v:
            yield dict(spec, **{k: v})
    for k, b in spec['beh'].items():
        if b != ['v']:
            yield dict(spec, beh=dict(spec['beh'], **{k: ['v']}))
    if any(c['y'] for c in spec['calls']):
        yield dict(spec, calls=[dict(c, y=0) for c in spec['calls']])


def run(spec):
    o = Out()
    tr = batch.run_program(spec)
    o.trace = tr.lines()
    o.key = repr(spec)
    o.nontrivial = any(len(b.items) > 1 for b in tr.batches) or \
        len({c.key for c in tr.calls}) < len(tr.calls)
    if not batch.check_end(tr, o):
        return o
    o.counts['loop_paused'] += tr.paused
    for t in tr.all():
        judge(spec, t, o)
    return o


def judge(spec, tr, o):
    o.counts['calls'] += len(tr.calls)
    o.counts['batches'] += len(tr.batches)
    for c in tr.calls:
        why = batch.explain(c, tr)
        if why:
            o.bad(why[0], f'{c!r}: {why[1]}; {tr.batches!r:.600}')
        elif c.kind == 'ret':
            o.counts['returned'] += 1
        elif any(b.raised and b.raised[0] is c.obj for b in tr.batches):
            o.counts['raised_exc'] += 1
        elif any(obj is c.obj for b in tr.batches for _, obj, _, _ in b.yields):
            o.counts['yielded_exc'] += 1
        else:
            o.counts['omitted'] += 1
        if c.i >= len(spec['calls']):
            o.counts['nested_calls'] += 1
    for b in tr.batches:
        for k, a in (b.items if not tr.bad_args else ()):
            if not any(c.key == k and c.arg is a for c in tr.calls):
                o.bad('foreign-arg', f'batch {b.id} carried {(k, a)!r}, but no call with that '
                      f'key had that argument: {tr.calls!r:.400}')
    if tr.bad_args:
        o.bad('bad-args', f'batch function given {tr.bad_args[:3]}')
