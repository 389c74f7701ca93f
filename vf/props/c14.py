"""Cache keys, stores and evictions."""
from vf import sim, load
from vf.runner import Out, gen_sched
from vf.harness import execute, odd_value
import asyncio as aio
import threading
from collections import OrderedDict, UserDict
from collections.abc import MutableMapping

ID = 'C14'
LEVEL = 'exploration'
RULE = ('a case = a history of 3..12 calls drawn from 2..5 call signatures (positional '
        'tuples of length 0..3 and keyword dicts of 0..3 names in any insertion order, '
        'near-colliding on purpose), evictions/clears of the supplied mapping, calls '
        'grouped into gathers, loops and threads, and a cache kind; non-trivial = at '
        'least two distinct signatures or an eviction')
CASES = {'quick': 24000, 'thorough': 200000}
NEED = {'calls': 20000, 'invocations': 5000, 'cache_hits': 5000, 'evictions': 1000, 'second_function': 500, 'wide_calls': 5000,
        'kw_reordered': 500}
ASSUMPTIONS = ['argument equality is Python == on the positional tuple and on the '
               'keyword dict (so 1, True and 1.0 are equal arguments)',
               'evictions through the supplied mapping are only made between calls']

V = {
    'i1': lambda: 1, 'i2': lambda: 2, 'm1': lambda: -1, 'm2': lambda: -2,
    'T': lambda: True, 'f1': lambda: 1.0, 's1': lambda: ''.join(['', '1']),
    'none': lambda: None, 'sa': lambda: ''.join(['a', '']), 'sab': lambda: ''.join(['a', 'b']),
    't1': lambda: tuple([1]), 't0': lambda: (), 'ta1': lambda: tuple(['a', 1]),
    'fsa1': lambda: frozenset({('a', 1)}), 'fs0': lambda: frozenset(),
    'big': lambda: int('123456789123'), 'tt': lambda: ((1,),), 'i0': lambda: 0,
    'F': lambda: False, 'e': lambda: ''.join([]), 'by': lambda: bytes([49]),
    'eq': lambda: Eq(3), 'eq2': lambda: Eq(4), 'tk': lambda: (('a', 1),),
    'obj': lambda: OBJ, 'n12': lambda: (1, 2), 'key0': lambda: ((), frozenset()),
    'nanx': lambda: NAN, 'huge': lambda: 2 ** 61 - 1,
}
NAMES = ['a', 'b', 'c', 'key', 'self', 'args', 'cache', 'func', 'kwargs', 'x', 'loop']
NAN = float('nan')


class Eq:
    """Equal but distinct instances, everything in one hash bucket."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Eq) and o.n == self.n

    def __hash__(self):
        return 1

    def __repr__(self):
        return f'Eq({self.n})'


OBJ = object()


class Plain(MutableMapping):
    """Only the abstract methods, falsy while empty."""
    def __init__(self):
        self.d = {}
        self.sets = 0

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.sets += 1
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class LRU(Plain):
    cap = 2

    def __init__(self):
        super().__init__()
        self.d = OrderedDict()

    def __getitem__(self, k):
        v = self.d[k]
        self.d.move_to_end(k)
        return v

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self.d.move_to_end(k)
        while len(self.d) > self.cap:
            self.d.popitem(last=False)


class MyKeyError(KeyError):
    pass


class Odd(Plain):
    """KeyError subclasses, always falsy."""
    def __getitem__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise MyKeyError(k) from None

    def __bool__(self):
        return False


CACHES = ['default', 'default', 'dict', 'dict', 'plain', 'odict', 'userdict', 'lru', 'lru1',
          'odd']


def sig(rng):
    vals = list(V)
    pos = [rng.choice(vals) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    names = rng.sample(NAMES[:3] if rng.random() < .7 else NAMES,
                       rng.choice([0, 0, 1, 1, 2, 3]))
    return [pos, [[n, rng.choice(vals)] for n in names]]


PAIRS = [
    [[['ta1'], []], [[], [['a', 'i1']]]],
    [[['i1'], []], [['T'], []]],
    [[['i1'], []], [['s1'], []]],
    [[['m1'], []], [['m2'], []]],
    [[[], [['a', 'i1'], ['b', 'i2']]], [[], [['b', 'i2'], ['a', 'i1']]]],
    [[[], [['a', 'i1'], ['b', 'i2']]], [[], [['a', 'i2'], ['b', 'i1']]]],
    [[['i1'], []], [[], [['a', 'i1']]]],
    [[['sa', 'i1'], []], [[], [['a', 'i1']]]],
    [[['fsa1'], []], [[], [['a', 'i1']]]],
    [[['t0', 'fs0'], []], [[], []]],
    [[['t1'], []], [['i1'], []]],
    [[['i1', 'i2'], []], [['i2', 'i1'], []]],
    [[['i1', 'i2'], []], [['n12'], []]],
    [[['i1'], [['a', 'i2']]], [['i2'], [['a', 'i1']]]],
    [[[], []], [['none'], []]],
    [[[], [['a', 'none']]], [[], []]],
    [[[], [['a', 'i1']]], [[], [['b', 'i1']]]],
    [[['eq'], []], [['eq2'], []]],
    [[['i0'], []], [['F'], []]],
    [[['i1'], [['key', 'i2']]], [['i1'], [['key', 'i1']]]],
    [[['s1'], []], [['by'], []]],
    [[['tk'], []], [['ta1'], []]],
    [[['sab'], []], [['sa', 'sa'], []]],
    [[['i1'], [['self', 'i1']]], [['i1'], [['args', 'i1']]]],
    [[['key0'], []], [[], []]],
    [[['i0'], []], [['huge'], []]],
    [[['i0'], []], [['e'], []]],
    [[['none'], []], [['F'], []]],
]


def gen(rng, i, tier):
    sigs = []
    if rng.random() < 0.7:
        sigs += rng.choice(PAIRS)
    while len(sigs) < 2 or rng.random() < 0.4:
        if sigs and rng.random() < .2:
            sigs.append(likeness(rng, rng.choice(sigs)))
        elif rng.random() < 0.5 or not sigs:
            sigs.append(sig(rng))
        else:
            p, k = rng.choice(sigs)
            p, k = list(p), [list(x) for x in k]
            r = rng.random()
            if r < 0.3 and p:
                p[rng.randrange(len(p))] = rng.choice(list(V))
            elif r < 0.5 and k:
                k[rng.randrange(len(k))][1] = rng.choice(list(V))
            elif r < 0.6 and k:
                p.append(k.pop()[1])
            elif r < 0.7 and len(p) > 1:
                p.reverse()
            elif r < 0.8:
                p.append('none')
            elif len(p) < 3:
                p.append(rng.choice(list(V)))
            sigs.append([p, k])
        if len(sigs) >= 5:
            break
    cache = rng.choice(CACHES)
    steps = []
    for _ in range(rng.randrange(3, 9)):
        r = rng.random()
        if r < 0.62 or cache.startswith('lru') and r < .8:
            steps.append(['call', rng.randrange(len(sigs)), rng.randrange(6)])
        elif r < 0.78:
            steps.append(['gather', [[rng.randrange(len(sigs)), rng.randrange(6)]
                                     for _ in range(rng.randrange(2, 5))]])
        elif r < 0.84:
            steps.append(['loop'])
        elif r < 0.9 and not cache.startswith('lru'):
            steps.append(['threads', [[rng.randrange(len(sigs)), rng.randrange(6)]
                                      for _ in range(rng.randrange(2, 4))]])
        elif cache != 'default':
            steps.append(rng.choice([['evict', rng.randrange(len(sigs))],
                                     ['evict', rng.randrange(len(sigs))], ['clear']]))
        if cache.startswith('lru') and steps and steps[-1][0] == 'gather':
            steps[-1] = ['call', rng.randrange(len(sigs)), 0]
    wide = 0
    if rng.random() < .01:              # many keys: nothing may be forgotten or confused
        wide = rng.choice([130, 300, 1100])
        cache, steps = rng.choice(['default', 'default', 'dict', 'plain']), []
    return {'sigs': sigs, 'steps': steps, 'cache': cache, 'wide': wide,
            'second': cache == 'default' and rng.random() < .5,
            'form': rng.choice(['direct', 'direct', 'opts']),
            'dur': rng.choice([0, None, 0.1]),
            'res': rng.choice(['tag', 'tag', 'tag', 'none', 'false', 'odd']), 'ov': rng.randrange(15),
            'fails': [rng.random() < 0.15 for _ in range(4)] if rng.random() < 0.2 else [],
            'sched': gen_sched(rng, 200)}


class Fail(Exception):
    pass


class Tag:
    def __init__(self, n, a, k):
        self.n, self.a, self.k = n, a, k

    def __repr__(self):
        return f'Tag({self.n})'


def value(x):
    if isinstance(x, str):
        return V[x]()
    how, pos, kws = x              # a value which looks like (part of) a key
    a = tuple(value(v) for v in pos)
    items = tuple((n, value(v)) for n, v in kws)
    if how == 'repr':
        return repr(a if not items else (a, dict(items)))
    if how == 'str':
        return ', '.join([repr(v) for v in a] + [f'{n}={v!r}' for n, v in items])
    return {'t': a, 'fs': frozenset(items), 'tt': items, 'pair': (a, frozenset(items)),
            'pairt': (a, items), 'cat': a + items, 'flat': a + sum(items, ())}[how]


def likeness(rng, sg):
    """Another signature, whose arguments are encoded keys of the given one."""
    p, k = sg
    t, fs, tt = ['t', p, []], ['fs', [], k], ['tt', [], k]
    one = [rng.choice(['t', 'pair', 'pairt', 'cat', 'flat', 'repr', 'str']), p, k]
    return rng.choice([
        [[t, fs], []], [[t, tt], []], [p + [fs], []], [p + [tt], []], [[one], []], [[one], []],
        [p + [['tt', [], [x]] for x in k], []], [[t] + [v for _, v in k], []],
        [p + [v for _, v in k], []], [[], [['args', t], ['kwargs', fs]]],
        [[t], k], [p, [['kwargs', tt]]] if k else [[t], [['kwargs', fs]]],
        [[fs] + p, []], [[['fs', [], k + [['a', v] for v in p[:1]]]], []]])


def build(sg, perm):
    a = tuple(value(n) for n in sg[0])
    ks = list(sg[1])
    if perm and len(ks) > 1:
        ks = ks[perm % len(ks):] + ks[:perm % len(ks)]
        if perm % 2:
            ks.reverse()
    return a, {n: value(v) for n, v in ks}


def strict(a, b):
    return type(a) is type(b) and (a is b or a == b)


def run(spec):
    o = Out()
    inv = []          # (args, kwargs, Tag)
    oddobj = odd_value(spec['ov'])

    def scen():
        m = load.fresh('asyncio')
        kind = spec['cache']
        cache = {'default': lambda: None, 'dict': dict, 'plain': Plain,
                 'odict': OrderedDict, 'userdict': UserDict, 'lru': LRU,
                 'lru1': LRU, 'odd': Odd}[kind]()
        if kind == 'lru1':
            cache.cap = 1

        async def func(*args, **kwargs):
            n = len(inv)
            t = Tag(n, args, kwargs)
            inv.append((args, kwargs, t))
            if spec['dur'] is not None:
                await aio.sleep(spec['dur'])
            if spec['fails'] and n < len(spec['fails']) and spec['fails'][n]:
                raise Fail(n)
            t.k2 = None
            if spec['res'] == 'none':
                return None
            if spec['res'] == 'false':
                return False
            if spec['res'] == 'odd':
                return oddobj
            return t
        if kind == 'default':
            f = m.threadsafe_async_cache(func) if spec['form'] == 'direct' \
                else m.threadsafe_async_cache()(func)
        else:
            f = m.threadsafe_async_cache(func, cache=cache) \
                if spec['form'] == 'direct' else \
                m.threadsafe_async_cache(cache=cache)(func)

        if spec.get('second'):
            # another function has a store of its own
            async def func2(*args, **kwargs):
                await aio.sleep(0)
                inv2.append((args, kwargs))
                return 'second', len(inv2)
            func2.__name__, func2.__qualname__ = func.__name__, func.__qualname__
            f2 = m.threadsafe_async_cache(func2)
            inv2, seen2 = [], {}

        if spec.get('wide'):
            async def all_of():
                for again in (0, 1):
                    n0 = len(inv)
                    for j in range(spec['wide']):
                        a, kw = ((j,), {}) if j % 3 else ((), {'a': j, 'b': str(j)})
                        r = await f(*a, **kw)
                        o.counts['wide_calls'] += 1
                        if spec['fails'] and len(inv) <= len(spec['fails']):
                            return
                        if spec['res'] == 'tag' and (r.a, r.k) != (a, kw):
                            o.bad('foreign-value', f'{(a, kw)} got {(r.a, r.k)}')
                    if len(inv) - n0 != (0 if again else spec['wide']):
                        o.bad('recomputed', f'{spec["wide"]} keys, round {again}: '
                              f'{len(inv) - n0} invocations; cache={kind}')
                        return
            if not spec['fails']:
                lp = aio.new_event_loop()
                lp.run_until_complete(all_of())
                lp.close()
                return

        sigs = [build(s, 0) for s in spec['sigs']]
        # classes of equal signatures
        cls = []
        for k, (a, kw) in enumerate(sigs):
            for j in range(k):
                if sigs[j][0] == a and sigs[j][1] == kw:
                    cls.append(cls[j])
                    break
            else:
                cls.append(k)
        keys = {}           # class -> mapping keys that appeared while computing it
        cached = {}         # class -> Tag / True, when known cached (model)

        def present(c):
            if c not in cached:
                return False
            if kind == 'default':
                return True
            ks = keys.get(c)
            if not ks:
                return True
            return all(k in list(cache) for k in ks)

        async def one(si, perm):
            a, kw = build(spec['sigs'][si], perm)
            if perm and len(kw) > 1:
                o.counts['kw_reordered'] += 1
            o.counts['calls'] += 1
            if spec.get('second'):
                r2 = await f2(*a, **kw)
                o.counts['second_function'] += 1
                if type(r2) is not tuple or r2[0] != 'second':
                    o.bad('functions-mixed', f'second function called with {(a, kw)!r} '
                          f'returned {r2!r}')
                elif seen2.setdefault(cls[si], r2) != r2:
                    o.bad('recomputed', f'second function returned {r2!r} and '
                          f'{seen2[cls[si]]!r} for {(a, kw)!r}')
            try:
                return await f(*a, **kw)
            except Fail as e:
                return e

        def check_val(c, r, lo):
            """The value must have been computed for an equal signature."""
            if spec['res'] != 'tag':
                want = {'none': None, 'false': False, 'odd': oddobj}[spec['res']]
                if r is not want and not isinstance(r, Fail):
                    o.bad('value', f'returned {r!r}, function returns {want!r}')
                return
            if isinstance(r, Fail):
                return
            if not isinstance(r, Tag):
                o.bad('value', f'returned {r!r}, which the function never returned')
                return
            a, kw = sigs[c]
            if not (r.a == a and r.k == kw):
                o.bad('foreign-value', f'call {sigs[c]!r} got the result computed for '
                      f'{(r.a, r.k)!r}')

        def step(st, runner):
            if st[0] == 'call':
                calls = [[st[1], st[2]]]
            elif st[0] in ('gather', 'threads'):
                calls = st[1]
            elif st[0] == 'evict':
                c = cls[st[1]]
                if c in cached and keys.get(c):
                    for k in keys[c]:
                        if k in list(cache):
                            del cache[k]
                    cached.pop(c)
                    o.counts['evictions'] += 1
                return
            elif st[0] == 'clear':
                cache.clear()
                cached.clear()
                o.counts['evictions'] += 1
                return
            before = list(cache) if cache is not None else []
            n0 = len(inv)
            want = {}
            for si, _ in calls:
                c = cls[si]
                if c not in want:
                    want[c] = not present(c)
            res = runner(calls)
            new = inv[n0:]
            o.counts['invocations'] += len(new)
            o.counts['cache_hits'] += len(calls) - len(new)
            got = {}
            for a, kw, t in new:
                for k, (sa, skw) in enumerate(sigs):
                    if sa == a and skw == kw:
                        got.setdefault(cls[k], []).append(t)
                        break
                else:
                    o.bad('wrong-args', f'function invoked with {(a, kw)!r}, never passed')
            failed = {c for c in want if any(
                spec['fails'] and t.n < len(spec['fails']) and spec['fails'][t.n]
                for t in got.get(c, []))}
            for c, need in want.items():
                k = len(got.get(c, []))
                if c in failed:
                    if not need:
                        o.bad('recomputed', f'{sigs[c]!r} recomputed while cached')
                    ok = any(not (t.n < len(spec['fails']) and spec['fails'][t.n])
                             for t in got[c])
                    if not ok:
                        continue
                elif k != (1 if need else 0):
                    o.bad('recomputed' if k else 'not-computed',
                          f'{sigs[c]!r}: {k} invocations, expected '
                          f'{1 if need else 0}; history {spec["steps"]} cache={kind}')
                    return
                if need:
                    cached[c] = [t for t in got[c] if not (
                        spec['fails'] and t.n < len(spec['fails'])
                        and spec['fails'][t.n])][-1]
                    if cache is not None:
                        now = list(cache)
                        if len(want) == 1:
                            keys[c] = [k for k in now if k not in before]
                            if not keys[c] and not kind.startswith('lru'):
                                o.bad('store-unused', f'computing {sigs[c]!r} stored '
                                      f'nothing in the supplied {kind} mapping')
                        else:
                            keys.pop(c, None)
            for (si, _), r in zip(calls, res):
                c = cls[si]
                check_val(c, r, n0)
                if spec['res'] == 'tag' and c in cached and isinstance(r, Tag) \
                        and r is not cached[c]:
                    o.bad('stale', f'call {sigs[c]!r} returned {r!r}, cached is '
                          f'{cached[c]!r}')
            if len(calls) == 1 and new:
                a, kw = build(spec['sigs'][calls[0][0]], calls[0][1])
                ga, gk, _ = new[-1]
                if not (len(ga) == len(a) and all(map(strict, ga, a))
                        and list(gk) == list(kw)
                        and all(strict(gk[x], kw[x]) for x in kw)):
                    o.bad('args-altered', f'called with {(a, kw)!r}, function saw '
                          f'{(ga, gk)!r}')

        def loops():
            """Split the history at 'loop' steps; each part gets a new loop."""
            part = []
            for st in spec['steps']:
                if st[0] in ('loop', 'threads'):
                    yield part
                    part = []
                    if st[0] == 'threads':
                        yield st
                else:
                    part.append(st)
            yield part

        for part in loops():
            if part and part[0] == 'threads':
                def runner(calls):
                    res = [None] * len(calls)

                    def th(i, c):
                        lp = aio.new_event_loop()
                        res[i] = lp.run_until_complete(one(*c))
                        lp.close()
                    ts = [threading.Thread(target=th, args=(i, c))
                          for i, c in enumerate(calls)]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                    return res
                if part[1]:
                    step(part, runner)
            else:
                lp = aio.new_event_loop()

                async def many(calls):
                    if len(calls) == 1:
                        return [await one(*calls[0])]
                    return await aio.gather(*(one(*c) for c in calls))
                for st in part:
                    step(st, lambda calls: lp.run_until_complete(many(calls)))
                    if o.violations:
                        break
                lp.close()
            if o.violations:
                break

    s, _ = execute(scen, spec['sched'])
    if s.verdict in ('deadlock', 'livelock', 'horizon'):
        o.bad('hang', f'{s.verdict}: {s.blocked_report}')
    elif s.verdict:
        o.inconclusive = s.verdict
    for n, e in s.thread_errors:
        o.bad('error', f'thread died: {e}')
    o.key = repr([spec[k] for k in sorted(spec) if k != 'sched']) + str(s.digest)
    o.nontrivial = len(spec['sigs']) > 1
    o.trace = [f'inv {a!r} {k!r}' for a, k, _ in inv]
    return o
