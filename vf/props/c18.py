"""split / exhaust: partition, order, one evaluation per element, laziness."""
import collections
import functools
import gc
from vf import sim, load
from vf.runner import Out
import itertools

ID = 'C18'
LEVEL = 'exploration'
RULE = ('a case = source (kind, 0..7, up to 2500 or unboundedly many elements) x condition (kind, '
        'truth pattern, length) x consumption order of the two results (one of them possibly thrown away), possibly condition '
        'values which change their truth after their element was handed out; random '
        'with a small exhaustive core (all truth patterns and orders for <=3 '
        'elements); non-trivial = at least one element and both outputs asked')
CASES = {'quick': 40000, 'thorough': 400000}
NEED = {'next_calls': 1000, 'predicate_calls': 1000, 'source_pulls': 1000,
        'condition_pulls': 5000, 'hostile_elements': 5000,
        'mutable_conditions': 3000, 'dropped': 1000}
SLACK = 2
ASSUMPTIONS = ['laziness is judged as: to hand out an element at source '
               f'position p at most p+1+{SLACK} elements are pulled']

SRC = ['list', 'tuple', 'range', 'iter', 'gen', 'iterable', 'once', 'falsyonce', 'listsub',
       'tuplesub', 'deque', 'dict', 'getitem', 'mapobj', 'inf']
CONDS = ['pure', 'stateful', 'truthyfn', 'callobj', 'list', 'iter', 'gen',
         'tuple', 'cycle', 'iterable', 'oncec', 'infiterable', 'falsyc', 'listsubc', 'same',
         'builtin', 'class', 'method', 'partial']
FINITE = ('list', 'iter', 'gen', 'tuple', 'iterable', 'oncec', 'falsyc', 'listsubc')
CALLS = ('pure', 'stateful', 'truthyfn', 'callobj', 'builtin', 'class', 'method', 'partial')
TRUE = [True, 1, 'x', [0], 2.5]
FALSE = [False, 0, '', [], None]

_core = None


def core():
    global _core
    if _core is None:
        _core = []
        for n in range(4):
            for bits in itertools.product([0, 1], repeat=n):
                for src in ('list', 'once'):
                    for cond in ('stateful', 'list', 'iter'):
                        for o in itertools.product('TF', repeat=min(n + 1, 3)):
                            for tail in ('TF', 'FT'):
                                _core.append(dict(
                                    op='split', src=src, n=n, cond=cond,
                                    bits=list(bits), vals=[0] * 8,
                                    order=''.join(o), tail=tail))
    return _core


def gen(rng, i, tier):
    c = core()
    if i < len(c):
        return c[i]
    if rng.random() < 0.05:
        return {'op': 'exhaust', 'src': rng.choice(SRC[:-1]),
                'n': rng.randrange(0, 8), 'vals': [rng.randrange(4) for _ in range(8)],
                'fail': rng.choice([None, None, None, 0, 2])}
    n = rng.randrange(0, 8)
    wide = rng.random() < .012
    if wide:
        n = rng.choice([40, 130, 300, 1100, 2500])
    src = rng.choice(SRC)
    cond = rng.choice(CONDS)
    if wide and src == 'inf':
        src = 'once'
    if src == 'inf' and cond in FINITE:
        cond = rng.choice(['cycle', 'pure', 'stateful', 'truthyfn', 'infiterable'])
    if src == 'range' and cond in ('same', 'builtin') or src == 'inf' and cond == 'same':
        cond = 'list' if src == 'range' else 'cycle'
    if cond == 'same' and src not in ('list', 'tuple', 'deque', 'iterable', 'listsub'):
        src = 'list'
    ln = n
    if cond in FINITE:
        ln = max(0, n + rng.choice([-2, -1, 0, 0, 0, 1, 2, 5]))
    bias = rng.choice([0.1, 0.5, 0.5, 0.9, 0.0, 1.0])
    if src == 'inf' or cond in ('cycle', 'infiterable'):
        ln = rng.randrange(2, 5)
    bits = [1 if rng.random() < bias else 0 for _ in range(ln)]
    if cond in CALLS and not bits:
        bits = [1]
    if src == 'inf':
        bits[0], bits[1] = 1, 0
    elif cond in ('cycle', 'infiterable') and not bits:
        bits = [1]
    order = ''.join(rng.choice('TF') for _ in range(rng.randrange(0, 2 * n + 4)))
    if wide and rng.random() < .7:      # long runs of one of them
        order = ''.join(rng.choice('TF') * rng.randrange(1, n) for _ in range(3))
    tail = rng.choice(['TF', 'FT', 'T', 'F', '', 'alt'])
    if src == 'inf':
        tail = ''
    return dict(op='split', src=src, n=n, cond=cond, bits=bits,
                vals=[rng.randrange(4) for _ in range(8)], order=order,
                tail=tail, tv=rng.randrange(5), fv=rng.randrange(5),
                el=rng.choice([0, 0, 0, 1, 2]), drop=rng.random() < .15,
                mut=rng.random() < .15)


class Tripped(Exception):
    pass


class Src:
    """A source that logs every element it hands out."""
    def __init__(self, items, log, reiter, cap):
        self.items, self.log, self.reiter, self.cap = items, log, reiter, cap
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        return self._gen()

    def _gen(self):
        for p, x in enumerate(self.items):
            self.log.append(p)
            if len(self.log) > self.cap:
                raise Tripped()
            yield x


class Once:
    def __init__(self, items, log, cap):
        self.it = iter(enumerate(items))
        self.log, self.cap = log, cap

    def __iter__(self):
        return self

    def __next__(self):
        p, x = next(self.it)
        self.log.append(p)
        if len(self.log) > self.cap:
            raise Tripped()
        return x


class FalsyOnce(Once):
    """An iterator that says it is empty."""
    def __len__(self):
        return 0


def logging_seq(base, items, log):
    class Sub(base):
        def __iter__(self):
            for p, x in enumerate(base.__iter__(self)):
                log.append(p)
                yield x
    return Sub(items)


class GetItem:
    """Iterable by the old protocol."""
    def __init__(self, items, log):
        self.items, self.log = items, log

    def __getitem__(self, p):
        x = self.items[p]
        self.log.append(p)
        return x


class CallObj:
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)


def make_source(kind, items, log, cap):
    """-> (object, pulls are logged)"""
    if kind == 'list':
        return list(items), False
    if kind == 'tuple':
        return tuple(items), False
    if kind == 'iter':
        return iter(list(items)), False
    if kind == 'iterable':
        return Src(items, log, True, cap), True
    if kind == 'gen':
        return Src(items, log, False, cap)._gen(), True
    if kind == 'falsyonce':
        return FalsyOnce(items, log, cap), True
    if kind in ('listsub', 'tuplesub'):
        return logging_seq(list if kind == 'listsub' else tuple, items, log), True
    if kind == 'deque':
        return collections.deque(items), False
    if kind == 'dict':
        return dict.fromkeys(items), False
    if kind == 'getitem':
        return GetItem(items, log), True
    if kind == 'mapobj':
        return map(lambda x: x, Once(items, log, cap)), True
    if kind in ('once', 'inf'):
        return Once(items, log, cap), True
    raise AssertionError(kind)


class El:
    """Distinct objects with a small value domain."""
    __slots__ = ('v', 'p')

    def __init__(self, v, p):
        self.v, self.p = v, p

    def __eq__(self, o):
        return isinstance(o, El) and o.v == self.v

    def __hash__(self):
        return self.v

    def __repr__(self):
        return f'<{self.p}:{self.v}>'


class ElEq(El):
    """Cannot be compared, hashed or asked for its truth value."""
    __slots__ = ()
    __hash__ = None

    def __eq__(self, o):
        raise RuntimeError('compared')

    def __bool__(self):
        raise RuntimeError('truth value taken')


class ElId(El):
    __slots__ = ()
    __eq__ = object.__eq__
    __hash__ = object.__hash__


class ElTruth(ElId):
    """Knows its condition, and who asked for it."""
    __slots__ = ('b', 'asked')

    def __bool__(self):
        self.asked.append(self)
        return self.b


class ElBool(El):
    """Falsy."""
    __slots__ = ()

    def __bool__(self):
        return False

    __hash__ = El.__hash__


def run(spec):
    o = Out()
    m = load.fresh('itertools')
    n = spec['n']
    cap = 10 ** 6
    if spec['op'] == 'exhaust':
        log = []
        if spec['src'] == 'range':
            src, logged = range(n), False
        else:
            src, logged = make_source(spec['src'], [El(v, p) for p, v in
                                      enumerate(spec['vals'][:n])], log, cap)
        if spec.get('fail') is not None:
            boom = KeyError('source')

            def failing(it):
                for k in range(spec['fail']):
                    yield next(it, None)
                raise boom
            try:
                m.exhaust(failing(iter(src)))
            except KeyError as e:
                if e is not boom:
                    o.bad('exhaust-error', f'raised {e!r}')
            else:
                o.bad('exhaust-error', 'exhaust returned although its argument could not '
                                       'be consumed')
            o.key = repr(spec)
            return o
        r = m.exhaust(src)
        o.counts['exhaust_calls'] += 1
        if r is not None:
            o.bad('exhaust-result', f'exhaust returned {r!r}')
        if logged and log != list(range(n)):
            o.bad('exhaust-pulls', f'exhaust pulled positions {log} of {n}')
        if spec['src'] == 'iter':
            left = list(src)
            if left:
                o.bad('exhaust-left', f'exhaust left {left}')
        o.key = repr(spec)
        o.nontrivial = n > 0
        return o

    bits = spec['bits']
    N = 64 if spec['src'] == 'inf' else n
    if spec['src'] == 'range':
        items = list(range(n))
    else:
        C = [El, ElEq, ElBool][spec.get('el', 0)]
        if spec['src'] == 'dict':
            C = ElId
        if spec['cond'] in ('same', 'builtin'):
            C = ElTruth
        items = [C(spec['vals'][p % 8], p) for p in range(N)]
        o.counts['hostile_elements'] += N if spec.get('el') else 0
    log = []
    if spec['src'] == 'range':
        src, logged = range(n), False
    else:
        src, logged = make_source(spec['src'], items, log, cap)
    t, f = TRUE[spec.get('tv', 0)], FALSE[spec.get('fv', 0)]
    # condition values which change once their element has been handed out
    mut = [] if spec.get('mut') and spec['cond'] not in (
        'pure', 'stateful', 'cycle', 'infiterable', 'same', 'builtin', 'class') else None

    def value(b):
        if mut is None:
            return t if b else f
        mut.append([0] if b else [])
        o.counts['mutable_conditions'] += 1
        return mut[-1]
    calls = []
    clog = None

    ck = spec['cond']
    iscall = ck in CALLS
    if ck == 'same' or ck == 'builtin':
        cond = exp = [bits[p % len(bits)] if bits else 0 for p in range(N)]
        for b, x in zip(exp, items):
            x.b, x.asked = bool(b), calls if ck == 'builtin' else []
        cond = src if ck == 'same' else bool
        if ck == 'same':
            logged = False
    elif iscall:
        cbits = [bits[p % len(bits)] if bits else 0 for p in range(N)]
        if ck == 'pure':
            # depends on the value only
            vb = [bits[v % len(bits)] if bits else 0 for v in range(8)]
            cbits = [vb[(x.v if isinstance(x, El) else x) % 8] for x in items]

            def cond(x):
                calls.append(x)
                return bool(vb[(x.v if isinstance(x, El) else x) % 8])
        else:
            def cond(x):
                k = len(calls)
                calls.append(x)
                b = cbits[k] if k < len(cbits) else 0
                return value(b) if ck != 'stateful' else bool(b)
            if ck == 'callobj':
                cond = CallObj(cond)
            elif ck == 'method':
                cond = CallObj(cond).__call__
            elif ck == 'partial':
                cond = functools.partial(lambda f, x: f(x), cond)
            elif ck == 'class':
                class cond:
                    def __init__(self, x, f=cond):
                        self.b = bool(f(x))

                    def __bool__(self):
                        return self.b
        exp = cbits
    else:
        vals = [value(b) for b in bits]
        if ck == 'list':
            cond = vals
        elif ck == 'tuple':
            cond = tuple(vals)
        elif ck == 'iter':
            cond = iter(vals)
        elif ck == 'gen':
            cond = (v for v in vals)
        elif ck == 'iterable':
            clog = []
            cond = Src(vals, clog, True, cap)
        elif ck == 'oncec':
            clog = []
            cond = Once(vals, clog, cap)
        elif ck == 'falsyc':
            clog = []
            cond = FalsyOnce(vals, clog, cap)
        elif ck == 'listsubc':
            clog = []
            cond = logging_seq(list, vals, clog)
        elif ck == 'infiterable':
            clog = []
            cond = Src(itertools.cycle(vals), clog, True, 5000)
        else:
            cond = itertools.cycle(vals)
        exp = bits if ck not in ('cycle', 'infiterable') else \
            [bits[p % len(bits)] for p in range(N)] if bits else []
    L = min(N, len(exp))
    want = {'T': [p for p in range(L) if exp[p]],
            'F': [p for p in range(L) if not exp[p]]}

    try:
        r = m.split(src, cond)
        a, b = r
    except Tripped:
        o.bad('eager', 'split() itself consumed an unbounded source')
        return o
    except Exception as e:
        o.bad('raised', f'split() raised {e!r}')
        return o
    if logged and len(log) > SLACK:
        o.bad('eager', f'split() itself pulled {len(log)} elements')
    if clog and len(clog) > SLACK:
        o.bad('eager', f'split() itself pulled {len(clog)} conditions')
    if len(calls) > SLACK:
        o.bad('eager', f'split() itself called the predicate {len(calls)} times')
    its = {'T': iter(a), 'F': iter(b)}
    if its['T'] is not a or its['F'] is not b:
        o.bad('not-iterators', 'split() did not return iterators')
    pos = {'T': 0, 'F': 0}
    done = {'T': False, 'F': False}
    far = 0

    def step(w):
        nonlocal far
        o.counts['next_calls'] += 1
        try:
            x = next(its[w])
        except StopIteration:
            if pos[w] < len(want[w]):
                o.bad('missing', f'{w} stopped after {pos[w]} elements, expected '
                      f'positions {want[w]}')
            done[w] = True
            far = max(far, N + SLACK)
            return False
        except Tripped:
            o.bad('eager', f'next({w}) ran through an unbounded source')
            return False
        except Exception as e:
            o.bad('raised', f'next({w}) raised {e!r}')
            return False
        if done[w]:
            o.bad('revived', f'{w} yielded {x!r} after it had stopped')
            return False
        if pos[w] >= len(want[w]):
            o.bad('extra', f'{w} yielded {x!r} beyond {want[w]}')
            return False
        p = want[w][pos[w]]
        if not (x is items[p] or (not isinstance(x, El) and x == items[p]
                                  and type(x) is type(items[p]))):
            o.bad('wrong', f'{w} element {pos[w]} is {x!r}, expected {items[p]!r}')
        pos[w] += 1
        if mut is not None and p < len(mut):
            mut[p][:] = [] if mut[p] else [0]
        far = max(far, p + 1)
        if logged and len(log) > far + SLACK:
            o.bad('lookahead', f'{len(log)} elements pulled to hand out position {p}')
        if clog and len(clog) > far + SLACK:
            o.bad('lookahead', f'{len(clog)} conditions pulled to hand out position {p}')
        if iscall and len(calls) > far + SLACK:
            o.bad('lookahead', f'{len(calls)} predicate calls to hand out position {p}')
        return True

    for w in spec['order']:
        if spec['src'] == 'inf' and pos[w] >= min(len(want['T']), len(want['F'])) - 1:
            continue
        step(w)
        if o.violations:
            break
    if not o.violations:
        tl = spec['tail']
        if spec.get('drop') and tl:
            # the other one is thrown away
            tl = tl[0] if tl != 'alt' else 'T'
            a = b = r = None
            its['F' if tl == 'T' else 'T'] = None
            gc.collect(0)
            o.counts['dropped'] += 1
        if tl == 'alt':
            live = {'T', 'F'}
            while live:
                for w in 'TF':
                    if w in live and not step(w):
                        live.discard(w)
        else:
            for w in tl:
                while step(w):
                    pass
        full = tl in ('TF', 'FT', 'alt')
        if full and iscall and len(calls) != N:
            o.bad('pred-count', f'{len(calls)} predicate calls for {N} elements')
    if iscall and (len(calls) > N or
                   any(c is not items[k] and (type(c) is not int or c != items[k])
                       for k, c in enumerate(calls[:N]))):
        o.bad('pred-order', f'predicate calls {calls!r} do not walk the source once')
    if clog:
        o.counts['condition_pulls'] += len(clog)
        if clog != list(range(len(clog))):
            o.bad('condition-twice', f'condition positions pulled: {clog}')
        if len(clog) > N + SLACK:
            o.bad('condition-overrun', f'{len(clog)} conditions pulled for {N} elements')
    if logged:
        if len(set(log)) != len(log):
            o.bad('source-twice', f'source positions pulled: {log}')
        o.counts['source_pulls'] += len(log)
    o.counts['predicate_calls'] += len(calls)
    o.key = repr((spec['src'], N, ck, bits, spec['order'], spec['tail'],
                  spec.get('tv'), spec.get('fv'), spec['vals'][:n]))
    both = spec['order'] + spec['tail']
    o.nontrivial = N > 0 and 'T' in both and 'F' in both or spec['tail'] == 'alt'
    o.trace = [f'source={items!r:.200} want={want} pulls={log[:20]} calls={len(calls)}']
    return o
