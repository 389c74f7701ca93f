"""parse_to_dict against an independent reference, with evaluation tripwires."""
import sys
import ast
import enum
import builtins
from collections import OrderedDict, UserDict
from types import MappingProxyType
from vf import sim, load
from vf.runner import Out

ID = 'C19'
LEVEL = 'exploration'
RULE = ('a case = 0..4 (key, value) fragments from a grammar of literals, '
        'non-literals, expressions that trip a recorder if evaluated, mutated '
        'texts, str subclasses, very long strings and non-strings (rarely up to 1100 '
        'items), one input shape, a separator of length 1..3, parse_keys, and a default '
        'or custom (raising) parser; possibly parsed again with other options after the '
        'caller modified the result; non-trivial = '
        'at least one item')
CASES = {'quick': 80000, 'thorough': 500000}
NEED = {'returned': 1000, 'valueerror': 100, 'trip_fragments': 500,
        'shape_equivalence': 500,
        'again': 2000, 'odd_strings': 500}
ASSUMPTIONS = ['"the Python literal it denotes" is ast.literal_eval of the '
               'installed Python, called on the text as given',
               'items whose parsed key is unhashable are not judged on the result']

_lit = ast.literal_eval
LIT = ['1', '-1', '+2', '0', '007', '1_000', '1.5', '-0.0', '1e3', '1e999', '2j',
       '1+2j', '-1-2j', "'a'", '"b"', "''", "'a=b'", '"a:b"', "b'x'", 'r"\\n"',
       "'''x'''", "'a' 'b'", '()', '(1,)', '(1, "x")', '1,2', '[]', '[1, [2]]',
       '{}', "{'a': 1}", '{1, 2}', 'None', 'True', 'False', '...', 'Ellipsis',
       ' 1', '1 ', '\t2', '\n3', '(1)', '((2))', '0x10', '0b11', '0o7', '"\\x41"',
       "'é'", '1 #c', '-5.', '.5', "u'x'", '[None, True]', '(1, 2)', "{'k': (1, [2])}"]
NON = ['', ' ', 'a', 'bare', 'a b', 'none', 'true', 'nan', 'inf', '01', '1 2', '1.2.3',
       "'unclosed", '(', '[1', '{', '1 +', 'set()', 'abc(1)', 'a.b', 'a[0]',
       '1+1', '2**3', '1 if 1 else 2', 'not 1', '1 < 2', '1 and 2', '"a" + "b"',
       '"%s" % 1', '[1]*2', '[x for x in (1,2)]', 'lambda: 1', 'f"{1}"', 'f"x"',
       '-"a"', '--1', '~1', '1 .real', '"a".upper()', '*a', 'x=1', 'x:=1', '(y:=1)',
       'import os', 'print(1)', 'pass', 'yield', '\x00', '1\x00', '\\', '#', ';',
       '1;2', 'a=b=c', '=', '==', ':', '::', '=a', 'a=', 'a:b:c', 'é', '１', '∞',
       '{1: 2, **{}}', '[*()]', '1,,2', "{'a'}|{'b'}", '9' * 5000, '(' * 300,
       '[' * 150 + ']' * 150, '{[]: 1}', '{[]}', '1if 1else 2', '{**{}}', '1.0.', '0_', "b'é'"]
TRIP = ['TRIP', 'TRIP()', 'TRIP.x', 'TRIP[0]', '-TRIP', 'TRIP + 1', '1 + TRIP',
        '[TRIP()]', '(TRIP(),)', '{TRIP: 1}', '{"a": TRIP()}', '{TRIP()}',
        '1 if TRIP else 2', 'TRIP or 1', 'not TRIP', 'f"{TRIP}"', 'f"{TRIP()}"',
        '"%s" % TRIP', '[TRIP for _ in [1]]', '[0 for TRIP.x in [1]]',
        '(lambda: TRIP())()', 'TRIP < 1', '1 < TRIP', '*TRIP', 'TRIP if 1 else 0',
        '(TRIP)', ' TRIP()', 'TRIP()#', '"a".join(TRIP)', 'print(TRIP())',
        '__import__("vf_tripmod")', 'eval("TRIP()")', 'exec("TRIP()")',
        'set([TRIP()])', 'dict(a=TRIP())', 'TRIP@1', '{**TRIP}', 'TRIP.__class__',
        'set(TRIP)', 'tuple(TRIP)', 'list(TRIP())', 'frozenset(TRIP)',
        '(TRIP:=1)', 'str(TRIP)', 'int(TRIP)', '~TRIP', 'TRIP == 1', 'TRIP in [1]',
        '1 in TRIP', 'await TRIP', 'TRIP ** 2', 'open(TRIP)', 'complex(TRIP)',
        'bytes(TRIP)', 'globals()', 'exit()', '().__class__', '"".format(TRIP)']
SEPS = ['=', ':', '==', '=>', ', ', ' ', '::', '-', "'", '|', 'a', '=:', '.', '\n',
        '*', '$', '^', '?', '[', '(', '\\', '+', '.*', '-->', '\t', 'é', 'ab', '==='] 
LONG = ["'" + 'x' * 20000 + "'", '[' + '1, ' * 3000 + ']', 'y' * 30000, '7' * 3000,
        '{' + ', '.join(f'{k}: "{k}"' for k in range(700)) + '}', ' ' * 5000 + '1',
        '1' + ' ' * 5000, '(' * 60 + '1' + ')' * 60, '"' + "=:" * 4000 + '"']


class Sub(str):
    """A string all the same."""
    __slots__ = ()


class Str(str, enum.Enum):
    ONE = '1'
    A = 'a'
    LIST = '[1]'
    TRIPS = 'TRIP()'
    EQ = 'a=b'


class Trip:
    """Records anything done to it."""
    log = []

    def __getattribute__(self, n):
        Trip.log.append('get ' + n)
        raise RuntimeError('tripped')

    def _t(name):
        def f(self, *a, **k):
            Trip.log.append(name)
            raise RuntimeError('tripped')
        return f
    for _n in ('call getitem add radd sub mul rmul neg invert bool iter lt gt le ge eq ne '
               'contains str repr format hash len matmul pow mod rmod int index float '
               'complex bytes await enter exit setattr delattr and or rand ror').split():
        locals()[f'__{_n}__'] = _t(_n)
    del _n, _t


class ObjRaises:
    def __str__(self):
        raise RuntimeError('stringified')
    __repr__ = object.__repr__


_obj = ObjRaises()
_node = ast.Constant(value=5)
NONSTR = {'int': 7, 'none': None, 'list': [1], 'bytes': b'1', 'obj': _obj,
          'node': _node, 'tuple': ('1',), 'float': 1.5, 'bytearray': bytearray(b'1'),
          'dict': {'a': '1'}, 'true': True}
NONSTR_KEYS = ['int', 'none', 'bytes', 'obj', 'node', 'tuple', 'float', 'true']


def frag(rng, key):
    r = rng.random()
    if r < 0.35:
        return rng.choice(LIT)
    if r < 0.60:
        return rng.choice(NON)
    if r < 0.78:
        return rng.choice(TRIP)
    if r < 0.86:
        return {'v': rng.choice(NONSTR_KEYS if key else list(NONSTR))}
    a = rng.choice(LIT + NON + TRIP + SEPS)[:40]
    b = rng.choice(LIT + NON + TRIP + SEPS)[:40]
    k = rng.random()
    if k < 0.4:
        return a + rng.choice(SEPS + ['', ',', '+']) + b
    if k < 0.6 and a:
        p = rng.randrange(len(a))
        return a[:p] + a[p + 1:]
    if k < 0.8:
        p = rng.randrange(len(a) + 1)
        return a[:p] + rng.choice('=:,()[]{}\'"+-* .01aTN#\\') + a[p:]
    return '(' + a + ', ' + b + ')' if k < 0.9 else '[' + a + ']'


def gen(rng, i, tier):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if rng.random() < .006:
        n = rng.choice([70, 300, 1100])
    sep = rng.choice(SEPS[:4] + SEPS)
    items = [[frag(rng, True), frag(rng, False)] for _ in range(n)]
    if n and rng.random() < .03:
        items[rng.randrange(n)][rng.choice([0, 1, 1])] = {'l': rng.randrange(len(LONG))}
    if n and rng.random() < .1:
        for _ in range(rng.choice([1, 2])):
            it = items[rng.randrange(n)]
            j = rng.randrange(2)
            it[j] = {'e': rng.choice(list(Str.__members__))} if rng.random() < .3 else \
                {'s': it[j]} if isinstance(it[j], str) else it[j]
    if n > 1 and rng.random() < 0.2:
        items[-1][0] = items[0][0]
    shape = rng.choice(['dict', 'odict', 'userdict', 'proxy', 'pairs', 'pairs_iter',
                        'pairs_tuple', 'strings', 'strings_iter', 'strings_set',
                        'mixed', 'nosep', 'items_view', 'lists'])
    return {'items': items, 'sep': sep, 'shape': shape,
            'nosep': rng.choice(['', 'a', '1', "'x'", 'TRIP()', 'ab', '=', ':', '-']),
            'at': rng.randrange(5),
            'keys': rng.choice([None, True, False]),
            'kwsep': sep != '=' or rng.random() < 0.5,
            'parse': rng.choice([None, None, None, 'literal', 'int', 'raise_value',
                                 'raise_key', 'raise_exc', 'raise_mem', 'raise_syntax',
                                 'raise_type', 'upper', 'raise_odd', 'raise_attr',
                                 'raise_stop', 'raise_rec', 'none']),
            'again': [rng.choice([None, 'same', 'keys', 'int', 'upper', 'literal'])
                      for _ in range(2)] if rng.random() < .35 else [],
            'subitems': rng.random() < .1}


class Odd(Exception):
    pass


def parser(kind, log):
    def f(x):
        log.append(x)
        if kind == 'int':
            return int(x)
        if kind == 'upper':
            return x.upper()
        if kind == 'none':
            return None
        if kind == 'raise_odd' and len(x) % 2:
            return ('ok', x)
        raise {'raise_value': ValueError, 'raise_key': KeyError, 'raise_exc': Odd,
               'raise_mem': MemoryError, 'raise_syntax': SyntaxError,
               'raise_type': TypeError, 'raise_odd': Odd, 'raise_stop': StopIteration,
               'raise_attr': AttributeError, 'raise_rec': RecursionError}[kind]('no')
    return f


def ref_parse(kind, x):
    """Independent reading of 'the literal it denotes, else unchanged'."""
    if not isinstance(x, str):
        return x
    if kind in (None, 'literal'):
        try:
            return _lit(x)
        except Exception:
            return x
    try:
        return parser(kind, [])(x)
    except Exception:
        return x


def same(a, b, strs=False):
    if a is b:
        return True
    if strs and isinstance(a, str) and isinstance(b, str):
        return str.__eq__(a, b)         # joining and splitting loses the subclass
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            same(x, y, strs) and same(a[x], b[y], strs) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, strs) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b
    return repr(a) == repr(b)


_events = []
_armed = False


def _audit(ev, args):
    if _armed and ev in ('exec', 'import', 'os.system', 'subprocess.Popen', 'open'):
        if ev == 'import' and args[0] != 'vf_tripmod':
            return
        _events.append((ev, repr(args)[:80]))


sys.addaudithook(_audit)


def hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def spoil(d):
    """The result belongs to the caller: change it and all that was parsed."""
    for v in list((d or {}).values()):
        if any(v is x for x in NONSTR.values()):
            continue
        if isinstance(v, list):
            v.append('spoiled')
        elif isinstance(v, dict):
            v['spoiled'] = 1
        elif isinstance(v, set):
            v.add('spoiled')
    (d or {}).clear()


def run(spec):
    global _armed
    o = Out()
    m = load.fresh('parsing')
    sep = spec['sep']
    def val(f):
        if not isinstance(f, dict):
            return f
        if 'v' in f:
            return NONSTR[f['v']]
        o.counts['odd_strings'] += 1
        return Sub(f['s']) if 's' in f else LONG[f['l']] if 'l' in f else Str[f['e']]
    items = [(val(k), val(v)) for k, v in spec['items']]
    shape = spec['shape']
    o.counts['trip_fragments'] += sum('TRIP' in str(f) for it in spec['items']
                                      for f in it)
    if shape in ('dict', 'odict', 'userdict', 'proxy', 'items_view'):
        d = {}
        for k, v in items:
            d[k] = v
        items = list(d.items())
    strs = None
    joinable = all(isinstance(k, str) and isinstance(v, str)
                   and str.__add__(str.__add__(k, sep), v).find(sep) == len(k) for k, v in items)
    expect_ve = False
    if shape.startswith('strings') or shape in ('mixed', 'nosep'):
        strs = []
        pairs = []
        for j, (k, v) in enumerate(items):
            if isinstance(k, str) and isinstance(v, str) and not \
                    (shape == 'mixed' and j % 2):
                s = str.__add__(str.__add__(k, sep), v)
                strs.append(Sub(s) if spec.get('subitems') else s)
                p = s.find(sep)
                pairs.append((s[:p], s[p + len(sep):]))
            else:
                strs.append((k, v))
                pairs.append((k, v))
        if shape == 'nosep':
            bad = spec['nosep']
            if sep not in bad:
                expect_ve = True
                strs.insert(min(spec['at'], len(strs)), bad)
            pairs_for = pairs
        if shape == 'strings_set':
            strs = list(dict.fromkeys(strs)) if all(map(hashable, strs)) else strs
            pairs = list(dict.fromkeys(pairs)) if all(map(hashable, strs)) else pairs
        items = pairs
    mk = {'dict': lambda: dict(items), 'odict': lambda: OrderedDict(items),
          'userdict': lambda: UserDict(dict(items)),
          'proxy': lambda: MappingProxyType(dict(items)),
          'items_view': lambda: dict(items).items(),
          'pairs': lambda: list(items), 'pairs_iter': lambda: iter(list(items)),
          'pairs_tuple': lambda: tuple(items),
          'lists': lambda: [list(x) for x in items],
          'strings': lambda: list(strs), 'strings_iter': lambda: (s for s in strs),
          'strings_set': lambda: dict.fromkeys(strs).keys()
          if all(map(hashable, strs)) else strs,
          'mixed': lambda: list(strs), 'nosep': lambda: list(strs)}
    kw = {}
    if spec['kwsep']:
        kw['sep'] = sep
    elif sep != '=':
        kw['sep'] = sep
    if spec['keys'] is not None:
        kw['parse_keys'] = spec['keys']
    pk = spec['keys'] is not False
    plog = []
    if spec['parse'] == 'literal':
        kw['parse'] = ast.literal_eval
    elif spec['parse']:
        kw['parse'] = parser(spec['parse'], plog)
    kind = spec['parse']

    def ref(its):
        return [(ref_parse(kind, k) if pk else k, ref_parse(kind, v))
                for k, v in its]

    want_pairs = ref(items)
    judged = all(hashable(k) for k, _ in want_pairs)
    want = dict(want_pairs) if judged else None

    def call(arg):
        global _armed
        Trip.log.clear()
        _events.clear()
        builtins.TRIP = m.TRIP = trip
        _armed = True
        try:
            return m.parse_to_dict(arg, **kw), None
        except Exception as e:
            return None, e
        finally:
            _armed = False
            del builtins.TRIP

    got, exc = call(mk[shape]())
    if Trip.log or (_events and kind in (None, 'literal')):
        o.bad('evaluated', f'parsing {items!r:.300} evaluated code: '
              f'{Trip.log[:5]} {_events[:3]}')
    if expect_ve:
        if not isinstance(exc, ValueError):
            if judged or exc is None:
                o.bad('no-valueerror', f'{strs!r:.300} sep={sep!r}: got {got!r} / {exc!r}')
        o.counts['valueerror'] += 1
    elif judged:
        if exc is not None:
            o.bad('raised', f'{shape} {items!r:.300} {kw!r:.100}: {exc!r}')
        elif type(got) is not dict or not same(got, want):
            o.bad('wrong', f'{shape} {items!r:.300} {kw!r:.100}: got {got!r:.300}, '
                  f'expected {want!r:.300}')
        else:
            o.counts['returned'] += 1
    if not expect_ve and judged and joinable and not o.violations and items:
        # the other shapes of the same pairs
        for other in ([str.__add__(str.__add__(k, sep), v) for k, v in items], list(items),
                      dict(items) if len(dict(items)) == len(items) else None):
            if other is None:
                continue
            g2, e2 = call(other)
            o.counts['shape_equivalence'] += 1
            if e2 is not None or not same(g2, want, True):
                o.bad('shapes-differ', f'{other!r:.300} {kw!r:.100}: {g2!r:.200} {e2!r} '
                      f'but {shape} gives {got!r:.200}')
    # later calls of the same function, after the caller changed what it was given
    if spec.get('again') and not expect_ve and not o.violations:
        for how in spec['again']:
            spoil(got)
            kind = None if how is None or how == 'same' else how
            kw.pop('parse', None)
            if how == 'same':
                kind = spec['parse']
            if how == 'keys':
                kind, pk = None, not pk
                kw['parse_keys'] = pk
            if kind:
                kw['parse'] = ast.literal_eval if kind == 'literal' else parser(kind, [])
            w2 = ref(items)
            if not all(hashable(k) for k, _ in w2):
                continue
            got, e2 = call(mk[shape]())
            o.counts['again'] += 1
            if Trip.log or (_events and kind in (None, 'literal')):
                o.bad('evaluated', f'parsing {items!r:.300} again evaluated code: '
                      f'{Trip.log[:5]} {_events[:3]}')
            if e2 is not None or not same(got, dict(w2)):
                o.bad('wrong-again', f'{items!r:.200} parsed again with {kw!r:.100}: '
                      f'{got!r:.200} {e2!r}, expected {dict(w2)!r:.200}')
                break
    o.key = repr((items, shape, sep, spec['keys'], kind, strs))
    o.nontrivial = bool(spec['items'])
    o.trace = [f'{shape} {items!r:.200} sep={sep!r} -> {got!r:.200} {exc!r}']
    return o


trip = object.__new__(Trip)
