"""gather_excs / raise_first_exc."""
from vf import sim, load
from vf.runner import Out
from vf.harness import execute, odd, odd_value, OddExc
import asyncio as aio

ID = 'C20'
LEVEL = 'exploration'
RULE = ('a case = 0..5 awaitables (coroutine, task, future, custom awaitable, also unhashable or equal ones), each '
        'returning/raising a member of an exception hierarchy after a delay from a '
        'grid, a filter, the container they are given in and the function used; '
        'non-trivial = at least two awaitables, one of them failing')
CASES = {'quick': 24000, 'thorough': 150000}
NEED = {'yielded': 1000, 'completed': 5000, 'raised': 300, 'equal': 500, 'unhashable': 500}
ASSUMPTIONS = ['an awaitable that is cancelled counts as raising a CancelledError '
               '(compared by type, asyncio makes a new instance)']


class Base(Exception):
    pass


class Sub(Base):
    pass


class SubSub(Sub):
    pass


class Other(Exception):
    pass


class BaseOnly(BaseException):
    pass


class Mixed(Base, ValueError):
    pass


class FalsyExc(Base):
    def __bool__(self):
        return False

    def __eq__(self, o):
        return isinstance(o, BaseException)

    __hash__ = object.__hash__


CLS = {'Base': Base, 'Sub': Sub, 'SubSub': SubSub, 'Other': Other,
       'BaseOnly': BaseOnly, 'Mixed': Mixed, 'FalsyExc': FalsyExc,
       'Cancelled': aio.CancelledError,
       'SystemExit': SystemExit, 'Interrupt': KeyboardInterrupt, 'GenExit': GeneratorExit,
       'Odd': OddExc, 'Timeout': TimeoutError, 'ValueError': ValueError,
       'Exception': Exception, 'BaseException': BaseException}
RAISE = ['Base', 'Sub', 'SubSub', 'Other', 'BaseOnly', 'Mixed', 'FalsyExc', 'Cancelled',
         'Timeout', 'Odd']
# these end the loop itself when raised by a task
EXIT = ['SystemExit', 'Interrupt', 'GenExit']
ONLY = [None, None, 'Base', 'Base', 'Sub', 'Other', 'BaseOnly', 'Exception',
        'BaseException', 'ValueError', 'SubSub', 'Cancelled', 'SystemExit', 'Odd']


def gen(rng, i, tier):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5])
    grid = rng.choice([[0], [0, 0.1], [0, 0.1, 0.2, 0.3, 0.4], [0.1, 0.2, 5.0, 100.0]])
    aws = []
    odd_kind = rng.choice(['custom', 'custom', 'equal', 'unhashable'])
    for _ in range(n):
        r = rng.random()
        how = 'ret' if r < 0.25 else 'retexc' if r < 0.37 else 'raise'
        aws.append({'how': how, 'exc': rng.choice(RAISE), 'd': rng.choice(grid),
                    'kind': rng.choice(['coro', 'coro', 'task', 'future', 'custom',
                                        'done', 'gentask', odd_kind])})
    ex = {}
    if n > 1 and rng.random() < .12:
        ex['dup'] = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))]
    if n > 1 and rng.random() < .12:
        ex['share'] = True                  # several raise the very same exception
    if n > 1 and rng.random() < .15:        # awaitables needing one another's progress
        order = list(range(n))
        rng.shuffle(order)
        ex['needs'] = {order[k]: order[k + 1] for k in range(n - 1) if rng.random() < .7}
    if rng.random() < .01:
        m = rng.choice([50, 150, 400, 1100])
        aws = [dict(rng.choice(aws)) if aws else {'how': 'ret', 'exc': 'Base', 'd': 0,
                                                  'kind': 'coro'} for _ in range(m)]
        for a in aws:
            a['d'] = rng.choice(grid)
        ex = {}
    if rng.random() < .1:
        for a in aws:
            if a['kind'] in ('future', 'done') and rng.random() < .5:
                a['exc'] = rng.choice(EXIT)
    elif rng.random() < .1:
        ex['inner'] = True                  # gathered from within a gathered awaitable
    return {'ex': ex, 'aws': aws, 'ov': rng.randrange(90), 'only': rng.choice(ONLY),
            'fn': rng.choice(['gather', 'gather', 'raise', 'raise', 'both_first']),
            'box': rng.choice(['list', 'list', 'tuple', 'gen', 'iter', 'dict'])}


COROS = ('coro', 'task', 'gentask', 'custom', 'equal', 'unhashable')


class Custom:
    def __init__(self, c):
        self.c = c

    def __await__(self):
        return self.c.__await__()


class Equal(Custom):
    """Equal to the others of its kind."""
    def __eq__(self, o):
        return isinstance(o, Equal)

    def __hash__(self):
        return 7


class Unhashable(Custom):
    def __eq__(self, o):
        return isinstance(o, Unhashable)

    __hash__ = None


OBJ = {'custom': Custom, 'equal': Equal, 'unhashable': Unhashable}


def run(spec):
    o = Out()
    events = []

    def scen():
        m = load.fresh('asyncio')

        async def main():
            loop = aio.get_running_loop()
            excs, aws = [], []
            ex = spec.get('ex', {})
            needs = {int(k): v for k, v in ex.get('needs', {}).items()}
            reached = [aio.Event() for _ in spec['aws']]
            for i, a in enumerate(spec['aws']):
                e = odd(f'e{i}') if a['exc'] == 'Odd' else CLS[a['exc']](f'e{i}')
                if ex.get('share'):
                    e = next((x for x in excs if type(x) is type(e)), e)
                excs.append(e)

                def finish(i=i, a=a, e=e):
                    events.append(('done', i, sim.now()))
                    if a['how'] == 'raise':
                        raise e
                    return e if a['how'] == 'retexc' else \
                        [None, 0, False, 'x', e.args, odd_value(spec.get('ov', 0) + i)][
                            (i + spec.get('ov', 0)) % 6]

                async def co(i=i, a=a, finish=finish):
                    events.append(('start', i, sim.now()))
                    try:
                        reached[i].set()
                        if i in needs and spec['aws'][needs[i]]['kind'] in COROS:
                            o.counts['dependent'] += 1
                            await reached[needs[i]].wait()
                        if a['d']:
                            await aio.sleep(a['d'])
                    except BaseException as x:
                        events.append(('disturbed', i, repr(x)))
                        raise
                    return finish()
                k = a['kind']
                if k == 'coro':
                    aws.append(co())
                elif k in ('task', 'gentask'):
                    aws.append(loop.create_task(co()))
                elif k in OBJ:
                    aws.append(OBJ[k](co()))
                    o.counts[k] += 1
                else:
                    f = loop.create_future()

                    def fire(f=f, finish=finish, i=i, a=a):
                        if f.cancelled():
                            events.append(('disturbed', i, 'future cancelled'))
                            return
                        try:
                            f.set_result(finish())
                        except aio.CancelledError:
                            f.cancel()
                        except BaseException as x:
                            f.set_exception(x)
                    if k == 'done':
                        fire()
                    else:
                        loop.call_later(a['d'], fire)
                    aws.append(f)
            if any(a['kind'] == 'gentask' for a in spec['aws']):
                await aio.sleep(0)
            only = CLS.get(spec['only'], BaseException)
            idx = list(range(len(aws))) + ex.get('dup', [])
            aws += [aws[i] for i in ex.get('dup', [])]
            o.counts['duplicates'] += len(ex.get('dup', []))

            def failures(idx):
                return [excs[i] for i in idx if spec['aws'][i]['how'] == 'raise'
                        and isinstance(excs[i], only)]
            want = failures(idx)
            # whether an awaitable given twice is reported twice is not specified
            once = failures(range(len(spec['aws'])))
            if spec['box'] == 'dict':
                want = once
            box = {'list': list, 'tuple': tuple, 'gen': lambda x: (y for y in x),
                   'iter': iter, 'dict': lambda x: {id(y): y for y in x}.values()}[spec['box']](aws)
            args = (box,) if spec['only'] is None else (box, only)

            def check_all(when):
                ended = {e[1] for e in events if e[0] == 'done'}
                miss = set(range(len(spec['aws']))) - ended
                if miss:
                    o.bad('not-all-complete', f'{when} while awaitables {sorted(miss)} '
                          f'had not completed; events {events[:20]}')

            def same(a, b):
                return a is b or (isinstance(b, aio.CancelledError) and
                                  isinstance(a, aio.CancelledError))

            if spec['fn'] == 'raise':
                try:
                    r = await m.raise_first_exc(*args)
                except BaseException as e:
                    if isinstance(e, sim.SimAbort):
                        raise
                    check_all('raise_first_exc raised')
                    o.counts['raised'] += 1
                    if not want or not same(e, want[0]):
                        o.bad('wrong-first', f'raised {e!r}, expected '
                              f'{want[0] if want else None!r}')
                else:
                    check_all('raise_first_exc returned')
                    if want:
                        o.bad('not-raised', f'returned {r!r}, expected {want[0]!r}')
                    elif r is not None:
                        o.bad('not-none', f'returned {r!r}')
                return
            got = []
            ag = m.gather_excs(*args)
            try:
                async for e in ag:
                    check_all('gather_excs yielded')
                    got.append(e)
                    o.counts['yielded'] += 1
                    if spec['fn'] == 'both_first':
                        break
                    if len(got) % 2:
                        await aio.sleep(0.05)
            except BaseException as e:
                if isinstance(e, sim.SimAbort):
                    raise
                o.bad('gather-raised', f'gather_excs raised {e!r}')
            if spec['fn'] == 'both_first':
                await ag.aclose()
                w = want[:1]
            else:
                check_all('gather_excs ended')
                w = want
            if not any(len(got) == len(w) and all(map(same, got, w)) for w in (w, once[:len(w)])):
                o.bad('wrong-excs', f'yielded {got!r}, expected {w!r}')

        loop = aio.new_event_loop()
        try:
            if spec.get('ex', {}).get('inner'):
                async def outer():
                    m2 = load.fresh('asyncio')
                    async for e in m2.gather_excs([aio.sleep(.01), main()]):
                        raise e
                loop.run_until_complete(outer())
            else:
                loop.run_until_complete(main())
        finally:
            loop.close()

    s, _ = execute(scen)
    if s.verdict:
        o.bad('hang', f'{s.verdict}: {s.blocked_report}; events {events[:20]}')
    for e in events:
        if e[0] == 'disturbed':
            o.bad('disturbed', f'awaitable {e[1]} was disturbed: {e[2]}')
    o.counts['completed'] += sum(e[0] == 'done' for e in events)
    o.key = repr(spec)
    o.nontrivial = len(spec['aws']) > 1 and any(a['how'] == 'raise' for a in spec['aws'])
    o.trace = [repr(e) for e in events]
    return o
