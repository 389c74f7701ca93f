"""FileLock against an executable Lock/RLock + file model."""
import ctypes
import errno
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
from vf import sim, load
from vf.runner import Out, gen_sched
from vf.harness import execute, stats

ID = 'C12'
LEVEL = 'exploration'
RULE = ('a case = an operation history over 2 threads x 2 FileLock objects on one path '
        '(all acquire modes, with/acquire_ctx enter and exit, release, forced release, '
        'an outside holder, a child forked while holding) with 0..2 injected OSErrors or '
        'interrupts (signal handler raising inside an acquire) and wall clock steps, every length-3 history of a '
        'core alphabet plus random ones up to length 14; or 2..3 threads running '
        'rounds concurrently under line-level schedules; non-trivial = at least one '
        'successful acquire and one release')
CASES = {'quick': 32000, 'thorough': 250000}
NEED = {'acquired': 5000, 'refused': 3000, 'released': 3000, 'faults_injected': 1000,
        'pending_blocked': 200, 'nested': 500, 'forced': 500, 'timed': 1000,
        'interrupts': 60, 'clock_steps': 150, 'released_by_other': 300, 'forks': 150, 'temporary': 300,
        'body_failed': 200, 'fd0_free': 200}
ASSUMPTIONS = [
    'a reentrant lock is only released by the acquiring thread (a plain one by any)',
    'an acquire during which OS errors were injected may return either truth value '
    'or raise OSError; whatever it reports must be the truth',
    'an injected close error closes the descriptor first, as Linux does']

libc = ctypes.PyDLL(None)       # keeps the GIL
THREADS = 2
TS, POLL = 0.2, 0.05
ACQ = ['nb', 'b', 't0', 'ts', 'neg', 'wenter', 'cnb', 'cts', 'cb', 'nbt', 'nbm']
ALPH = [(t, o, k) for t in range(2) for o in range(2)
        for k in ('nb', 'ts', 'wenter', 'rel', 'force')]
CORE = len(ALPH) ** 3
ERR = [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOLCK, errno.EINTR, errno.ENOSPC]


def gen(rng, i, tier):
    if i < (CORE * 2 if tier == 'thorough' else CORE):
        j, re = i % CORE, i // CORE
        ops = []
        for _ in range(3):
            ops.append(list(ALPH[j % len(ALPH)]))
            j //= len(ALPH)
        if tier != 'thorough':
            re = rng.randrange(2)
        return {'mode': 'seq', 're': [re, re], 'dt': [TS, TS], 'poll': POLL,
                'ops': ops, 'faults': [], 'sched': {'kind': 'none'}}
    if rng.random() < 0.3:
        n = rng.choice([2, 2, 3])
        re = [rng.random() < .5, rng.random() < .5]
        nobj = rng.choice([1, 1, 2])
        return {'mode': 'conc', 're': re, 'poll': rng.choice([POLL, 0.01]),
                'rounds': [[[rng.randrange(nobj), rng.choice(ACQ),
                             rng.choice([0, 0, 0.03, 0.3]),
                             rng.choice([1, 1, 1, 2, 3]),
                             rng.random() < .25, rng.choice([0, 0, 0.1])]
                            for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)],
                'faults': faults(rng, 20) if rng.random() < .4 else [],
                'steps': [[rng.choice([0.02, 0.1, 0.25]), rng.choice([-3600, -0.15, 3600])]]
                if rng.random() < .1 else [],
                'sched': gen_sched(rng, 250)}
    nops = rng.choice([2, 3, 4, 5, 6, 7, 7, 7, 10, 14])
    focus = rng.random() < 0.4
    ops = []
    for _ in range(nops):
        t = rng.randrange(2)
        o = 0 if focus or rng.random() < .5 else rng.randrange(2)
        r = rng.random()
        k = rng.choice(ACQ) if r < .5 else \
            rng.choice(['rel', 'rel', 'exit', 'exitx', 'force']) if r < .88 else \
            rng.choice(['xl', 'xu', 'tsr', 'tsr', 'tmp', 'dt'])
        ops.append([t, o, k])
    if rng.random() < .06:
        # a child forked (not exec'd) while the lock is held stays around
        a = rng.randrange(2)
        at = rng.randrange(nops)
        ops[at:at] = [[0, a, rng.choice(['b', 'nb', 'wenter'])], [0, a, 'fork']]
        return {'mode': 'seq', 're': [rng.randrange(2), rng.randrange(2)], 'dt': [-1, -1],
                'poll': POLL, 'ops': ops, 'faults': [], 'steps': [],
                'sched': {'kind': 'none'}}
    return {'mode': 'seq', 're': [rng.randrange(2), rng.randrange(2)],
            'dt': [rng.choice([-1, -1, TS, 0]), rng.choice([-1, -1, TS, 0])],
            'poll': rng.choice([POLL, POLL, 0.01]), 'ops': ops,
            'faults': faults(rng, nops) if rng.random() < .5 else [],
            'steps': [[rng.randrange(nops), rng.choice([-3600, -0.15, 0.15, 3600])]]
            if rng.random() < .15 else [], 'fd0': rng.random() < .05,
            'sched': {'kind': 'none'} if rng.random() < .5 else gen_sched(rng, 80)}


def faults(rng, nops):
    return [[rng.randrange(nops), rng.choice(['open', 'lock', 'lock', 'unlock', 'unlock',
                                              'close', 'close']),
             rng.choice([0, 0, 0, 1, 2, 'all']), rng.choice(ERR)]
            if rng.random() < .7 else
            [rng.randrange(nops), rng.choice(['open', 'lock', 'lock', 'sleep', 'wait']),
             rng.choice([0, 0, 0, 1, 2]), 'int']
            for _ in range(rng.choice([1, 1, 2]))]


class Interrupt(BaseException):
    """Stands for what a signal handler raises inside an acquire."""


BODY = [LookupError, OSError, KeyboardInterrupt, TimeoutError, Interrupt, GeneratorExit]


def injected(err):
    return Interrupt('injected') if err == 'int' else OSError(err, 'injected')


class Worker:
    """Executes one operation at a time in its own managed thread."""
    def __init__(self, name):
        self.cv = threading.Condition()
        self.job = None
        self.res = None
        self.busy = False
        self.quit = False
        self.th = threading.Thread(target=self.main, name=name)
        self.th.start()

    def main(self):
        while True:
            with self.cv:
                while self.job is None and not self.quit:
                    self.cv.wait()
                if self.quit:
                    return
                job, self.job = self.job, None
            t = sim.now()
            try:
                r = ('ok', job())
            except sim.SimAbort:
                raise
            except BaseException as e:      # noqa
                r = ('exc', e)
            self.res = r + (sim.now() - t,)
            self.busy = False

    def send(self, job):
        self.busy = True
        self.res = None
        with self.cv:
            self.job = job
            self.cv.notify()

    def stop(self):
        with self.cv:
            self.quit = True
            self.cv.notify()


def fork():
    """A bare fork: the child has copies of all descriptors and only waits."""
    sys.stdout.flush()
    pid = libc.fork()
    if not pid:
        libc.signal(signal.SIGALRM, None)
        libc.alarm(60)
        while True:
            libc.pause()
    return pid


def nfds():
    return len(os.listdir('/proc/self/fd'))


def run(spec):
    o = Out()
    d = tempfile.mkdtemp(prefix='vfc12')
    low = None
    if spec.get('fd0'):             # descriptor 0 is free to be the lock's
        low = os.dup(0)
        os.close(0)
        o.counts['fd0_free'] += 1
    try:
        (seq if spec['mode'] == 'seq' else conc)(spec, o, os.path.join(d, 'x.lock'))
    finally:
        if low is not None:
            os.dup2(low, 0)
            os.close(low)
        shutil.rmtree(d, ignore_errors=True)
    o.key += repr({k: spec[k] for k in spec if k != 'sched'})
    return o


def seq(spec, o, path):
    trace = o.trace
    state = {'op': -1, 'worker': None, 'hits': {}}
    inacq = set()               # threads inside an acquire
    children = []

    def fault(kind):
        for fi, (op, k, nth, err) in enumerate(spec['faults']):
            if op != state['op'] or k != kind or sim.current() is None or \
                    sim.current().name == 'main':
                continue
            if err == 'int' and sim.current().name not in inacq:
                continue
            n = state['hits'].get(fi, 0)
            state['hits'][fi] = n + 1
            if nth == 'all' or n == nth:
                o.counts['faults_injected'] += 1
                if err == 'int':
                    o.counts['interrupts'] += 1
                state['faulted'] = True
                return injected(err)
        return None

    def scen():
        m = load.fresh('filelock')
        sim._sim.faults = fault
        objs = [m.FileLock(path, timeout=spec['dt'][k], reentrant=bool(spec['re'][k]))
                for k in range(2)]
        dts = list(spec['dt'])
        ws = [Worker(f'w{k}') for k in range(THREADS)] + [Worker('w3')]
        base = nfds()
        holder = [None, None]       # per object: thread
        depth = [0, 0]
        owner = [None]              # object index / 'ext' / None
        stacks = {(t, k): [] for t in range(THREADS) for k in range(2)}
        pending = {}                # thread -> (object, op kind, ctx)
        ext = [None]
        poll = spec['poll']

        kept = []       # an abandoned context manager would release on its own

        def drop(stack):
            kept.extend(stack)
            stack.clear()

        def avail(k, t):
            if holder[k] is not None:
                return holder[k] == t and bool(spec['re'][k])
            return owner[0] is None

        def do_acquire(k, kind):
            me = sim.current().name
            inacq.add(me)
            try:
                return do_acquire_(k, kind)
            finally:
                inacq.discard(me)

        def do_acquire_(k, kind):
            """Runs in the worker; returns True/False/('ctx', cm)."""
            f = objs[k]
            if kind == 'nb':
                return f.acquire(blocking=False, poll_interval=poll)
            if kind == 'nbm':
                return f.acquire(False, -1, poll)
            if kind == 'b':
                return f.acquire(poll_interval=poll)
            if kind == 't0':
                return f.acquire(timeout=0, poll_interval=poll)
            if kind == 'ts':
                return f.acquire(timeout=TS, poll_interval=poll)
            if kind == 'nbt':       # a timeout wins over blocking=False
                return f.acquire(False, TS, poll)
            if kind == 'tsr':
                return f.acquire(timeout=1.0, poll_interval=poll)
            if kind == 'neg':
                return f.acquire(timeout=-1, poll_interval=poll)
            if kind == 'wenter':
                r = f.__enter__()
                if r is not f:
                    o.bad('enter-value', f'__enter__ returned {r!r}')
                return ('ctx', f)
            c = f.acquire_ctx(blocking=False, poll_interval=poll) if kind == 'cnb' else \
                f.acquire_ctx(timeout=TS, poll_interval=poll) if kind == 'cts' else \
                f.acquire_ctx(poll_interval=poll)
            c.__enter__()
            return ('ctx', c)

        def budget(k, kind):
            """Timeout per stage; None = blocking, 0 flagged for non-blocking."""
            if kind in ('nb', 'cnb', 'nbm'):
                return 'nb'
            if kind == 't0':
                return 0.0
            if kind in ('ts', 'cts', 'nbt'):
                return TS
            if kind == 'tsr':
                return 1.0
            if kind == 'neg':
                return None
            return None if dts[k] < 0 else dts[k]

        def got_it(t, k, ctx):
            holder[k] = t
            depth[k] += 1
            owner[0] = k
            o.counts['acquired'] += 1
            if depth[k] > 1:
                o.counts['nested'] += 1
            if ctx is not None:
                stacks[t, k].append(ctx)

        def settle_pending(where):
            for t, (k, kind) in list(pending.items()):
                w = ws[t]
                can = avail(k, t)
                if not w.busy:
                    del pending[t]
                    st, val, _ = w.res
                    ok = st == 'ok' and (val is True or isinstance(val, tuple))
                    if ok and not can:
                        o.bad('false-success', f'{where}: blocked {kind} of object {k} by '
                              f'thread {t} succeeded while the lock was held')
                        return
                    if ok:
                        got_it(t, k, val[1] if isinstance(val, tuple) else None)
                    elif not (st == 'exc' and isinstance(val, (OSError, Interrupt))
                              and state.get('faulted')):
                        o.bad('blocking-failed', f'{where}: blocking {kind} of object {k} '
                              f'by thread {t} ended with {val!r}')
                        return
                    else:
                        trace.append(f'pending {kind} ended with {val!r}')
                elif can:
                    o.bad('not-reacquirable', f'{where}: thread {t} still blocked in {kind} '
                          f'on object {k} although the lock is free')
                    return

        def check_state(where):
            if pending and state['faulted']:
                # injected errors may have kept the blocked one from trying
                state['op'] = -1
                time.sleep(60)
            settle_pending(where)
            if o.violations:
                return
            for k in range(2):
                if bool(objs[k].is_locked) != (holder[k] is not None):
                    o.bad('is-locked', f'{where}: object {k} is_locked={objs[k].is_locked}, '
                          f'held by {holder[k]}')
            if not pending:
                want = base + (owner[0] is not None)
                n = nfds()
                if n != want:
                    o.bad('fd-leak', f'{where}: {n - base} descriptors open, expected '
                          f'{want - base}')

        def run_op(idx, t, k, kind):
            w = ws[t]
            where = f'op {idx} (thread {t}, object {k}, {kind})'
            state['op'] = idx
            state['faulted'] = False
            if kind == 'xl':
                if owner[0] is None and not pending:
                    fd = sim._r_open(path, os.O_RDWR | os.O_CREAT)
                    sim._r_flock(fd, 6)
                    ext[0] = fd
                    owner[0] = 'ext'
                    state['base'] = None
                return
            if kind == 'fork':
                if owner[0] in (0, 1):
                    children.append(fork())
                    o.counts['forks'] += 1
                return
            if kind == 'xu':
                if ext[0] is not None:
                    sim._r_close(ext[0])
                    ext[0] = None
                    owner[0] = None
                    sim._sim.wake('flock')
                    time.sleep(60)
                    check_state(where)
                return
            if t in pending:
                return
            if kind == 'tmp':
                # a third object tries, releases and is garbage collected
                can = owner[0] is None

                def job():
                    g = m.FileLock(path, reentrant=bool(idx % 2))
                    r = g.acquire(timeout=0) if idx % 3 else g.acquire(blocking=False)
                    held = g.is_locked
                    g.release()
                    return r, held
                w.send(job)
                time.sleep(60)
                if w.busy:
                    o.bad('never-returns', f'{where} did not return')
                    return
                st, val, dt = w.res
                trace.append(f'{where} -> {val!r}')
                o.counts['temporary'] += 1
                if not state['faulted'] and (st != 'ok' or val != (can, can)):
                    o.bad('false-success' if not can else 'false-refusal',
                          f'{where}: (acquire, is_locked) = {val!r} of a fresh object, lock '
                          f'{"free" if can else "held"}')
                    return
                check_state(where)
                return
            if kind == 'dt':             # another default timeout from now on
                if not pending:
                    dts[k] = objs[k].timeout = [-1, 0, TS, 1.0][idx % 4]
                    o.counts['timeout_changed'] += 1
                return
            if kind in ACQ or kind == 'tsr':
                can = avail(k, t)
                bud = budget(k, kind)
                rel = None
                if bud is None and not can:
                    blk = 'ext' if owner[0] == 'ext' else \
                        holder[owner[0]] if owner[0] is not None else None
                    if blk == t or holder[k] == t:
                        return               # would wait for itself
                    if pending:
                        return
                if kind == 'tsr':
                    # the current holder lets go while we wait
                    if can or owner[0] is None or pending:
                        return
                    if owner[0] == 'ext':
                        rel = 'ext'
                    else:
                        rel = holder[owner[0]]
                        if rel == t:
                            return
                w.send(lambda: do_acquire(k, kind))
                for op, delta in spec.get('steps', ()):
                    if op == idx:
                        time.sleep(0.02)
                        sim._sim.wall += delta
                        o.counts['clock_steps'] += 1
                if rel is not None:
                    time.sleep(0.3)
                    if rel == 'ext':
                        sim._r_close(ext[0])
                        ext[0] = None
                        owner[0] = None
                        sim._sim.wake('flock')
                    else:
                        ow = owner[0]
                        state['op'] = -1
                        ws[rel].send(lambda: objs[ow].release(force=depth[ow] > 1))
                        time.sleep(0.01)
                        if depth[ow] > 1:
                            o.counts['forced'] += 1
                        holder[ow], depth[ow], owner[0] = None, 0, None
                        o.counts['released'] += 1
                        drop(stacks[rel, ow])
                        state['op'] = idx
                    can = True
                time.sleep(60)
                if w.busy:
                    if bud is None and state['faulted']:
                        # a persistent error keeps a blocking acquire trying
                        state['op'] = -1
                        time.sleep(60)
                if w.busy:
                    if bud is None and not can:
                        o.counts['pending_blocked'] += 1
                        pending[t] = (k, kind)
                        check_state(where)
                        return
                    o.bad('never-returns', f'{where} did not return '
                          f'(lock {"free" if can else "held"})')
                    return
                st, val, dt = w.res
                trace.append(f'{where} -> {val!r} after {dt:.3f}')
                ok = st == 'ok' and (val is True or isinstance(val, tuple))
                if st == 'ok' and not ok and val is not False:
                    o.bad('odd-result', f'{where} returned {val!r}')
                if ok and not can:
                    o.bad('false-success', f'{where} reported success while the lock was '
                          f'held (holder {holder}, owner {owner[0]})')
                    return
                if not ok and can and not state['faulted']:
                    o.bad('false-refusal', f'{where} reported {val!r} although the lock '
                          f'was free')
                    return
                if not ok and st == 'exc':
                    good = isinstance(val, TimeoutError) if kind[0] in 'cw' else False
                    if not good and not (isinstance(val, (OSError, Interrupt))
                                         and state['faulted']):
                        o.bad('odd-exception', f'{where} raised {val!r}')
                        return
                if bud == 'nb':
                    if dt > 0.001:
                        o.bad('nonblocking-waited', f'{where} took {dt:.3f} s')
                elif bud is not None:
                    o.counts['timed'] += 1
                    pl = max(poll, 0.05) if kind == 'wenter' else poll
                    if dt > 2 * bud + pl + 0.005:
                        o.bad('timed-late', f'{where} took {dt:.3f} s, timeout {bud}, '
                              f'poll {poll}')
                if ok:
                    got_it(t, k, val[1] if isinstance(val, tuple) else None)
                else:
                    o.counts['refused'] += 1
            else:
                if holder[k] not in (None, t):
                    if spec['re'][k] or kind in ('exit', 'exitx'):
                        return               # outside the contract
                    # a plain lock may be released by anyone
                    o.counts['released_by_other'] += 1
                    drop(stacks[holder[k], k])
                ctx = None
                if kind in ('exit', 'exitx'):
                    if not stacks[t, k]:
                        return
                    ctx = stacks[t, k].pop()
                held = holder[k] is not None
                force = kind == 'force'
                if force and held and depth[k] > 1:
                    o.counts['forced'] += 1
                if kind == 'exitx':             # the body failed
                    def job(e=BODY[idx % len(BODY)]('body')):
                        o.counts['body_failed'] += 1
                        try:
                            raise e
                        except BaseException:
                            return ctx.__exit__(*sys.exc_info())
                elif ctx is not None:
                    job = lambda: ctx.__exit__(None, None, None)
                elif force:
                    job = lambda: objs[k].release(force=True)
                else:
                    job = lambda: objs[k].release()
                w.send(job)
                time.sleep(60)
                if w.busy:
                    o.bad('release-hangs', f'{where} did not return')
                    return
                st, val, dt = w.res
                trace.append(f'{where} -> {val!r}')
                if st == 'exc' and not (isinstance(val, OSError) and state['faulted']):
                    o.bad('release-raised', f'{where} raised {val!r} '
                          f'({"held" if held else "unheld"})')
                    return
                if kind == 'exitx' and st == 'ok' and val:
                    o.bad('swallowed', f'{where}: the exception of the body was swallowed')
                    return
                if held:
                    o.counts['released'] += 1
                    depth[k] = 0 if force else depth[k] - 1
                    if depth[k] == 0:
                        holder[k] = None
                        owner[0] = None
            check_state(where)

        def check_ext_base(delta):
            nonlocal base
            base += delta

        for idx, (t, k, kind) in enumerate(spec['ops']):
            run_op(idx, t, k, kind)
            if o.violations:
                break
        # wind down: the holders let go (some by nested releases, some by force)
        if not o.violations:
            state['op'] = -1
            for rnd in range(8):
                if ext[0] is not None:
                    run_op(-1, 0, 0, 'xu')
                todo = [(holder[k], k) for k in range(2) if holder[k] is not None]
                if not todo and not pending:
                    break
                for t, k in todo:
                    while holder[k] == t and not o.violations:
                        drop(stacks[t, k])
                        run_op(-1, t, k, 'force' if len(spec['ops']) % 2 else 'rel')
                settle_pending('wind-down')
                if o.violations:
                    break
            if pending and not o.violations:
                o.bad('not-reacquirable', f'still blocked at the end: {pending}')
        if not o.violations:
            # anyone can have it now: each thread, then a third, then a fresh object
            for who, f, name in [(0, objs[0], 'object 0'), (1, objs[0], 'object 0'),
                                 (2, objs[1], 'object 1'), (0, objs[1], 'object 1'),
                                 (2, objs[0], 'object 0'),
                                 (1, m.FileLock(path), 'a fresh object')]:
                ws[who].send(lambda: (f.acquire(blocking=False), f.is_locked,
                                      f.release(), f.is_locked))
                time.sleep(1)
                r = ws[who].res
                if ws[who].busy or r[0] != 'ok' or r[1] != (True, True, None, False):
                    o.bad('not-reacquirable', f'after everything was released, thread {who} '
                          f'on {name}: (acquire, is_locked, release, is_locked) = '
                          f'{r and r[1]!r}; history {trace[-8:]}')
                    break
            if nfds() != base:
                o.bad('fd-leak', f'{nfds() - base} descriptors left at the end')
        for w in ws:
            w.stop()

    try:
        s, _ = execute(scen, spec['sched'])
    finally:
        for pid in children:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    stats(s, o)
    if s.verdict and not o.violations:
        if s.verdict in ('deadlock', 'livelock', 'horizon'):
            o.bad('hang', f'{s.verdict}: {s.blocked_report}; {trace[-5:]}')
        else:
            o.inconclusive = s.verdict
    for n, e in s.thread_errors:
        o.bad('thread-error', f'{n}: {e}')
    o.nontrivial = o.counts['acquired'] > 0 and o.counts['released'] > 0


def conc(spec, o, path):
    state = {}
    inacq = set()

    def fault(kind):
        if state.get('off') or sim.current() is None or sim.current().name == 'main':
            return None
        for fi, (op, k, nth, err) in enumerate(spec['faults']):
            if k != kind or err == 'int' and sim.current().name not in inacq:
                continue
            n = state[fi] = state.get(fi, 0) + 1
            if nth != 'all' and n == op + 1 or nth == 'all' and op <= n < op + 4:
                o.counts['faults_injected'] += 1
                if err == 'int':
                    o.counts['interrupts'] += 1
                return injected(err)
        return None

    def scen():
        m = load.fresh('filelock')
        sim._sim.faults = fault
        objs = [m.FileLock(path, reentrant=bool(r)) for r in spec['re']]
        base = nfds()
        poll = spec['poll']
        kept = []

        def rounds(t, rs):
            for k, kind, hold, depth, force, gap in rs:
                f = objs[k]
                if not spec['re'][k]:
                    depth = 1
                t0 = sim.now()
                cm = None
                inacq.add(f't{t}')
                try:
                    if kind in ('nb',):
                        ok = f.acquire(blocking=False, poll_interval=poll)
                    elif kind == 'nbm':
                        ok = f.acquire(False, -1, poll)
                    elif kind == 'b':
                        ok = f.acquire(poll_interval=poll)
                    elif kind == 'neg':
                        ok = f.acquire(timeout=-1, poll_interval=poll)
                    elif kind == 'nbt':
                        ok = f.acquire(False, TS, poll)
                    elif kind in ('t0', 'ts'):
                        ok = f.acquire(timeout=TS if kind == 'ts' else 0,
                                       poll_interval=poll)
                    elif kind == 'wenter':
                        f.__enter__()
                        ok, cm = True, f
                    else:
                        cm = f.acquire_ctx(kind != 'cnb', TS if kind == 'cts' else None,
                                           poll)
                        kept.append(cm)
                        try:
                            cm.__enter__()
                            ok = True
                        except TimeoutError:
                            ok = False
                except (OSError, Interrupt) as e:
                    if not spec['faults']:
                        o.bad('odd-exception', f'{kind} raised {e!r}')
                    ok = False
                inacq.discard(f't{t}')
                dt = sim.now() - t0
                if kind in ('nb', 'cnb', 'nbm') and dt > 0.001:
                    o.bad('nonblocking-waited', f'{kind} took {dt:.3f} s')
                if kind in ('t0', 'ts', 'cts', 'nbt'):
                    o.counts['timed'] += 1
                    lim = 2 * (0 if kind == 't0' else TS) + poll + 0.005
                    if dt > lim:
                        o.bad('timed-late', f'{kind} took {dt:.3f} s, limit {lim:.3f}')
                if not ok:
                    o.counts['refused'] += 1
                    continue
                o.counts['acquired'] += 1
                if not f.is_locked:
                    o.bad('is-locked', f'is_locked is False inside the section of thread {t}')
                for _ in range(depth - 1):
                    o.counts['nested'] += 1
                    if not f.acquire(blocking=False):
                        o.bad('nested-refused', 'nested acquire by the holder refused')
                if hold:
                    time.sleep(hold)
                sim.point()
                if force and depth > 1:
                    o.counts['forced'] += 1
                    f.release(force=True)
                    depth = 0
                elif force:
                    f.release(force=True)
                    depth = 0
                for j in range(depth):
                    if not f.is_locked:
                        o.bad('early-release', f'is_locked False after {j} of {depth} '
                              f'releases')
                    if j == depth - 1 and cm is not None:
                        cm.__exit__(None, None, None)
                        cm = None
                    else:
                        f.release()
                o.counts['released'] += 1
                if gap:
                    time.sleep(gap)

        ts = [threading.Thread(target=rounds, args=(t, rs), name=f't{t}')
              for t, rs in enumerate(spec['rounds'])]
        for t in ts:
            t.start()
        for t, delta in spec.get('steps', ()):
            time.sleep(t)
            sim._sim.wall += delta
            o.counts['clock_steps'] += 1
        for t in ts:
            t.join()
        state['off'] = True
        for k, f in enumerate(objs):
            if f.is_locked:
                o.bad('is-locked', f'object {k} still is_locked after all released')
        if nfds() != base:
            o.bad('fd-leak', f'{nfds() - base} descriptors left after all released')
        for f in objs + [m.FileLock(path)]:
            if not f.acquire(blocking=False):
                o.bad('not-reacquirable', 'acquire refused after all released')
            else:
                f.release()

    s, _ = execute(scen, spec['sched'])
    stats(s, o)
    if s.verdict and not o.violations:
        if s.verdict in ('deadlock', 'livelock', 'horizon'):
            o.bad('hang', f'{s.verdict}: {s.blocked_report}')
        else:
            o.inconclusive = s.verdict
    for n, e in s.thread_errors:
        o.bad('thread-error', f'{n}: {e}')
    o.key = str(s.digest)
    o.nontrivial = o.counts['acquired'] > 1
    o.trace = [f'steps={s.steps} switches={s.switches}']
