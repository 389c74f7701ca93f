"""FileLock mutual exclusion."""
import os
import pathlib
import random
import shutil
import signal
import socket
import tempfile
import threading
import time
import json
from vf import sim, load
from vf.runner import Out, gen_sched
from vf.harness import execute, stats

ID = 'C02'
LEVEL = 'exploration'
RULE = ('a case = 2..4 threads over 1..3 FileLock objects on one path, each doing 1..3 '
        'rounds through with / acquire / acquire_ctx (blocking, non-blocking, timed, '
        'default timeout), reentrant or not, nested acquires, a holder outside the '
        'process, under one line-level schedule; distinct by case and switch sequence; '
        'non-trivial = at least two sections entered by different threads.  Plus '
        'two processes taking turns in lock step with objects made before or after the fork '
        '(see relay_rounds), and free-running processes (see multiprocess)')
CASES = {'quick': 24000, 'thorough': 200000}
NEED = {'sections': 10000, 'refused': 1000, 'probes_inside': 3000, 'waited': 1000}
ASSUMPTIONS = ['preemption in the simulated part happens at source lines of aiuti/*.py, '
               'lock operations and system calls; the multi-process part is preempted by '
               'the kernel']
SPELL = ['path', 'rel', 'dots', 'symlink', 'hardlink', 'dirlink', 'obj']


class Fs:
    """Nothing but a path-like object."""
    __slots__ = ('p',)
    __hash__ = None

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p

    def __eq__(self, other):
        raise TypeError('compared')

    def __str__(self):
        return 'a path'


def spelled(path, how):
    """Another name of the same lock file."""
    d, b = os.path.split(path)
    if how == 'path':
        return pathlib.Path(path)
    if how == 'obj':
        return Fs(path)
    if how == 'rel':
        return os.path.relpath(path)
    if how == 'dots':
        return os.path.join(d, '..', os.path.basename(d), '.', b)
    if how == 'dirlink':
        return os.path.join(d, 'dir', b)
    if how in ('symlink', 'hardlink'):
        return os.path.join(d, how)
    return path


def names(d, path):
    os.symlink(d, os.path.join(d, 'dir'))
    os.symlink(path, os.path.join(d, 'symlink'))
    with open(path, 'w') as fh:
        fh.write('left by somebody else')
    os.link(path, os.path.join(d, 'hardlink'))


MODES = ['with', 'with', 'acq', 'acq', 'acq_nb', 'acq_t', 'acq_t0', 'ctx', 'ctx_nb', 'ctx_t']


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    nobj = rng.choice([1, 1, 1, 2, 2, 3])
    re = rng.random() < 0.4
    objs = [[bool(re if rng.random() < .8 else not re),
             rng.choice([-1, -1, -1, 0, 0.1, 0.3]),
             rng.choice(SPELL) if rng.random() < .4 else 'str'] for _ in range(nobj)]
    rounds = [[[rng.randrange(nobj), rng.choice(MODES), rng.choice([0, 0, 0, 0.04, 0.4]),
                rng.choice([0, 0, 0, 1, 2]), rng.random() < .3, rng.random() < .15,
                rng.choice([0, 0, 0.02])]
               for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
    return {'objs': objs, 'rounds': rounds, 'poll': rng.choice([0.05, 0.01, 0.001]),
            'ext': rng.choice([None] * 6 + [0.15, 0.6]),
            'age': rng.choice([None] * 4 + [35, 4000, 1e6]),
            'faults': [[rng.choice(['open', 'lock', 'unlock', 'close']), rng.randrange(8)]
                       for _ in range(rng.choice([0, 0, 0, 1, 2]))],
            'sched': gen_sched(rng, 200)}


def run(spec):
    o = Out()
    if 'objs' not in spec:                   # a replay of a multi-process part
        for mech, msg in (run_relay(*spec['relay']) if 'relay' in spec else
                          run_procs(*spec['multiprocess']))[0]:
            o.bad(mech, msg)
        return o
    d = tempfile.mkdtemp(prefix='vfc02')
    path = os.path.join(d, 'x.lock')
    seq = []
    try:
        if any(x[2] != 'str' for x in spec['objs']):
            names(d, path)
        s, _ = execute(lambda: scen(spec, o, path, seq), spec['sched'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    stats(s, o)
    if s.verdict:
        # termination belongs to C12; nothing more can be said here
        if not o.violations:
            o.inconclusive = f'{s.verdict}: {s.blocked_report}'
    for n, e in s.thread_errors:
        o.inconclusive = f'thread died: {e}'
    o.key = repr({k: spec[k] for k in spec if k != 'sched'}) + str(s.digest)
    o.nontrivial = len({x[0] for x in seq}) > 1
    o.trace = [f'{x}' for x in seq[:40]] + [f'steps={s.steps} switches={s.switches}']
    return o


def scen(spec, o, path, seq):
    m = load.fresh('filelock')
    hits = {}

    def fault(kind):
        if sim.current().name == 'main':
            return None
        n = hits[kind] = hits.get(kind, 0) + 1
        for k, nth in spec['faults']:
            if k == kind and n == nth + 1:
                o.counts['faults_injected'] += 1
                return OSError(5, 'injected')
    sim._sim.faults = fault
    locks = [m.FileLock(spelled(path, sp), timeout=t, reentrant=r)
             for r, t, sp in spec['objs']]
    o.counts['spellings'] += len({x[2] for x in spec['objs']}) > 1
    inside = []
    extfd = None
    if spec['ext'] is not None:
        extfd = sim._r_open(path, os.O_RDWR | os.O_CREAT)
        sim._r_flock(extfd, 2)
        inside.append('ext')

    def section(t, k, hold, probe, depth, f, re):
        """The protected section: watched by an occupancy record."""
        others = [x for x in inside if x != t]
        inside.append(t)
        seq.append((t, k, round(sim.now(), 4)))
        o.counts['sections'] += 1
        if others:
            o.bad('overlap', f'thread {t} entered through object {k} while '
                  f'{others} inside; sections so far {seq[-6:]}')
        aged(path, spec['age'])
        for _ in range(3):
            sim.point()
        nested = 0
        for _ in range(depth if re else 0):
            if f.acquire(blocking=False):
                nested += 1
                o.counts['nested'] += 1
        if probe:
            o.counts['probes_inside'] += 1
            fr = m.FileLock(spelled(path, spec['objs'][-1][2]))
            try:
                got = fr.acquire(blocking=False)
            except OSError:          # injected
                got = False
            if got:
                o.bad('probe-acquired', f'a second FileLock object acquired the path while '
                      f'thread {t} was inside')
                fr.release()
        if hold:
            time.sleep(hold)
        else:
            sim.point()
        for _ in range(nested):
            f.release()
            if inside.count(t) == 1 and [x for x in inside if x != t]:
                o.bad('overlap', f'another thread entered after an inner release of '
                      f'thread {t}: {inside}')
            sim.point()
        if [x for x in inside if x != t]:
            o.bad('overlap', f'{inside} inside at once (thread {t} leaving)')
        inside.remove(t)

    def rounds(t, rs):
        for k, mode, hold, depth, probe, exc, gap in rs:
            f = locks[k]
            re = spec['objs'][k][0]
            t0 = sim.now()
            p = spec['poll']
            try:
                if mode == 'with':
                    with f:
                        section(t, k, hold, probe, depth, f, re)
                        if exc:
                            raise LookupError
                elif mode.startswith('ctx'):
                    a = {'ctx': (True, None, p), 'ctx_nb': (False, None, p),
                         'ctx_t': (True, 0.1, p)}[mode]
                    with f.acquire_ctx(*a):
                        section(t, k, hold, probe, depth, f, re)
                        if exc:
                            raise LookupError
                else:
                    kw = {'acq': {}, 'acq_nb': {'blocking': False},
                          'acq_t': {'timeout': 0.1}, 'acq_t0': {'timeout': 0}}[mode]
                    if f.acquire(poll_interval=p, **kw):
                        try:
                            section(t, k, hold, probe, depth, f, re)
                        finally:
                            f.release()
                    else:
                        o.counts['refused'] += 1
            except LookupError:
                pass
            except TimeoutError:
                o.counts['refused'] += 1
            except OSError:
                o.counts['oserrors'] += 1
            if sim.now() > t0:
                o.counts['waited'] += 1
            if gap:
                time.sleep(gap)

    ts = [threading.Thread(target=rounds, args=(t, rs), name=f't{t}')
          for t, rs in enumerate(spec['rounds'])]
    for t in ts:
        t.start()
    if extfd is not None:
        time.sleep(spec['ext'])
        inside.remove('ext')
        sim._r_close(extfd)
        sim._sim.wake('flock')
    for t in ts:
        t.join()


# -- free-running processes ----------------------------------------------
def proc_main(path, marker, wfd, seed, dur, nthreads, old):
    """One contender process.  Marker file created O_EXCL inside the section."""
    rng = random.Random(seed)
    stat = {'sections': 0, 'refused': 0, 'overlaps': []}
    m = load.fresh('filelock')

    def jitter(code, line):
        if rng.random() < 0.02:
            time.sleep(rng.random() * 0.0008)
    load.line_hook = jitter
    shared = m.FileLock(path)
    rshared = m.FileLock(spelled(path, rng.choice(SPELL)), reentrant=True)
    end = time.monotonic() + dur
    guard = threading.Lock()

    def worker(r):
        while time.monotonic() < end:
            f = r.choice([shared, shared, rshared, m.FileLock(path), *old,
                          m.FileLock(spelled(path, r.choice(SPELL)))])
            mode = r.choice(['b', 'nb', 't', 'ctx', 'with'])
            got = False
            try:
                if mode == 'b':
                    got = f.acquire(poll_interval=0.002)
                elif mode == 'nb':
                    got = f.acquire(blocking=False)
                elif mode == 't':
                    got = f.acquire(timeout=0.02, poll_interval=0.002)
                elif mode == 'with':
                    f.__enter__()
                    got = True
                else:
                    c = f.acquire_ctx(timeout=0.05, poll_interval=0.002)
                    try:
                        c.__enter__()
                        got = c
                    except TimeoutError:
                        got = False
                if not got:
                    stat['refused'] += 1
                    continue
                try:
                    fd = os.open(marker, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
                except FileExistsError:
                    stat['overlaps'].append(f'pid {os.getpid()} mode {mode}')
                else:
                    os.close(fd)
                    if r.random() < 0.4:
                        time.sleep(r.random() * 0.002)
                    os.unlink(marker)
                stat['sections'] += 1
            finally:
                if got is True:
                    f.release()
                elif got:
                    got.__exit__(None, None, None)
            if len(stat['overlaps']) > 3:
                return

    ths = [threading.Thread(target=worker, args=(random.Random(seed * 97 + k),))
           for k in range(nthreads)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    os.write(wfd, (json.dumps(stat) + '\n').encode())


def aged(path, secs):
    """The lock has been held for that long."""
    if secs and os.path.exists(path):
        os.utime(path, (time.time() - secs,) * 2)


class Unavailable(Exception):
    pass


def use(f):
    """Acquire and release a lock nobody holds."""
    if not f.acquire(timeout=10, poll_interval=0.01):
        raise Unavailable('a lock file nobody locked cannot be acquired')
    f.release()


def relay(d, seed, rounds):
    """Two processes in lock step: one holds, the other must be refused, in turns.

    Uses objects made (and partly used) before the fork as well as fresh ones."""
    rng = random.Random(seed)
    path = os.path.join(d, 'x.lock')
    m = load.fresh('filelock')
    many = [os.open('/dev/null', os.O_RDONLY) for _ in range(700 if seed % 4 == 1 else 0)]
    old = [m.FileLock(path, reentrant=k % 2 > 0) for k in range(6)]
    for f in old[2:4]:
        use(f)
    for f in old[4:]:
        f.acquire(blocking=False)
        f.release(force=True)
    a, b = socket.socketpair()
    script = [(rng.randrange(8), rng.randrange(8), rng.randrange(2), rng.randrange(4))
              for _ in range(rounds)]
    script = [(x, x if rng.random() < .5 else y, a_, b_) for x, y, a_, b_ in script]
    pid = os.fork()
    me = 0 if pid else 1
    (b if pid else a).close()
    sk = a if pid else b

    def pick(k):
        return old[k] if k < 6 else m.FileLock(spelled(path, rng.choice(SPELL)),
                                               reentrant=k == 7)

    def sync():
        sk.sendall(b'.')
        if sk.recv(1) != b'.':
            raise EOFError

    def attempt(f, how):
        if how == 0:
            return f.acquire(blocking=False)
        if how == 1:
            return f.acquire(timeout=0)
        if how == 2:
            return f.acquire(timeout=0.003, poll_interval=0.001)
        try:
            with f.acquire_ctx(timeout=0):
                return True
        except TimeoutError:
            return False
    bad = []
    stuck = False
    try:
        sk.settimeout(25)
        for n, (x, y, first, how) in enumerate(script):
            if not pid:
                signal.alarm(20)         # blocked in a lock call that should not block
            f = pick((x, y)[me])
            if me == first:
                if not f.acquire(timeout=10, poll_interval=0.001):
                    bad.append(f'round {n}: process {me} cannot acquire a free lock '
                               f'(object {(x, y)[me]})')
                aged(path, [0, 0, 35, 4000, 1e6][n % 5])
                sync()
                sync()
                f.release(force=n % 3 == 0)
            else:
                sync()
                t0 = time.monotonic()
                got = attempt(f, how)
                if time.monotonic() - t0 > 5:      # the other may be gone by now
                    stuck = True
                    break
                if got:
                    bad.append(f'round {n}: process {me} got in with object {(x, y)[me]} '
                               f'(mode {how}) while process {1 - me} held the lock with '
                               f'object {(x, y)[1 - me]}')
                    f.release(force=True)
                sync()
            sync()
            if bad:
                break
    except (OSError, EOFError):
        stuck = True
    if not pid:
        try:
            a.close()
            sk.sendall(b'!' + json.dumps(bad).encode())
            sk.close()
        finally:
            os._exit(0)
    rest = b''
    try:
        sk.shutdown(socket.SHUT_WR)
        while True:
            c = sk.recv(65536)
            if not c:
                break
            rest += c
    except OSError:
        pass
    sk.close()
    for fd in many:
        os.close(fd)
    os.waitpid(pid, 0)
    if b'[' in rest:
        bad += json.loads(rest[rest.index(b'['):])
    return bad, n + 1, stuck and not bad


def run_relay(seed, rounds):
    d = tempfile.mkdtemp(prefix='vfc02r')
    try:
        names(d, os.path.join(d, 'x.lock'))
        bad, n, stuck = relay(d, seed, rounds)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [('process-overlap' if 'got in' in x else 'not-available', x) for x in bad[:1]], n, stuck


def run_procs(n, th, seed, dur):
    """Returns violations, problems, statistics."""
    d = tempfile.mkdtemp(prefix='vfc02p')
    path, marker = os.path.join(d, 'x.lock'), os.path.join(d, 'marker')
    names(d, path)
    r, w = os.pipe()
    pids = []
    # objects inherited from the parent: one never used, the others released
    m = load.fresh('filelock')
    old = [m.FileLock(path), m.FileLock(path), m.FileLock(path, reentrant=True)]
    for f in old[1:]:
        use(f)
        f.acquire(blocking=False)
        f.release(force=True)
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                os.close(r)
                signal.alarm(int(dur) + 60)
                proc_main(path, marker, w, seed * 1000 + k, dur, th, old)
                rc = 0
            finally:
                os._exit(rc)
        pids.append(pid)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    rcs = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
    shutil.rmtree(d, ignore_errors=True)
    st = [json.loads(x) for x in buf.decode().splitlines()]
    ov = [x for y in st for x in y['overlaps']]
    return [('process-overlap', f'{len(ov)} overlaps, e.g. {ov[:3]}')] if ov else [], \
        [f'contender processes ended with {rcs}'] if any(rcs) else [], \
        {'processes': n, 'threads_each': th, 'sections': sum(y['sections'] for y in st),
         'refused': sum(y['refused'] for y in st), 'overlaps': len(ov)}


def extra(tier, seed):
    dur = 5.0 if tier == 'quick' else 60.0
    plans = [(4, 1), (8, 2)] if tier == 'quick' else [(2, 1), (4, 2), (8, 2), (16, 1), (16, 3)]
    viol, inc, cov = [], [], {'multiprocess': [], 'relay_rounds': 0}

    def note(v, spec):
        if v:
            viol.append({'i': -1, 'noshrink': True, 'spec': spec, 'v': v})
    try:
        return multi(tier, seed, dur, plans, viol, inc, cov, note)
    except Unavailable as e:
        return cov, viol, inc + [str(e)]


def multi(tier, seed, dur, plans, viol, inc, cov, note):
    for k in range(12 if tier == 'quick' else 120):
        v, n, stuck = run_relay(seed * 1000 + k, 40)
        cov['relay_rounds'] += n
        note(v, {'relay': [seed * 1000 + k, 40]})
        if stuck:
            inc.append(f'relay {k} got stuck in round {n}')
            break
    for n, th in plans:
        v, problems, st = run_procs(n, th, seed, dur / len(plans))
        note(v, {'multiprocess': [n, th, seed, dur / len(plans)]})
        inc += problems
        cov['multiprocess'].append(st)
    return cov, viol, inc
