"""SIGKILL of a FileLock user at every line event; survivors must go on."""
import gc
import mmap
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from vf import sim, load
from vf.runner import Out

ID = 'C13'
LEVEL = 'fault_enumeration'
RULE = ('a case = one use of the lock by a child process (blocking, timed, non-blocking, '
        'with, acquire_ctx, nested reentrant, forced release, garbage collection, two '
        'threads, holder of an exec\'d child) x the n-th line or system-call event inside '
        'filelock.py at which it is killed with SIGKILL x 0..2 live contenders; every n is '
        'enumerated; or a whole interpreter ending in one of eleven other ways (return, exception, '
        'signals, abort, daemon thread holding ...) while holding; non-trivial = the child '
        'was really killed at that event or ended while holding')
CASES = {'quick': 0, 'thorough': 0}      # set by prepare()
NEED = {'killed': 300, 'ended_while_holding': 15, 'acquired_after_kill': 300, 'survivor_sections': 1000,
        'killed_while_holding': 30}
LIMIT = {'quick': 300, 'thorough': 3000}
ASSUMPTIONS = ['"promptly" is judged as 10 s of wall time with nobody else holding the '
               'lock; an actual hand-over takes milliseconds',
               'contenders are real processes preempted by the kernel with random delays '
               'at source lines of filelock.py']

SCEN = ['block', 'timed', 'nonblock', 'with', 'ctx', 'nested', 'nested_force', 'gc',
        'threads', 'again', 'exec']
PROMPT = 10.0
# other deaths of a whole interpreter while it holds the lock
ENDS = ['return', 'exception', 'sysexit', '_exit', 'abort', 'sigterm', 'sigint',
        'daemon', 'waiting', 'nested', 'two']
_plan = []


class Victim:
    """Runs in the child: counts events, dies at number n."""
    def __init__(self, n, mm):
        self.n, self.mm = n, mm
        self.count = 0
        self.armed = True

    def event(self, *_):
        if not self.armed:
            return
        self.count += 1
        if self.count == self.n:
            self.mm[1] = 1                 # dying: our slots no longer count
            os.kill(os.getpid(), signal.SIGKILL)
            while True:
                time.sleep(1)

    def install(self):
        load.line_hook = self.event

        def wrap(f):
            def g(*a, **k):
                self.event()
                r = f(*a, **k)
                self.event()
                return r
            return g
        import fcntl
        os.open, os.close = wrap(os.open), wrap(os.close)
        fcntl.flock = wrap(fcntl.flock)
        time.sleep = wrap(time.sleep)


def enter(mm, slot, nslots, stat):
    """Section entry for process `slot`; slot 0 is the victim."""
    mm[8 + slot] = 1
    for k in range(nslots):
        if k != slot and mm[8 + k] and not (k == 0 and mm[1]):
            if k == 0 and slot == 0:
                continue
            mm[2] = 1
            stat['overlap'] = stat.get('overlap', 0) + 1


def leave(mm, slot):
    mm[8 + slot] = 0


def victim_body(kind, path, mm, nslots, v):
    m = load.fresh('filelock')
    stat = {}

    def section():
        enter(mm, 0, nslots, stat)
        v.event()
        mm[3] = 1
        v.event()
        leave(mm, 0)
        v.event()

    v.install()
    if kind == 'block':
        f = m.FileLock(path)
        f.acquire(poll_interval=0.002)
        section()
        f.release()
    elif kind == 'timed':
        f = m.FileLock(path)
        if f.acquire(timeout=0.3, poll_interval=0.002):
            section()
            f.release()
    elif kind == 'nonblock':
        f = m.FileLock(path)
        for _ in range(60):
            if f.acquire(blocking=False):
                section()
                f.release()
                break
    elif kind == 'with':
        with m.FileLock(path):
            section()
    elif kind == 'ctx':
        f = m.FileLock(path, reentrant=True)
        with f.acquire_ctx(timeout=3, poll_interval=0.002):
            section()
    elif kind in ('nested', 'nested_force'):
        f = m.FileLock(path, reentrant=True)
        f.acquire()
        with f:
            f.acquire(timeout=0.1)
            section()
            if kind == 'nested_force':
                f.release(force=True)
                v.event()
            else:
                f.release()
        if kind == 'nested':
            enter(mm, 0, nslots, stat)
            v.event()
            leave(mm, 0)
        f.release()
    elif kind == 'gc':
        f = m.FileLock(path)
        f.acquire()
        section()
        del f
        gc.collect()
    elif kind == 'threads':
        f = m.FileLock(path)

        def other():
            f.acquire(timeout=0.2, poll_interval=0.002) and f.release()
        f.acquire()
        t = threading.Thread(target=other)
        t.start()
        section()
        f.release()
        t.join()
    elif kind == 'again':
        f = m.FileLock(path)
        for _ in range(2):
            f.acquire(poll_interval=0.002)
            section()
            f.release()
        g = m.FileLock(path)
        g.acquire(blocking=False)
        v.event()
        g.release(force=True)
    elif kind == 'exec':
        # a helper program started while holding must not keep the lock
        v.armed = False
        f = m.FileLock(path)
        f.acquire()
        p = subprocess.Popen(['sleep', '30'], close_fds=False,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        mm[16:24] = p.pid.to_bytes(8, 'little')
        v.armed = True
        section()
        f.release()
        v.armed = False
        p.kill()
        p.wait()
        mm[16:24] = bytes(8)


SCRIPT = '''
import mmap, os, signal, sys, threading, time
here, path, end, nslots = sys.argv[1:5]
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from vf import load
from vf.props import c13
fd = os.open(path + '.mm', os.O_RDWR)
c13.ending(path, mmap.mmap(fd, 64), end, int(nslots))
'''


def ending(path, mm, end, nslots):
    """Runs in an interpreter of its own, which ends while holding the lock."""
    global keep
    os.chdir(os.path.dirname(path))
    signal.alarm(60)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    m = load.fresh('filelock')
    keep = f = m.FileLock(path, reentrant=end == 'nested')

    def hold():
        f.acquire(poll_interval=0.002)
        enter(mm, 0, nslots, {})
        mm[3] = 1
        time.sleep(0.003)

    def other(g):
        g.acquire(timeout=30, poll_interval=0.002)
    if end == 'daemon':
        t = threading.Thread(target=lambda: (hold(), time.sleep(30)), daemon=True)
        t.start()
        while not mm[3]:
            time.sleep(0.001)
    else:
        hold()
    if end == 'nested':
        f.acquire()
        f.acquire()
        f.release()
    if end in ('waiting', 'two'):
        g = f if end == 'waiting' else m.FileLock(path)
        threading.Thread(target=other, args=(g,), daemon=True).start()
        time.sleep(0.005)
    mm[1] = 1
    mm[8] = 0
    if end == 'exception':
        sys.stderr = None
        raise LookupError
    if end == 'sysexit':
        sys.exit(3)
    if end == '_exit':
        os._exit(0)
    if end == 'abort':
        os.abort()
    if end == 'sigterm':
        os.kill(os.getpid(), signal.SIGTERM)
    if end == 'sigint':
        sys.stderr = None
        signal.signal(signal.SIGINT, signal.default_int_handler)
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(5)


def contender(slot, path, mm, nslots, wfd, seed):
    rng = random.Random(seed)
    m = load.fresh('filelock')

    def jitter(code, line):
        if rng.random() < 0.03:
            time.sleep(rng.random() * 0.001)
    load.line_hook = jitter
    stat = {}
    f = m.FileLock(path)
    n = 0
    os.write(wfd, b'R')
    while not mm[0]:
        if rng.random() < .3:
            f = m.FileLock(path, reentrant=rng.random() < .5)
        mode = rng.choice(['b', 't', 'nb', 'c'])
        if mode == 'b':
            ok = f.acquire(poll_interval=0.002)
        elif mode == 't':
            ok = f.acquire(timeout=0.02, poll_interval=0.002)
        elif mode == 'nb':
            ok = f.acquire(blocking=False)
        else:
            try:
                with f.acquire_ctx(timeout=0.05, poll_interval=0.002):
                    enter(mm, slot, nslots, stat)
                    if rng.random() < .5:
                        time.sleep(rng.random() * 0.001)
                    leave(mm, slot)
                n += 1
                os.write(wfd, b's')
            except TimeoutError:
                pass
            continue
        if not ok:
            continue
        enter(mm, slot, nslots, stat)
        if rng.random() < .5:
            time.sleep(rng.random() * 0.001)
        leave(mm, slot)
        n += 1
        f.release()
        os.write(wfd, b's')
    os.close(wfd)


def child(fn, *a):
    pid = os.fork()
    if pid == 0:
        rc = 9
        try:
            signal.alarm(60)
            fn(*a)
            rc = 0
        finally:
            os._exit(rc)
    return pid


def count_events(kind):
    """Dry run: number of events of an uncontended use."""
    d = tempfile.mkdtemp(prefix='vfc13')
    r, w = os.pipe()
    mm = mmap.mmap(-1, 64)

    def body():
        v = Victim(-1, mm)
        try:
            victim_body(kind, os.path.join(d, 'x.lock'), mm, 1, v)
        finally:
            os.write(w, str(v.count).encode())
    pid = child(body)
    os.close(w)
    n = int(os.read(r, 100) or b'0')
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    return n


def prepare(tier):
    if _plan:
        return
    for kind in SCEN:
        n = count_events(kind)
        for cont in (0, 1, 2):
            if kind == 'exec' and cont:
                continue
            extra = 0 if cont == 0 else 25      # polling adds events
            reps = 1 if tier == 'quick' or cont == 0 else 6
            for rep in range(reps):
                for k in range(1, n + extra + 1):
                    _plan.append([kind, cont, k, rep])
    for end in ENDS:
        for cont in (0, 1, 2):
            for rep in range(2 if tier == 'quick' else 20):
                _plan.append(['end:' + end, cont, 0, rep])
    random.Random(4).shuffle(_plan)
    CASES['quick'] = CASES['thorough'] = len(_plan)


def gen(rng, i, tier):
    kind, cont, n, rep = _plan[i]
    return {'kind': kind, 'cont': cont, 'n': n, 'rep': rep,
            'seed': rng.randrange(1 << 30), 'warm': rng.choice([0, 1, 3])}


def run(spec):
    o = Out()
    d = tempfile.mkdtemp(prefix='vfc13')
    path = os.path.join(d, 'x.lock')
    with open(path + '.mm', 'wb+') as fh:
        fh.write(bytes(64))
        fh.flush()
        mm = mmap.mmap(fh.fileno(), 64)
    nslots = 1 + spec['cont']
    pipes, pids = [], []
    got = [0] * spec['cont']
    helper = 0
    try:
        for k in range(spec['cont']):
            r, w = os.pipe()
            pids.append(child(contender, k + 1, path, mm, nslots, w, spec['seed'] + k))
            os.close(w)
            pipes.append(r)

        def pump(need, limit):
            """Read contender progress until everybody has `need` sections."""
            end = time.monotonic() + limit
            while any(g < n for g, n in zip(got, need)):
                left = end - time.monotonic()
                if left <= 0:
                    return False
                rd, _, _ = select.select(pipes, [], [], min(left, .5))
                for r in rd:
                    b = os.read(r, 4096)
                    if not b:
                        return None
                    got[pipes.index(r)] += b.count(b's')
            return True

        if spec['cont']:
            pump([spec['warm']] * spec['cont'], 10)
        t0 = time.monotonic()
        if spec['kind'].startswith('end:'):
            here = os.path.dirname(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__))))
            vp = subprocess.Popen([sys.executable, '-S', '-c', SCRIPT, here, path,
                                   spec['kind'][4:], str(nslots)],
                                  stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL).wait()
            killed = bool(mm[3])
            o.counts['ended_while_holding'] += killed
            wst = 0
            if not killed:
                o.inconclusive = f'the victim ended early with {vp}'
        else:
            v = Victim(spec['n'], mm)
            vp = child(victim_body, spec['kind'], path, mm, nslots, v)
            wst = os.waitpid(vp, 0)[1]
            killed = os.WIFSIGNALED(wst) and os.WTERMSIG(wst) == signal.SIGKILL
        helper = int.from_bytes(mm[16:24], 'little')
        if spec['kind'].startswith('end:'):
            pass
        elif killed:
            o.counts['killed'] += 1
            if mm[8]:
                o.counts['killed_while_holding'] += 1
        else:
            o.counts['finished_before_kill'] += 1
            rc = os.waitstatus_to_exitcode(wst)
            if rc not in (0, 9):
                o.inconclusive = f'victim ended with {rc}'
        mm[1] = 1
        mm[8] = 0
        if spec['cont']:
            base = list(got)
            p = pump([g + 3 for g in base], PROMPT)
            if p is None:
                o.inconclusive = 'a contender died'
            elif not p and killed:
                o.bad('stuck', f'after the end at event {spec["n"]} of {spec["kind"]} the '
                      f'contenders made {[a - b for a, b in zip(got, base)]} sections in '
                      f'{PROMPT} s')
            o.counts['survivor_sections'] += sum(got)
        if not o.violations:
            # a fresh process
            r, w = os.pipe()

            def fresh():
                m = load.fresh('filelock')
                t = time.monotonic()
                ok = m.FileLock(path).acquire(timeout=PROMPT, poll_interval=0.005)
                os.write(w, f'{int(ok)} {time.monotonic() - t:.4f}'.encode())
                os._exit(0)
            fp = child(fresh)
            os.close(w)
            b = os.read(r, 100)
            os.close(r)
            os.waitpid(fp, 0)
            if not b:
                o.inconclusive = 'the fresh process gave no answer'
            elif b[:1] != b'1':
                if killed:
                    o.bad('stuck', f'after the end at event {spec["n"]} of '
                          f'{spec["kind"]} a fresh process could not acquire within '
                          f'{PROMPT} s')
            else:
                o.counts['acquired_after_kill'] += killed
        if mm[2]:
            o.bad('overlap', f'two processes inside at once ({spec["kind"]}, event '
                  f'{spec["n"]}, {spec["cont"]} contenders)')
        o.key = f'{spec["kind"]}/{spec["cont"]}/{spec["n"]}/{spec["rep"]}'
        o.nontrivial = bool(killed)
        o.trace = [f'killed={killed} holding={mm[8]} sections={got} '
                   f'{time.monotonic() - t0:.3f}s']
    finally:
        mm[0] = 1
        if helper:
            try:
                os.kill(helper, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for r in pipes:
            end = time.monotonic() + 3
            while time.monotonic() < end:
                rd, _, _ = select.select([r], [], [], 0.2)
                if rd and not os.read(r, 4096):
                    break
            os.close(r)
        for p in pids:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        shutil.rmtree(d, ignore_errors=True)
    return o
