"""Runs a property's executions on all cores and turns what the monitors saw
into a verdict, an evidence file and, on violation, a replay file."""
import sys
import os
import json
import random
import select
import hashlib
import traceback
from collections import Counter

from . import sim, load      # must come before asyncio
import gc
import importlib
import signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known-findings.txt')


class Out:
    """What one execution showed."""
    def __init__(self):
        self.violations = []       # (mechanism, message)
        self.counts = Counter()
        self.key = ''              # identity of the execution as observed
        self.nontrivial = False
        self.inconclusive = None
        self.trace = []

    def bad(self, mech, msg):
        if len(self.violations) < 20:
            self.violations.append((mech, str(msg)[:1500]))


def case_rng(seed, prop, i):
    return random.Random(f'{seed}:{prop}:{i}')


LOOPS = {'C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C14', 'C15',
         'C16', 'C17', 'C20'}
THREADS = LOOPS - {'C04', 'C09', 'C10', 'C11', 'C20'}     # several of them


def gen_case(prop, seed, i, tier):
    spec = prop.gen(case_rng(seed, prop.ID, i), i, tier)
    rng = case_rng(seed, prop.ID + '/clock', i)
    if isinstance(spec, dict) and rng.random() < .15:
        # the wall clock (time.time()) is set forward or back during the run
        spec['clock'] = sorted([rng.choice([0.0, 0.05, 0.3, 0.7, 1.0, 1.3, 2.0, 3.0]),
                                rng.choice([-3600.0, -5.0, -0.7, -0.04, 0.04, 0.7, 5.0, 3600.0])]
                               for _ in range(rng.choice([1, 1, 2, 3])))
    if isinstance(spec, dict) and prop.ID in LOOPS and rng.random() < .12:
        # asyncio's debug mode (raises on use from another thread) and tasks
        # which start at once
        spec['loopmode'] = rng.choice(['debug', 'eager'])
    if isinstance(spec, dict) and rng.random() < .3:
        spec['fine'] = True           # preemption also within lines
    if isinstance(spec, dict) and prop.ID in THREADS and rng.random() < .15:
        spec['deep'] = True           # ... and in the plumbing of asyncio
    return spec


def run_case(prop, spec):
    sim.LOOP_MODE = spec.get('loopmode') if isinstance(spec, dict) else None
    sim.CLOCK = spec.get('clock', ()) if isinstance(spec, dict) else ()
    sim.FINE = spec.get('fine', False) if isinstance(spec, dict) else False
    sim.DEEP = spec.get('deep', False) if isinstance(spec, dict) else False
    load.preempt_stdlib(sim.DEEP)
    sim.clock_steps = sim.fine_points = sim.deep_points = 0
    o = prop.run(spec)
    if sim.clock_steps:
        o.counts['wall_clock_steps'] += sim.clock_steps
    if sim.deep_points:
        o.counts['points_in_asyncio'] += sim.deep_points
    if sim.fine_points:
        o.counts['points_within_lines'] += sim.fine_points
    if sim.LOOP_MODE:
        o.counts[f'loop_{sim.LOOP_MODE}'] += 1
    return o


def candidates(prop, spec):
    if isinstance(spec, dict) and spec.get('clock'):
        yield {k: v for k, v in spec.items() if k != 'clock'}
    if isinstance(spec, dict) and spec.get('deep'):
        yield {k: v for k, v in spec.items() if k != 'deep'}
    if isinstance(spec, dict) and spec.get('fine'):
        yield {k: v for k, v in spec.items() if k != 'fine'}
    if isinstance(spec, dict) and spec.get('loopmode'):
        yield {k: v for k, v in spec.items() if k != 'loopmode'}
    yield from prop.shrinks(spec)


def gen_sched(rng, est=400, single=0.0):
    """A random schedule description.  est: typical number of decisions."""
    if rng.random() < single:
        return {'kind': 'none'}
    k = rng.choice(['rw', 'rw', 'rw', 'pct', 'pct', 'pre', 'pre', 'pre', 'rr'])
    s = {'kind': k, 'seed': rng.randrange(1 << 30)}
    if k == 'rw':
        s['p'] = rng.choice([0.01, 0.03, 0.08, 0.2, 0.5])
    elif k == 'pct':
        s['points'] = sorted(rng.randrange(1, est)
                             for _ in range(rng.choice([1, 2, 3, 5])))
    elif k == 'pre':
        s['points'] = sorted(rng.randrange(1, est)
                             for _ in range(rng.choice([1, 1, 2, 3, 6])))
    else:
        s['q'] = rng.choice([1, 2, 3, 5, 8, 13])
    return s


def load_known(prop):
    known = []
    try:
        with open(KNOWN) as fh:
            for ln in fh:
                ln = ln.strip()
                if ln.startswith('known:'):
                    # known: property=<id> mechanism=<mech> <text>
                    parts = ln.split(None, 3)
                    if parts[1] == f'property={prop}':
                        known.append((parts[2].split('=', 1)[1],
                                      parts[3] if len(parts) > 3 else ''))
    except FileNotFoundError:
        pass
    return known


def _worker(prop, tier, seed, idxs, wfd, deadline):
    gc.disable()
    gc.freeze()
    w = os.fdopen(wfd, 'w', buffering=1)
    n = 0
    for i in idxs:
        if sim.real_now() > deadline:
            w.write(json.dumps({'stop': i}) + '\n')
            break
        spec = None
        try:
            spec = gen_case(prop, seed, i, tier)
            o = run_case(prop, spec)
        except sim.WallClock as e:
            w.write(json.dumps({'i': i, 'inc': f'wall clock: {e}'}) + '\n')
            w.flush()
            # threads of that execution are stuck for real: start over
            os._exit(17)
        except BaseException as e:      # noqa
            w.write(json.dumps({'i': i, 'err': traceback.format_exc()[-3000:],
                                'spec': spec}) + '\n')
            continue
        r = {'i': i, 'c': dict(o.counts), 'k': o.key, 'n': o.nontrivial}
        if o.inconclusive:
            r['inc'] = o.inconclusive
        if o.violations:
            r['v'] = o.violations
            r['spec'] = spec
        if n < 2 or o.violations:
            r['s'] = spec
            r['t'] = o.trace[:60]
        w.write(json.dumps(r, default=repr) + '\n')
        n += 1
        if n % 50 == 0:
            gc.collect()
    hit = sorted({(os.path.basename(f), l) for f, l in load.lines_hit})
    w.write(json.dumps({'lines': hit}) + '\n')
    w.flush()
    w.close()
    os._exit(0)


def run_cases(prop, tier, seed, total, limit_s, workers):
    """Fork workers over the case indexes; returns merged results."""
    t0 = sim.real_now()
    deadline = t0 + limit_s
    hard = t0 + limit_s + 90
    agg = {'counts': Counter(), 'keys': set(), 'evals': 0, 'nontriv': set(),
           'viol': [], 'inc': [], 'err': [], 'samples': [], 'lines': set(),
           'cut': 0, 'died': 0}
    procs = {}

    def start(idxs):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                _worker(prop, tier, seed, idxs, w, deadline)
            finally:
                os._exit(18)
        os.close(w)
        procs[r] = [pid, b'', list(idxs), set()]

    workers = min(workers, max(1, total))
    for k in range(workers):
        start(range(k, total, workers))
    stop = False
    while procs:
        left = hard - sim.real_now()
        if left <= 0 or stop:
            for r, (pid, *_rest) in list(procs.items()):
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                if not stop:
                    agg['inc'].append('worker killed by the watchdog')
            break
        rd, _, _ = select.select(list(procs), [], [], min(left, 1.0))
        for r in rd:
            data = os.read(r, 1 << 16)
            ent = procs[r]
            if not data:
                del procs[r]
                os.close(r)
                _, st = os.waitpid(ent[0], 0)
                code = os.waitstatus_to_exitcode(st)
                rest = [i for i in ent[2] if i not in ent[3]]
                if code != 0:
                    agg['died'] += 1
                    if code != 17:
                        bad = rest[0] if rest else None
                        agg['inc'].append(f'worker died ({code}) at case {bad}')
                        rest = rest[1:]
                    if rest and agg['died'] < 40 and code != 18:
                        start(rest)
                continue
            buf = ent[1] + data
            *lines, ent[1] = buf.split(b'\n')
            for ln in lines:
                m = json.loads(ln)
                if 'lines' in m:
                    agg['lines'].update(map(tuple, m['lines']))
                    continue
                if 'stop' in m:
                    agg['cut'] += 1
                    continue
                ent[3].add(m['i'])
                if 'err' in m:
                    agg['err'].append(m)
                    continue
                if 'inc' in m:
                    agg['inc'].append(f"case {m['i']}: {m['inc']}")
                if 'k' not in m:
                    continue
                agg['evals'] += 1
                agg['counts'].update(m['c'])
                agg['keys'].add(m['k'])
                if m['n']:
                    agg['nontriv'].add(m['k'])
                if 's' in m and len(agg['samples']) < 3:
                    agg['samples'].append({'case': m['i'], 'spec': m['s'],
                                           'observed': m.get('t')})
                if 'v' in m:
                    agg['viol'].append(m)
                    if len(agg['viol']) >= 25:
                        stop = True
    agg['wall'] = sim.real_now() - t0
    return agg


def shrink(prop, spec, mech, budget=150):
    """Smaller spec that still shows the same mechanism."""
    if not hasattr(prop, 'shrinks'):
        return spec
    best = spec
    progress = True
    while progress and budget > 0:
        progress = False
        for cand in candidates(prop, best):
            budget -= 1
            if budget <= 0:
                break
            try:
                o = run_case(prop, cand)
            except BaseException:      # noqa
                continue
            if any(m == mech for m, _ in o.violations):
                best = cand
                progress = True
                break
    return best


def write_replay(prop, viol, seed, tier):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(viol['spec'], sort_keys=True,
                                default=repr).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{prop.ID}-{h}.json')
    with open(p, 'w') as fh:
        json.dump({'property': prop.ID, 'seed': seed, 'tier': tier,
                   'case': viol['i'], 'violations': viol['v'],
                   'spec': viol['spec'], 'trace': viol.get('t')},
                  fh, indent=1, default=repr)
    return p


def _cap(obj, n=6000):
    s = json.dumps(obj, default=repr)
    return obj if len(s) <= n else s[:n] + '...'


def evidence(prop, tier, seed, cov, wall, nviol, assumptions):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2),
          'violations': nviol}
    p = os.path.join(d, f'{prop.ID}.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, default=repr)
    os.replace(p + '.tmp', p)


def main(argv):
    pid = argv[0]
    prop = importlib.import_module('vf.props.' + pid.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as fh:
            rep = json.load(fh)
        o = run_case(prop, rep['spec'])
        for t in o.trace:
            print('  ', t)
        for m, msg in o.violations:
            print(f'{m}: {msg}')
        if o.violations:
            print(f'VIOLATION property={pid} replay={argv[argv.index("--replay") + 1]}')
            return 1
        print('no violation', o.inconclusive or '')
        return 0
    if '--case' in argv:
        if hasattr(prop, 'prepare'):
            prop.prepare(tier)
        i = int(argv[argv.index('--case') + 1])
        spec = gen_case(prop, seed, i, tier)
        print(json.dumps(spec, default=repr))
        o = run_case(prop, spec)
        for t in o.trace:
            print('  ', t)
        print(o.violations, dict(o.counts), o.inconclusive)
        return 0
    if hasattr(prop, 'prepare'):
        prop.prepare(tier)
    total = prop.CASES[tier]
    if os.environ.get('VERIF_CASES'):
        total = int(os.environ['VERIF_CASES'])
    limit = getattr(prop, 'LIMIT', {'quick': 300, 'thorough': 3000})[tier]
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or os.cpu_count() or 4
    agg = run_cases(prop, tier, seed, total, limit, workers)
    extra = {}
    extra_viol = []
    if hasattr(prop, 'extra'):
        extra, extra_viol, inc = prop.extra(tier, seed)
        agg['inc'].extend(inc)
    known = dict(load_known(pid))
    new, seen_known = [], set()
    for v in agg['viol'] + extra_viol:
        fresh = [x for x in v['v'] if x[0] not in known]
        for x in v['v']:
            if x[0] in known:
                seen_known.add(x[0])
        if fresh:
            v['v'] = fresh
            new.append(v)
    for mech, text in known.items():
        print(f'KNOWN-FINDING: property={pid} {text} '
              f'[{mech}; {"seen" if mech in seen_known else "not met"} in this run]')
    hit = agg['lines']
    reach = {}
    for f in sorted({a for a, _ in hit}):
        tot = {l for p, l in load.line_table(f[:-3])}
        reach[f] = {'function_body_lines_executed':
                    len({l for a, l in hit if a == f}),
                    'function_body_lines': len(tot)}
    cov = {'evaluations': agg['evals'],
           'distinct_nontrivial': len(agg['nontriv']),
           'distinct_executions': len(agg['keys']),
           'rule': prop.RULE,
           'observed': dict(sorted(agg['counts'].items())),
           'code_reached': reach,
           'inconclusive': len(agg['inc']),
           'inconclusive_examples': agg['inc'][:5],
           'cut_short_workers': agg['cut'],
           'samples': [_cap(s) for s in agg['samples']]}
    cov.update(extra)
    evidence(prop, tier, seed, cov, agg['wall'], len(new),
             getattr(prop, 'ASSUMPTIONS', []))
    if agg['err']:
        for e in agg['err'][:3]:
            print('HARNESS ERROR in case', e['i'])
            print(e['err'])
    print(f"{pid} {tier} seed={seed}: {agg['evals']} executions, "
          f"{len(agg['nontriv'])} distinct non-trivial, "
          f"{len(agg['inc'])} inconclusive, {len(agg['err'])} errors, "
          f"{len(new)} violating, {agg['wall']:.1f}s")
    print('observed:', json.dumps(cov['observed']))
    if new:
        return report(prop, new, seed, tier)
    need = getattr(prop, 'NEED', {})
    lacking = [f'{k}<{n}' for k, n in need.items()
               if agg['counts'].get(k, 0) < n]
    if agg['err'] or agg['evals'] == 0 or lacking or \
            len(agg['inc']) > max(5, 0.25 * max(1, agg['evals'])):
        print('INCONCLUSIVE:', lacking, agg['inc'][:5])
        return 3
    return 0


def report(prop, new, seed, tier):
    seen = set()
    for v in new:
        mech = v['v'][0][0]
        if mech in seen:
            continue
        seen.add(mech)
        if len(seen) <= 3 and not v.get('noshrink'):
            try:
                v['spec'] = shrink(prop, v['spec'], mech)
                o = run_case(prop, v['spec'])
                if o.violations:
                    v['v'] = o.violations
                    v['t'] = o.trace
            except BaseException:      # noqa
                pass
        path = write_replay(prop, v, seed, tier)
        print(f'-- {mech}: {v["v"][0][1]}')
        print(f'VIOLATION property={prop.ID} replay={path}')
    sys.stdout.flush()
    return 1
