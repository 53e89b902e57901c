"""Bounded exhaustive explorer.

A check module provides
    ID, TITLE
    groups(tier)  -> list of (weight, [case, ...]); a case is a JSON-able dict, the full enumeration of
                     the bounded space, in a fixed order, independent of any seed;
    run(case, S)  -> drives the real code for one case and reports into the collector S.
The explorer deals the groups to worker processes, collects the measured counters, writes the evidence
and the replay files, and applies the known-findings file.
"""
import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MEENT_REPO', '/repo')
MAX_VIOLATIONS = 25


class ImplError(Exception):
    """The code under test raised on an input for which the property demands a result."""


class Collector:
    """Counters and violations of one case."""

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.violations = []
        self.known = []
        self.worst = 0.0

    def state(self, key):
        """Record a distinct state of the explored space (configuration / history)."""
        self.states.add(hashlib.md5(json.dumps(key, sort_keys=True, default=str).encode()).digest()[:8])

    def call(self, what, fn, *a, **k):
        """One transition: a call into the code under test. Raising is itself a failure of the property."""
        self.transitions += 1
        try:
            return fn(*a, **k)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f'{os.path.relpath(f.filename, REPO)}:{f.name}' for f in reversed(tb)
                          if f.filename.startswith(REPO)), '')
            raise ImplError(f'{what}: raised {type(e).__name__}: {str(e)[:200]} [{where}]')

    def fail(self, key, text):
        self.violations.append((key, text))

    def close(self, key, got, want, tol, what=''):
        """|got - want| <= tol, shapes equal, everything finite."""
        import numpy as np
        self.comparisons += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f'{key}: {what} shape {got.shape} instead of {want.shape}')
            return False
        if got.size == 0:
            return True
        d = np.abs(got - want)
        if not np.all(np.isfinite(got)):
            self.fail(key, f'{key}: {what} not finite')
            return False
        w = float(d.max() / tol) if tol else float(d.max())
        self.worst = max(self.worst, w)
        if not np.all(d <= tol):
            i = np.unravel_index(np.argmax(d), d.shape) if d.shape else ()
            self.fail(key, f'{key}: {what} differs by {float(d.max()):.3e} (tol {tol:.1e}) at {tuple(int(v) for v in i)}: '
                           f'got {complex(got[i]):.6g}, want {complex(want[i]):.6g}')
            return False
        return True

    def true(self, key, cond, text):
        self.comparisons += 1
        if not cond:
            self.fail(key, f'{key}: {text}')
        return bool(cond)


def run_case(mod, case):
    s = Collector(case)
    try:
        mod.run(case, s)
    except ImplError as e:
        s.fail('exception', f'exception: {e}')
    except (OSError, MemoryError):
        raise
    except Exception as e:      # what the code returned could not even be compared
        f = traceback.extract_tb(e.__traceback__)[-1]
        s.fail('uninterpretable', f'uninterpretable: {type(e).__name__}: {str(e)[:200]} [{os.path.basename(f.filename)}:{f.lineno} {f.name}]')
    return s


_mod = None


def _init(name):
    global _mod
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    _mod = importlib.import_module(name)
    if os.environ.get('MC_COV'):
        _coverage(os.environ['MC_COV'])
    from mc import meentio
    meentio.mods()


def _coverage(path):
    """Developer aid: record which lines of the package a check executes (never part of a verdict)."""
    mon, seen = sys.monitoring, set()
    mon.use_tool_id(mon.COVERAGE_ID, 'mc')

    def line(code, no):
        if code.co_filename.startswith(REPO + '/meent/'):
            seen.add(f'{code.co_filename[len(REPO) + 1:]}:{no}')
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump():
        with open(f'{path}.{os.getpid()}', 'w') as f:
            f.write('\n'.join(sorted(seen)))
    global _dump
    _dump = dump


_dump = lambda: None


def _work(args):
    gi, cases = args
    out = []
    t0 = time.time()
    try:
        for case in cases:
            t1 = time.time()
            s = run_case(_mod, case)
            _trim()
            out.append((case, s.states, s.transitions, s.traces, s.comparisons, s.violations, s.known, s.worst,
                        time.time() - t1))
        _dump()
        return gi, out, None, time.time() - t0
    except BaseException:
        return gi, out, traceback.format_exc() + '\ncase: ' + json.dumps(case)[:2000], time.time() - t0


_trims = [0]


def _trim():
    """Compiled JAX programs hold memory maps, of which a process has only so many."""
    _trims[0] += 1
    if 'jax' in sys.modules and _trims[0] % 10 == 0:
        with open('/proc/self/maps', 'rb') as f:
            n = sum(1 for _ in f)
        if n > 25000:
            sys.modules['jax'].clear_caches()


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings'] if k['property'] == pid]


def main(pid, tier, replay=None, only=None, verbose=False):
    name = f'mc.checks.{pid.lower()}'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mod = importlib.import_module(name)
    known = load_known(pid)
    t0 = time.time()

    if replay:
        case = json.load(open(replay))['case']
        _init(name)
        s = run_case(mod, case)
        for key, text in s.violations:
            print(text)
        print('REPRODUCED' if s.violations else 'not reproduced')
        return 1 if s.violations else 0

    groups = mod.groups(tier)
    order = sorted(range(len(groups)), key=lambda i: -groups[i][0])
    tasks = [(i, groups[i][1]) for i in order]
    total = sum(len(g[1]) for g in groups)
    nproc = int(os.environ.get('MC_PROCS', min(8, os.cpu_count() or 1)))
    states, samples, viol, known_hits = set(), [], [], {}
    transitions = traces = comparisons = done = 0
    worst = 0.0
    error = None
    stopped = False
    timing = []
    pool = cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork'), initializer=_init, initargs=(name,))
    try:
        for fut in cf.as_completed([pool.submit(_work, t) for t in tasks]):
            gi, out, err, dt = fut.result()
            timing.append((dt, gi, len(out)))
            for case, st, tr, tc, cmp_, vs, kn, w, dtc in out:
                done += 1
                states |= st
                transitions += tr
                traces += tc
                comparisons += cmp_
                worst = max(worst, w)
                for key, text in vs:
                    hit = next((k for k in known if k['key'] == key), None)
                    if hit:
                        known_hits.setdefault(hit['key'], hit['what'])
                    else:
                        viol.append((case, key, text))
                if len(samples) < 3 and not vs and (done % max(1, total // 3) == 0 or done == 1):
                    samples.append(case)
            if err and error is None:
                error = err
            if len(viol) >= MAX_VIOLATIONS or error:
                stopped = True
                break
    except cf.process.BrokenProcessPool:
        error = 'a worker process died'
        stopped = True
    finally:
        procs = list((getattr(pool, '_processes', None) or {}).values())
        pool.shutdown(wait=not stopped, cancel_futures=True)
        if stopped:
            for p in procs:
                p.kill()
    wall = time.time() - t0
    if not samples:
        samples = [groups[0][1][0]]
    exhaustive = not stopped and done == total
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='model_checking',
              coverage=dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
                            cases=done, cases_enumerated=total, comparisons=comparisons, groups=len(groups),
                            worst_deviation_over_tolerance=worst, samples=samples, exhaustive=exhaustive,
                            bounds=getattr(mod, 'BOUNDS', '')),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=len(viol), known_findings=sorted(known_hits))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if verbose:
        for dt, gi, n in sorted(timing)[::-1][:8]:
            print(f'  group {gi}: {n} cases {dt:.1f}s')
    print(f'{pid} {tier}: {done}/{total} cases, {len(states)} states, {transitions} transitions, {traces} traces, '
          f'{comparisons} comparisons, worst {worst:.2e} of tolerance, {wall:.1f}s')
    for k in sorted(known_hits):
        print(f'KNOWN-FINDING: property={pid} {known_hits[k]}')
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        case, key, text = viol[0]
        path = os.path.join(VERIF, 'replays', f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=case, key=key, text=text,
                           others=[t for _, _, t in viol[1:]]), f, indent=1)
        seen = {}
        for c, k, t in viol:
            seen.setdefault(k, []).append(t)
        for k in list(seen)[:15]:
            print(f'  [{len(seen[k])}x] {seen[k][0][:260]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if error:
        print('ERROR in the machinery:\n' + error, file=sys.stderr)
        return 2
    return 0
