"""Harness: drivers generate seeded workloads against the real code, monitors record observations and violations.

A *driver* is a function ``fn(c)`` which receives a Case ``c`` (seeded rng + recorder), exercises the real
code of /repo and reports what it observed through ``c.eq / c.ok / c.raises / c.seen / c.event``.  The outcome
of a check is decided only by those observations.
"""
from __future__ import annotations

import hashlib
import json
import math
import os
import random
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_KEEP = 6          # violations kept per driver
CASE_TIMEOUT = 100    # processor seconds; a case normally takes milliseconds
CASE_WALL = 250       # seconds, on a busy machine or in child processes
STOP_AFTER = 240      # seconds; once a violation is known, stop exploring after this long
GIVE_UP = {'quick': 780, 'thorough': 6 * 3600}
MEMORY = 3 << 30      # address space per worker: a runaway workload fails inside its worker


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Raised by a driver to leave a case early (nothing more to observe)."""


@dataclass
class Driver:
    name: str
    fn: object
    quick: int
    thorough: int
    floors: dict = field(default_factory=dict)   # event -> minimal count over the run (quick tier numbers)


def _hash(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=7).digest(), 'big')


def _plain(v):
    import datetime
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v][:60]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    return repr(v)[:400]


def close(a, b, rtol, atol) -> bool:
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class Case:
    def __init__(self, pid, driver, index, seed, tier):
        self.pid, self.driver, self.index, self.seed, self.tier = pid, driver, index, seed, tier
        self.rng = random.Random(f'{seed}|{pid}|{driver}|{index}')
        self.notes = {}
        self.violations = []
        self.known = []
        self.observations = 0
        self.events = {}
        self.signatures = set()
        self.samples = []

    # -- workload description ------------------------------------------------------------------------------
    def note(self, **kw):
        self.notes.update(kw)

    def np_rng(self):
        import numpy as np
        return np.random.default_rng(self.rng.getrandbits(64))

    # -- observations ----------------------------------------------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def seen(self, *signature):
        """A distinct non-trivial observation (used to measure how diverse the observed executions were)."""
        self.signatures.add(_hash((self.driver,) + signature))
        if len(self.samples) < 2:
            self.samples.append(f'{self.driver}: ' + ', '.join(str(_plain(s)) for s in signature)[:300])

    def _fail(self, name, detail, key=None):
        rec = {'monitor': name, 'detail': _plain(detail), 'inputs': _plain(dict(self.notes))}
        if key is not None:
            rec['finding'] = key
            self.known.append(rec)
        elif len(self.violations) < 3:
            self.violations.append(rec)
        return False

    def ok(self, name, cond, /, key=None, **detail):
        self.observations += 1
        if not bool(cond):
            return self._fail(name, detail, key)
        return True

    def same(self, name, got, expected, /, key=None, **detail):
        self.observations += 1
        if not (got == expected):
            return self._fail(name, dict(got=got, expected=expected, **detail), key)
        return True

    def eq(self, name, got, expected, /, rtol=1e-9, atol=1e-12, key=None, **detail):
        self.observations += 1
        if not close(got, expected, rtol, atol):
            return self._fail(name, dict(got=got, expected=expected, rtol=rtol, atol=atol, **detail), key)
        return True

    def eqv(self, name, got, expected, /, rtol=1e-9, atol=1e-12, key=None, **detail):
        """Element-wise comparison of arrays (shape included); atol is absolute."""
        import numpy as np
        self.observations += 1
        try:
            g = np.asarray(got, dtype=float)
            e = np.asarray(expected, dtype=float)
        except (TypeError, ValueError):
            return self._fail(name, dict(got=got, expected=expected), key)
        if g.shape != e.shape:
            return self._fail(name, dict(got_shape=g.shape, expected_shape=e.shape, **detail), key)
        bad = ~np.isclose(g, e, rtol=rtol, atol=atol, equal_nan=True)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            return self._fail(name, dict(index=i, got=float(g[i]), expected=float(e[i]), n_bad=int(bad.sum()), **detail), key)
        return True

    def raises(self, name, exc, fn, /, key=None, **detail):
        self.observations += 1
        try:
            r = fn()
        except exc:
            return True
        except CaseTimeout:
            raise
        except Exception as e:  # a different exception than the stated one
            return self._fail(name, dict(raised=repr(e), expected=str(exc), **detail), key)
        return self._fail(name, dict(returned=r, expected=str(exc), **detail), key)


def _in_repo(tb) -> bool:
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
    return False


def run_case(pid, drv: Driver, index, seed, tier, quiet=True) -> Case:
    c = Case(pid, drv.name, index, seed, tier)

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    old_prof = signal.signal(signal.SIGPROF, on_alarm)
    signal.alarm(CASE_WALL)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    out = sys.stdout
    try:
        if quiet:
            sys.stdout = open(os.devnull, 'w')
        try:
            drv.fn(c)
        except Stop:
            pass
        except CaseTimeout:
            c.timed_out = True
            c._fail('terminates', dict(what=f'the case was still running after {CASE_TIMEOUT} s of processor time, or {CASE_WALL} s'))
        except Exception as e:
            tb = traceback.format_exc()
            if _in_repo(e.__traceback__):
                c._fail('no-unexpected-exception', dict(exception=repr(e)[:300], traceback=tb[-2500:]))
            elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)):
                # what the code under test returned could not be used as the stated kind of result
                c._fail('usable-result', dict(exception=repr(e)[:300], traceback=tb[-2500:]))
            else:
                c.harness_error = tb
    finally:
        if quiet:
            sys.stdout.close()
            sys.stdout = out
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, old_prof)
    return c


def _worker(args):
    pid, drv_name, indices, seed, tier = args
    drv = next(d for d in _DRIVERS if d.name == drv_name)
    res = dict(obs=0, events={}, sigs=set(), viol=[], known=[], err=None, cases=0, samples=[])
    t0 = time.time()
    for i in indices:
        c = run_case(pid, drv, i, seed, tier)
        res['cases'] += 1
        res['obs'] += c.observations
        for k, n in c.events.items():
            res['events'][k] = res['events'].get(k, 0) + n
        res['sigs'] |= c.signatures
        if len(res['samples']) < 2:
            res['samples'] += c.samples[:1]
        for v in c.violations:
            if len(res['viol']) < MAX_KEEP:
                res['viol'].append(dict(v, driver=drv.name, index=i))
        for v in c.known:
            if len(res['known']) < 200:
                res['known'].append(dict(v, driver=drv.name, index=i))
        if getattr(c, 'harness_error', None):
            res['err'] = f'{drv.name}[{i}]: {c.harness_error}'
            break
        if len(res['viol']) >= MAX_KEEP or getattr(c, 'timed_out', False):   # enough evidence; stop this shard early
            break
    res['time'] = time.time() - t0
    return drv_name, res


_DRIVERS = []


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<mechanism> <text>' lines; 'fixed:' lines suppress nothing."""
    keys = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                parts = line.split(' ', 3)
                if parts[1] == f'property={pid}' and parts[2].startswith('key='):
                    keys[parts[2][4:]] = parts[3]
    return keys


def run_check(pid, module, tier, seed, only=None):
    """Runs all drivers of a check module in parallel.  Returns the process exit code."""
    global _DRIVERS
    import multiprocessing as mp
    t0 = time.time()
    _DRIVERS = [d for d in module.DRIVERS if only is None or d.name == only]
    ncpu = min(8, os.cpu_count() or 1)
    tasks = []
    for d in _DRIVERS:
        n = d.quick * getattr(module, 'QUICK_SCALE', 4) if tier == 'quick' else d.thorough
        shards = min(n, ncpu * (2 if n > 60 else 4))
        for s in range(shards):
            tasks.append((pid, d.name, list(range(s, n, shards)), seed, tier))
    ctx = mp.get_context('fork')
    agg = {d.name: dict(obs=0, events={}, sigs=set(), viol=[], known=[], err=None, cases=0, samples=[], time=0.0)
           for d in _DRIVERS}
    unfinished = False
    with ctx.Pool(ncpu, initializer=_limit, maxtasksperchild=4) as pool:
        results = pool.imap_unordered(_worker, tasks)
        while True:
            try:
                name, r = results.next(timeout=max(1.0, GIVE_UP[tier] - (time.time() - t0)))
            except StopIteration:
                break
            except mp.TimeoutError:
                unfinished = True
                pool.terminate()
                break
            a = agg[name]
            a['obs'] += r['obs']
            a['cases'] += r['cases']
            a['time'] += r['time']
            for k, n in r['events'].items():
                a['events'][k] = a['events'].get(k, 0) + n
            a['sigs'] |= r['sigs']
            a['viol'] += r['viol']
            a['known'] += r['known']
            a['samples'] += r['samples']
            a['err'] = a['err'] or r['err']
            if a['viol'] and time.time() - t0 > STOP_AFTER:
                pool.terminate()
                break

    listed = load_known(pid)
    violations, known_lines = [], {}
    for a in agg.values():
        for v in a['viol']:
            violations.append(v)
        for v in a['known']:
            if v['finding'] in listed:
                known_lines.setdefault(v['finding'], v)
            else:
                violations.append(v)
    violations.sort(key=lambda v: (v['driver'], v['index']))

    errors = [a['err'] for a in agg.values() if a['err']]
    thin = []
    for d in _DRIVERS:
        for ev, floor in d.floors.items():
            got = agg[d.name]['events'].get(ev, 0)
            if got < floor:
                thin.append(f'{d.name}: {ev} observed {got} < {floor}')
        if agg[d.name]['obs'] == 0 and d.name != 'in_situ':  # taps see only what the library happens to call
            thin.append(f'{d.name}: no observation')

    wall = time.time() - t0
    total_obs = sum(a['obs'] for a in agg.values())
    distinct = len(set().union(*[a['sigs'] for a in agg.values()]))
    samples = [s for a in agg.values() for s in sorted(a['samples'])[:2]][:12]
    write_evidence(pid, module, tier, seed, agg, total_obs, distinct, samples, wall, violations, known_lines)

    for d in _DRIVERS:
        a = agg[d.name]
        ev = ' '.join(f'{k}={n}' for k, n in sorted(a['events'].items()))
        print(f'  {pid}/{d.name}: {a["cases"]} executions, {a["obs"]} observations, {len(a["sigs"])} distinct; {ev} [{a["time"]:.1f} cpu-s]')
    print(f'{pid} tier={tier} seed={seed}: {total_obs} observations, {distinct} distinct, {wall:.1f} s wall')
    for key, v in sorted(known_lines.items()):
        print(f'KNOWN-FINDING: property={pid} {listed[key]}')
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        shown = 0
        seen = set()
        for v in violations:
            sig = (v['driver'], v['monitor'])
            if sig in seen or shown >= 5:
                continue
            seen.add(sig)
            shown += 1
            path = os.path.join(VERIF, 'replays', f'{pid}-{v["driver"]}-{v["index"]}-s{seed}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, driver=v['driver'], index=v['index'], seed=seed, tier=tier, violation=v), f, indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'    monitor {v["monitor"]} in {v["driver"]}[{v["index"]}]: {json.dumps(v["detail"])[:1500]}')
            print(f'    inputs {json.dumps(v["inputs"])[:1500]}')
        return 1
    if unfinished:
        print('INCONCLUSIVE: the workload did not finish in time')
        return 2
    if errors:
        print('INCONCLUSIVE: harness error\n' + errors[0])
        return 2
    if thin:
        print('INCONCLUSIVE: coverage floor not met: ' + '; '.join(thin))
        return 2
    return 0


def write_evidence(pid, module, tier, seed, agg, total, distinct, samples, wall, violations, known):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': distinct,
            'rule': module.RULE,
            'samples': samples,
            'drivers': {n: dict(executions=a['cases'], observations=a['obs'], distinct=len(a['sigs']),
                                events={k: a['events'][k] for k in sorted(a['events'])}) for n, a in agg.items()},
        },
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'assumptions': list(module.ASSUMPTIONS),
    }
    if known:
        ev['coverage']['known_findings'] = sorted(known)
    path = os.path.join(VERIF, 'evidence', f'{pid}.json')
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)

