"""X01: simulated default times: grid, horizon, certain and impossible defaults, and the law of the times against an exact survival table."""
import math

import numpy as np

from ..harness import Driver, Stop
from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths

RULE = ('Random hazard functions (zero, constant, stepped, humped, certain from a time on), horizons, steps and path counts; grid and horizon of '
        'every time judged exactly, frequencies against the product of the one-step survival probabilities; distinct by (hazard, step, horizon).')
ASSUMPTIONS = ['The generator behind numpy.random is a sound source of uniform numbers.',
               'Frequencies are judged at six standard errors, so a right implementation is doubted about once in a billion judgements.']


def grid(dt, T):
    out, t = [], dt
    while t < T:
        out.append(t)
        t += dt
    return out


def layout(rng, lo=2, hi=120):
    """A step and a horizon that is clearly not, or exactly (powers of two), a multiple of the step."""
    if rng.random() < 0.4:
        dt = 2.0 ** -rng.randint(0, 8)
        T = dt * rng.randint(lo, hi)                     # on the grid: the horizon itself is not tried
    else:
        dt = rng.choice([0.01, 1 / 250, 1 / 12, 0.1, 0.25, 1.0, rng.uniform(0.001, 0.5)])
        T = dt * (rng.randint(lo, hi) + rng.uniform(0.2, 0.8))
    return dt, T


class Recorded:
    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, t):
        self.calls.append(float(np.max(t)))
        return self.fn(t)


def on_grid(c, times, g, dt):
    ok = True
    for t in times[~np.isnan(times)]:
        k = int(round(t / dt)) - 1
        ok = c.ok('on-the-grid', 0 <= k < len(g) and abs(g[k] - t) < 1e-9 * (1 + t), time=float(t), dt=dt) and ok
    return ok


def shapes(c):
    """Grid, horizon and shape for any hazard; impossible and certain defaults exactly."""
    rng = c.rng
    dt, T = layout(rng)
    g = grid(dt, T)
    n = rng.choice([0, 1, 2, 5, 20])
    np.random.seed(rng.randrange(2 ** 31))
    kind = rng.choice(['zero', 'certain', 'certain-later', 'never-reached', 'random', 'short-horizon', 'alternating'])
    c.note(kind=kind, dt=dt, horizon=T, paths=n)
    if kind == 'short-horizon':
        T = dt * rng.choice([1.0, 0.5, 0.99])
        out = default_bernoulli_paths(lambda t: 2 / dt, T, dt, n)
        c.same('paths', np.shape(out), (n,))
        c.ok('nothing-to-try', bool(np.isnan(out).all()), out=list(out))
    elif kind == 'zero':
        out = default_bernoulli_paths(lambda t: 0.0, T, dt, n)
        c.same('paths', np.shape(out), (n,))
        c.ok('no-default-at-zero-hazard', bool(np.isnan(out).all()), out=list(out))
    elif kind == 'certain':
        h = rng.choice([1.0, 1.5, 10.0]) / dt
        out = default_bernoulli_paths(lambda t: h, time_to_maturity=T, dt=dt, num_paths=n)
        c.eqv('immediate-when-certain', out, np.full(n, g[0]), 1e-12, 0)
    elif kind == 'certain-later':
        j = rng.choice([0, 1, len(g) // 2, len(g) - 1, len(g) - 1])
        f = Recorded(lambda t: 1.0001 / dt if t > g[j] - 0.5 * dt else 0.0)
        out = default_bernoulli_paths(f, T, dt=dt, num_paths=n)
        c.eqv('at-the-first-certain-time', out, np.full(n, g[j]), 1e-9, 0)
    elif kind == 'never-reached':
        out = default_bernoulli_paths(lambda t: 2 / dt if t > g[-1] + 0.1 * dt else 0.0, T, dt, n)
        c.ok('nothing-at-or-past-the-horizon', bool(np.isnan(out).all()), out=list(out))
    else:
        p = rng.choice([0.02, 0.2, 0.6])
        f = Recorded((lambda t: p / dt) if kind == 'random' else (lambda t: p / dt if int(round(t / dt)) % 2 else 0.0))
        out = default_bernoulli_paths(f, T, dt, n)
        c.same('paths', np.shape(out), (n,))
        on_grid(c, out, g, dt)
        for t in f.calls:
            k = int(round(t / dt)) - 1
            c.ok('hazard-evaluated-on-the-grid', 0 <= k < len(g) and abs(g[k] - t) < 1e-9 * (1 + t), time=t)
        if kind == 'alternating':
            hit = out[~np.isnan(out)]
            c.ok('no-default-where-hazard-is-zero', all(int(round(t / dt)) % 2 for t in hit), out=list(out))
    if rng.random() < 0.2:
        out = default_bernoulli_paths(lambda t: 0.0, 0.05)
        c.same('default-number-of-paths', np.shape(out), (1000,))
        c.ok('default-zero', bool(np.isnan(out).all()))
        out = default_bernoulli_paths(lambda t: 200.0, 0.05)
        c.eqv('default-step', out, np.full(1000, 0.01), 1e-12, 0)
    c.event(kind)
    c.seen(kind, round(dt, 9), round(T, 9), n)


def hazard(rng, dt, T):
    base = rng.uniform(0.3, 2.5) / T
    kind = rng.choice(['constant', 'stepped', 'humped', 'rising', 'delayed'])
    if kind == 'constant':
        return kind, lambda t: base
    if kind == 'stepped':
        at, mult = T * rng.uniform(0.2, 0.8), rng.uniform(2, 6)
        return kind, lambda t: base * (mult if t > at else 0.3)
    if kind == 'humped':
        at, w = T * rng.uniform(0.2, 0.8), T * rng.uniform(0.05, 0.3)
        return kind, lambda t: 3 * base * math.exp(-((t - at) / w) ** 2)
    if kind == 'rising':
        return kind, lambda t: 2 * base * t / T
    at = T * rng.uniform(0.3, 0.6)
    return kind, lambda t: 3 * base if t > at else 0.0


def law(c):
    """Frequencies of default by every tested time match one minus the survival probability."""
    rng = c.rng
    dt, T = layout(rng, 4, 24)
    g = grid(dt, T)
    n = 6000 if c.tier == 'quick' else 20000
    kind, f = hazard(rng, dt, T)
    c.note(kind=kind, dt=dt, horizon=T, paths=n)
    p = np.array([min(1.0, max(0.0, f(t) * dt)) for t in g])
    S = np.cumprod(1 - p)
    np.random.seed(rng.randrange(2 ** 31))
    out = np.asarray(default_bernoulli_paths(f, T, dt, n))
    c.same('paths', out.shape, (n,))
    hit = out[~np.isnan(out)]
    idx = np.rint(hit / dt).astype(int) - 1
    if not on_grid(c, hit[:50], g, dt) or (len(idx) and (idx.min() < 0 or idx.max() >= len(g))):
        c.ok('on-the-grid', False, indices=[int(idx.min()), int(idx.max())], n=len(g))
        raise Stop
    counts = np.bincount(idx, minlength=len(g))
    for k in range(len(g)):
        q = 1 - S[k]
        got = counts[:k + 1].sum() / n
        se = math.sqrt(max(q * (1 - q), 1e-12) / n)
        c.ok('default-frequency', abs(got - q) <= 6 * se + 8.0 / n, time=g[k], got=got, expected=q, se=se)
    c.event('frequency', len(g))
    # independence between paths: neighbours default by the median time as often as two unrelated paths do
    m = int(np.argmin(np.abs(S - 0.5)))
    by = np.zeros(n)
    by[~np.isnan(out)] = idx <= m
    q = 1 - S[m]
    if 0.1 < q < 0.9:
        for lag in (1, 2, 7):
            r = float(np.mean((by[lag:] - q) * (by[:-lag] - q)) / (q * (1 - q)))
            c.ok('independent-paths', abs(r) <= 6 / math.sqrt(n - lag) + 5.0 / n, lag=lag, correlation=r)
        c.event('independence')
        again = np.asarray(default_bernoulli_paths(f, T, dt, 300))
        c.ok('fresh-draws', not np.array_equal(np.nan_to_num(again, nan=-1), np.nan_to_num(out[:300], nan=-1)))
    c.event(kind)
    c.seen(kind, round(dt, 9), round(T, 9), int(counts.sum()))


DRIVERS = [Driver('shapes', shapes, 300, 6000, {'zero': 15, 'certain': 15, 'certain-later': 15, 'never-reached': 15, 'random': 15, 'short-horizon': 15, 'alternating': 15}),
           Driver('law', law, 40, 300, {'frequency': 300, 'independence': 10, 'constant': 2, 'stepped': 2, 'humped': 2, 'rising': 2, 'delayed': 2})]
