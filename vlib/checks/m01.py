"""M01: Brownian paths: grid, start, increments, correlation factor, seeds, evaluation by interpolation, long-run statistics."""
import bisect
import math
from datetime import datetime, timedelta

import numpy as np
from dateutil.relativedelta import relativedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion

RULE = ('Random horizons, steps (minutes to months, dividing the horizon or not, longer than it), dimensions 1-5, correlations (identity to nearly '
        'singular), day counts and seeds; paths are compared with the accumulation of the increments of the same seed, increments with the '
        'correlation factor of the same seed, and evaluation with an independent interpolation; distinct by (start, end, step, dimension, seed).')
ASSUMPTIONS = ['Long-run statistics are judged at six standard errors on seeded samples.', 'Interpolation is judged for actual day counts.']
ACT = O.DCCS[:4]


def correlation(c, n):
    r = c.np_rng()
    kind = c.rng.choice(['identity', 'equal', 'random', 'strong', 'negative'])
    if kind == 'identity' or n == 1:
        return 'identity', np.eye(n)
    if kind == 'equal':
        rho = c.rng.uniform(-0.9 / (n - 1), 0.95)
        return kind, (1 - rho) * np.eye(n) + rho
    if kind == 'strong':
        return kind, 0.001 * np.eye(n) + 0.999
    if kind == 'negative' and n == 2:
        return kind, np.array([[1, -0.97], [-0.97, 1]])
    a = r.normal(size=(n, n + 1))
    s = a @ a.T
    d = np.sqrt(np.diag(s))
    return 'random', s / np.outer(d, d)


def factor(m):
    """Lower triangular factor by the Cholesky-Banachiewicz recursion."""
    n = len(m)
    L = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            s = m[i, j] - sum(L[i, k] * L[j, k] for k in range(j))
            L[i, j] = math.sqrt(s) if i == j else s / L[j, j]
    return L


def horizon(c, max_steps=300):
    rng = c.rng
    start = G.rdatetime(rng, 2000, 2045)
    dt, span = rng.choice([
        (relativedelta(hours=1), timedelta(hours=rng.randint(1, max_steps))), (timedelta(hours=6), timedelta(days=rng.randint(1, 60))),
        (relativedelta(days=1), timedelta(days=rng.randint(1, max_steps))), (timedelta(days=7), timedelta(days=rng.randint(3, 900))),
        (relativedelta(months=1), timedelta(days=rng.randint(20, 3000))), (relativedelta(years=1), timedelta(days=rng.randint(100, 8000))),
        (timedelta(days=2, minutes=17), timedelta(days=rng.randint(1, 200), seconds=rng.randint(0, 86399)))])
    end = start + span
    if rng.random() < 0.15:     # a last step of seconds only
        k = rng.randint(1, 6)
        end = start + k * dt + rng.choice([1, -1]) * timedelta(seconds=rng.randint(1, 59), microseconds=rng.choice([0, 250000]))
    return start, end, dt


def grid(start, end, dt):
    out, k = [], 0
    while start + k * dt <= end:
        out.append(start + k * dt)
        k += 1
    if out[-1] < end:
        out.append(end)
    return out


def at(path, ds, dcc, t):
    if isinstance(ds[0], datetime):      # a date is the beginning of its day
        t = O.midnight(t)
    i = bisect.bisect_right(ds, t) - 1
    if ds[i] == t:
        return path[:, i]
    a, b = O.frac(ds[i], t, dcc), O.frac(t, ds[i + 1], dcc)
    w = a / (a + b)
    return path[:, i] * (1 - w) + path[:, i + 1] * w


def setup(c):
    rng = c.rng
    start, end, dt = horizon(c)
    n = rng.choice([1, 1, 2, 3, 5])
    kind, corr = correlation(c, n)
    dcc = rng.choice(ACT)
    kw = {}
    if kind != 'identity' or rng.random() < 0.5:
        kw['correlation_matrix'] = corr
    if dcc != 'ACTUAL_OVER_ACTUAL' or rng.random() < 0.5:
        kw['day_count_convention'] = G.DCC[dcc]
    c.note(start=start, end=end, dt=repr(dt), dimension=n, correlation=kind, matrix=corr.tolist(), dcc=dcc)
    return start, end, dt, n, kind, corr, dcc, (lambda: BrownianMotion(start, end, dimension=n, **kw))


def paths(c):
    rng = c.rng
    start, end, dt, n, kind, corr, dcc, make = setup(c)
    keep = corr.copy()
    bm = make()
    c.raises('refused-before-generation', ValueError, lambda: bm(start))
    ds = grid(start, end, dt)
    taus = np.array([O.frac(a, b, dcc) for a, b in zip(ds, ds[1:])])
    seed = rng.choice([0, 1, rng.randrange(2**31)])
    inc, dts = make().generate_increments(dt, seed=seed)
    c.eqv('time-steps', dts, taus, 1e-9, 1e-13)
    c.same('increments-shape', np.shape(inc), (n, len(taus)))
    # The same draws with identity correlation, unit scale: increments = L Z sqrt(dt).
    base, _ = BrownianMotion(start, end, dimension=n, day_count_convention=G.DCC[dcc]).generate_increments(dt, seed=seed)
    z = base / np.sqrt(taus)
    c.eqv('correlation-factor', inc, (factor(corr) @ z) * np.sqrt(taus), 1e-8, 1e-12)
    got = bm.generate_path(dt, seed=seed) if rng.random() < 0.5 else bm.generate_path(dt=dt, set_path=True, seed=seed)
    exp = np.concatenate([np.zeros((n, 1)), np.cumsum(inc, axis=1)], axis=1)
    if not c.eqv('accumulated', got, exp, 1e-9, 1e-11):
        raise Stop
    c.eqv('starts-at-zero', got[:, 0], np.zeros(n), 0, 0)
    c.eqv('stored-path', bm.path, got, 0, 0)
    c.eqv('equal-seeds', make().generate_path(dt, seed=seed), got, 0, 0)
    c.ok('other-seed-differs', not np.array_equal(make().generate_path(dt, seed=seed + 1), got))
    other = make()
    c.ok('no-seed-differs', not np.array_equal(other.generate_path(dt), other.generate_path(dt)))
    # evaluation
    for i in {0, len(ds) - 1, rng.randrange(len(ds)), rng.randrange(len(ds))}:
        c.eqv('on-the-grid', np.asarray(bm(ds[i])).reshape(-1), exp[:, i], 1e-12, 1e-13, t=ds[i])
    for _ in range(8):
        t = start + (end - start) * rng.random()
        c.eqv('between', np.asarray(bm(t)).reshape(-1), at(exp, ds, dcc, t), 1e-8, 1e-11, t=t)
        c.event('evaluation')
        if O.midnight(t.date()) >= start:        # a date is the beginning of its day
            c.eqv('on-date', np.asarray(bm(t.date())).reshape(-1), at(exp, ds, dcc, t.date()), 1e-8, 1e-11, t=t.date())
            c.event('date')
    c.raises('date-before-start', ValueError, lambda: bm((start - timedelta(seconds=1)).date()))
    c.raises('date-after-end', ValueError, lambda: bm(end.date() + timedelta(days=1)))
    i = rng.randrange(len(ds) - 1)
    near = ds[i] + (ds[i + 1] - ds[i]) * rng.choice([0.01, 0.99])
    c.eqv('near-a-grid-point', np.asarray(bm(near)).reshape(-1), at(exp, ds, dcc, near), 1e-8, 1e-11, t=near)
    for gap in (timedelta(seconds=1), timedelta(microseconds=1), timedelta(hours=rng.randint(1, 30)), timedelta(days=400)):
        c.raises('before-start', ValueError, lambda: bm(start - gap), gap=gap)
        c.raises('after-end', ValueError, lambda: bm(end + gap), gap=gap)
    # A path generated without storing, or on another grid by another user of this motion, changes nothing.
    t = start + (end - start) * rng.random()
    v = np.array(bm(t))
    half = (end - start) / 3
    bm.generate_path(half, set_path=False, seed=3)
    bm.generate_increments(half)
    c.eqv('unstored-path-ignored', bm(t), v, 0, 0)
    bm.generate_path(half, seed=5)
    ds2 = grid(start, end, half)
    inc2, _ = make().generate_increments(half, seed=5)
    exp2 = np.concatenate([np.zeros((n, 1)), np.cumsum(inc2, axis=1)], axis=1)
    c.eqv('latest-path', np.asarray(bm(t)).reshape(-1), at(exp2, ds2, dcc, t), 1e-8, 1e-11, t=t)
    c.ok('inputs-untouched', (corr == keep).all())
    c.event('path')
    if len(ds) != len([d for d in ds if d < end]) + 1 or (ds[-1] - ds[-2]) != (ds[1] - ds[0]):
        c.event('short-last-step')
    if n > 1:
        c.event('multi-dimensional')
    c.seen(start, end, repr(dt), n, kind, dcc, seed)


def days(c):
    """Motions of dates, in steps of whole days or months."""
    rng = c.rng
    start = G.rdate(rng, 2000, 2045)
    dt = rng.choice([timedelta(days=rng.randint(1, 9)), relativedelta(days=rng.randint(1, 40)), relativedelta(weeks=2), relativedelta(months=1), relativedelta(years=1)])
    end = start + timedelta(days=rng.randint(1, 1200))
    n = rng.choice([1, 2, 3])
    kind, corr = correlation(c, n)
    dcc = rng.choice(ACT)
    make = lambda: BrownianMotion(start, end, dimension=n, correlation_matrix=corr, day_count_convention=G.DCC[dcc])
    seed = rng.randrange(2**31)
    c.note(start=start, end=end, dt=repr(dt), dimension=n, matrix=corr.tolist(), dcc=dcc)
    ds = grid(start, end, dt)
    taus = np.array([O.frac(a, b, dcc) for a, b in zip(ds, ds[1:])])
    base, _ = BrownianMotion(start, end, dimension=n, day_count_convention=G.DCC[dcc]).generate_increments(dt, seed=seed)
    inc, dts = make().generate_increments(dt, seed=seed)
    c.eqv('time-steps', dts, taus, 1e-9, 1e-13)
    c.eqv('correlation-factor', inc, factor(corr) @ base, 1e-8, 1e-12)
    bm = make()
    exp = np.concatenate([np.zeros((n, 1)), np.cumsum(inc, axis=1)], axis=1)
    if not c.eqv('accumulated', bm.generate_path(dt, seed=seed), exp, 1e-9, 1e-11):
        raise Stop
    for t in rng.sample(ds, min(3, len(ds))) + [start + timedelta(days=rng.randint(0, (end - start).days)) for _ in range(8)]:
        c.eqv('on-a-day', np.asarray(bm(t)).reshape(-1), at(exp, ds, dcc, t), 1e-8, 1e-11, t=t)
        c.event('day')
    for gap in (1, 400):
        c.raises('before-start', ValueError, lambda: bm(start - timedelta(days=gap)))
        c.raises('after-end', ValueError, lambda: bm(end + timedelta(days=gap)))
    c.seen('days', start, end, repr(dt), n, dcc, seed)


def statistics(c):
    """Long-run variance, correlation and independence of the increments."""
    rng = c.rng
    n = rng.choice([1, 2, 3])
    kind, corr = correlation(c, n)
    start = datetime(2020, 1, 1)
    dt = rng.choice([timedelta(hours=1), timedelta(hours=8)])
    N = 4000
    end = start + N * dt
    if rng.random() < 0.5:
        end += dt / 2
    dcc = rng.choice(['ACTUAL_OVER_365', 'ACTUAL_OVER_360'])
    bm = BrownianMotion(start, end, dimension=n, correlation_matrix=corr, day_count_convention=G.DCC[dcc])
    path = bm.generate_path(dt, seed=rng.randrange(2**31))
    tau = O.frac(start, start + dt, dcc)
    x = np.diff(path, axis=1)[:, :N] / math.sqrt(tau)
    c.note(dimension=n, matrix=corr.tolist(), dt=repr(dt), dcc=dcc)
    se = 6 / math.sqrt(N)
    for i in range(n):
        c.eq('mean', float(x[i].mean()), 0.0, 0, se, i=i)
        c.eq('variance', float((x[i] ** 2).mean()), 1.0, 0, se * math.sqrt(2), i=i)
        c.eq('kurtosis', float((x[i] ** 4).mean()), 3.0, 0, se * math.sqrt(96), i=i)
        c.eq('serial-correlation', float((x[i][1:] * x[i][:-1]).mean()), 0.0, 0, se, i=i)
        for j in range(i):
            c.eq('correlation', float((x[i] * x[j]).mean()), corr[i, j], 0, se * 1.5, i=i, j=j)
            c.event('correlation')
    # independent components: de-correlated draws are uncorrelated, also one step apart
    z = np.linalg.solve(factor(corr), x)
    for i in range(n):
        for j in range(i):
            c.eq('independent', float((z[i] * z[j]).mean()), 0.0, 0, se, i=i, j=j)
            c.eq('independent-lagged', float((z[i][1:] * z[j][:-1]).mean()), 0.0, 0, se, i=i, j=j)
    c.event('statistics')
    c.seen(kind, n, repr(dt), dcc, round(float(path[0, -1]), 9))


def steps(c):
    """Each increment has the variance of its own step, and the increments of different steps are uncorrelated."""
    rng = c.rng
    start = G.rdatetime(rng, 2000, 2045)
    unit = timedelta(days=rng.randint(2, 60))
    k = rng.randint(1, 4)
    n = rng.choice([1, 2])
    kind, corr = correlation(c, n)
    end, dt = start + k * unit + unit * rng.choice([0.1, 0.25, 0.0]), unit
    if rng.random() < 0.3:
        dt, end = relativedelta(months=1), start + timedelta(days=31 * k + rng.randint(1, 6))
    dcc = rng.choice(ACT)
    bm = BrownianMotion(start, end, dimension=n, correlation_matrix=corr, day_count_convention=G.DCC[dcc])
    M = 500
    stored = rng.random() < 0.5
    first = rng.randrange(2**30)
    if stored:
        x = np.array([np.diff(bm.generate_path(dt, seed=first + s), axis=1) for s in range(M)])
    else:
        x = np.array([bm.generate_increments(dt, seed=first + s)[0] for s in range(M)])
    ds = grid(start, end, dt)
    taus = np.array([O.frac(a, b, dcc) for a, b in zip(ds, ds[1:])])
    c.note(start=start, end=end, dt=repr(dt), dcc=dcc, matrix=corr.tolist(), stored=stored)
    if not c.same('steps', x.shape, (M, n, len(taus))):
        raise Stop
    z = x / np.sqrt(taus)
    se = 6 / math.sqrt(M)
    for s in range(len(taus)):
        for i in range(n):
            c.eq('step-mean', float(z[:, i, s].mean()), 0.0, 0, se, step=s, i=i)
            c.eq('step-variance', float((z[:, i, s] ** 2).mean()), 1.0, 0, se * math.sqrt(2), step=s, i=i)
            for r in range(s):
                c.eq('step-correlation', float((z[:, i, s] * z[:, i, r]).mean()), 0.0, 0, se, step=s, other=r, i=i)
        if n > 1:
            c.eq('component-correlation', float((z[:, 0, s] * z[:, 1, s]).mean()), corr[0, 1], 0, se * math.sqrt(1 + corr[0, 1] ** 2), step=s)
    if taus[-1] < 0.5 * taus[0]:
        c.event('short-last-step')
    c.event('steps')
    c.seen(start, repr(dt), len(taus), n, dcc)


def terminal(c):
    """Terminal values over many seeds have variance equal to the elapsed time, whatever the grid."""
    rng = c.rng
    start, _, _ = horizon(c)
    days = rng.randint(30, 900)
    end = start + timedelta(days=days)
    k = rng.randint(1, 9)
    dt = timedelta(days=days) / k + timedelta(minutes=rng.choice([0, 37]))
    dcc = rng.choice(ACT)
    bm = BrownianMotion(start, end, dimension=1, day_count_convention=G.DCC[dcc])
    M = 400
    v = np.array([bm.generate_path(dt, seed=s)[0, -1] for s in range(M)])
    T = O.frac(start, end, dcc)
    c.note(start=start, end=end, dt=repr(dt), dcc=dcc)
    c.eq('terminal-mean', float(v.mean()), 0.0, 0, 6 * math.sqrt(T / M))
    c.eq('terminal-variance', float((v ** 2).mean()), T, 0, 6 * T * math.sqrt(2 / M))
    c.event('terminal')
    c.seen(start, days, k, dcc)


def long(c):
    """More than a hundred thousand steps: the path still reaches the end date and accumulates every increment."""
    rng = c.rng
    start = G.rdatetime(rng, 2000, 2040)
    dt = timedelta(minutes=rng.choice([1, 3, 7]))
    n = rng.randint(101_000, 112_000)
    end = start + n * dt + rng.choice([timedelta(0), dt / 2])
    bm = BrownianMotion(start, end, day_count_convention=G.DCC['ACTUAL_OVER_365'])
    seed = rng.randrange(2**30)
    c.note(start=start, end=end, dt=repr(dt), seed=seed)
    path = bm.generate_path(dt, seed=seed)
    steps = n + (start + n * dt < end)
    c.same('one-value-per-grid-time', path.shape, (1, steps + 1))
    T = (end - start).total_seconds() / 86400 / 365
    c.eq('time-steps-cover-the-horizon', float(np.sum(bm.dt_increments)), T, 1e-9, 0)
    c.eq('quadratic-variation', float(np.sum(np.diff(path[0]) ** 2)), T, 0, 6 * T * math.sqrt(2 / steps))
    c.eq('end-value', float(np.squeeze(bm(end))), float(path[0, -1]), 0, 0)
    k = rng.randrange(100_500, steps)
    c.eq('late-value', float(np.squeeze(bm(start + k * dt))), float(path[0, k]), 0, 0)
    c.event('long')
    c.seen(start, steps, seed)


DRIVERS = [Driver('paths', paths, 240, 5000, {'path': 200, 'evaluation': 1500, 'short-last-step': 40, 'multi-dimensional': 80, 'date': 1000}),
           Driver('days', days, 80, 1500, {'day': 500}),
           Driver('statistics', statistics, 40, 400, {'statistics': 35, 'correlation': 15}),
           Driver('steps', steps, 40, 600, {'steps': 35, 'short-last-step': 8}),
           Driver('terminal', terminal, 24, 300, {'terminal': 20}),
           Driver('long', long, 1, 6, {'long': 1})]
