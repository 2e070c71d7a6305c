"""M02: diffusion and geometric Brownian paths against an independent Euler recursion driven by the same Brownian increments."""
from datetime import timedelta

import numpy as np
from dateutil.relativedelta import relativedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion, geometric_brownian_motion_drift_diffusion
from . import m01

RULE = ('Random diffusions of 1-6 coordinates with state- and time-dependent, coupled drifts and volatilities, as many, fewer or more driving '
        'motions than coordinates, correlated or not, and geometric Brownian motions; each path is compared with an independent step-by-step '
        'recursion on the increments of the same seed; distinct by (coordinates, motions, steps, seed, terminal value).')
ASSUMPTIONS = ['Coefficients are deterministic functions of time and state.', 'The driving increments of a seed are those the Brownian motion itself reports for it.']


def coefficients(c, d, m):
    """{name: (drift, diffusion)}, smooth and bounded, with the reference evaluated from the same parameters."""
    rng = c.rng
    out = {}
    names = [f'x{i}' for i in range(d)]
    if rng.random() < 0.5:
        names = rng.sample(['zeta', 'alpha', 'mu', 'beta', 'short', 'long'], d)
    for i in range(d):
        a = [rng.uniform(-1, 1) for _ in range(d)]
        b, w, s = rng.uniform(-1, 1), rng.uniform(0, 6), [rng.uniform(-0.5, 0.5) for _ in range(m)]
        tdep, xdep = rng.random() < 0.6, rng.random() < 0.6

        def drift(t, x, a=a, b=b, w=w, tdep=tdep):
            return float(np.dot(a, np.tanh(x)) + b + (np.sin(w * t) + t if tdep else 0.0))

        def diffusion(t, x, s=s, w=w, i=i, tdep=tdep, xdep=xdep):
            return np.array(s) * (1 + (0.5 * np.tanh(x[i]) + 0.1 * np.tanh(x[0]) if xdep else 0.0)) * (1 + (0.3 * np.cos(w * t) if tdep else 0))
        out[names[i]] = (drift, diffusion)
    return out


def euler(coeffs, x0, inc, taus):
    x = np.array(x0, dtype=float)
    out, t = [x.copy()], 0.0
    for k in range(inc.shape[1]):
        dx = np.array([mu(t, x.copy()) * taus[k] + float(np.dot(sg(t, x.copy()), inc[:, k])) for mu, sg in coeffs.values()])
        x = x + dx
        t += taus[k]
        out.append(x.copy())
    return np.array(out).T


def diffusions(c):
    rng = c.rng
    start, end, dt = m01.horizon(c, 120)
    d = rng.choice([1, 1, 2, 3, 4, 5, 6])
    m = d if rng.random() < 0.6 else rng.randint(1, 4)
    kind, corr = m01.correlation(c, m)
    dcc = rng.choice(m01.ACT)
    coeffs = coefficients(c, d, m)
    x0 = np.array([rng.uniform(-1, 1) for _ in range(d)])
    given = x0.copy()
    form = rng.choice(['array', 'list', 'int'] + (['float'] if d == 1 else []))
    if form == 'int':
        x0 = np.array([float(rng.randint(-2, 3)) for _ in range(d)])
        given = np.array(x0, dtype=int)
    given = {'array': given, 'list': [float(v) for v in x0], 'int': given, 'float': float(x0[0])}[form]
    keep = np.array(given, copy=True)
    seed = rng.choice([0, rng.randrange(2**31)])
    c.note(start=start, end=end, dt=repr(dt), coordinates=list(coeffs), motions=m, correlation=kind, dcc=dcc, x0=x0.tolist(), form=form, seed=seed)
    make = lambda: BrownianMotion(start, end, dimension=m, correlation_matrix=corr, day_count_convention=G.DCC[dcc])
    ds = m01.grid(start, end, dt)
    taus = [O.frac(a, b, dcc) for a, b in zip(ds, ds[1:])]
    inc, _ = make().generate_increments(dt, seed=seed)
    exp = euler(coeffs, x0, inc, taus)
    bm = make()
    proc = DiffusionProcess({k: DriftDiffusionPair(*v) for k, v in coeffs.items()}, bm, dt=dt)
    c.raises('refused-before-generation', ValueError, lambda: proc(start))
    if rng.random() < 0.5:
        proc.generate_path(given, set_path=False, seed=seed)
        c.ok('unstored-leaves-none', proc.path is None)
        c.raises('unstored-refused', ValueError, lambda: proc(start))
    got = proc.generate_path(given, seed=seed)
    if not c.eqv('euler', got, exp, 1e-8, 1e-9):
        raise Stop
    c.eqv('start', got[:, 0], x0, 0, 0)
    c.eqv('stored', proc.path, got, 0, 0)
    c.ok('start-untouched', np.array_equal(np.asarray(given), keep))
    again = DiffusionProcess({k: DriftDiffusionPair(*v) for k, v in coeffs.items()}, make(), dt=dt)
    c.eqv('equal-seeds', again.generate_path(given, seed=seed), got, 0, 0)
    c.eqv('equal-seeds-same-object', proc.generate_path(given, set_path=False, seed=seed), got, 0, 0)
    for _ in range(5):
        t = start + (end - start) * rng.random()
        c.eqv('between', np.asarray(proc(t)).reshape(-1), m01.at(exp, ds, dcc, t), 1e-8, 1e-9, t=t)
        if O.midnight(t.date()) >= start:        # a date is the beginning of its day
            c.eqv('on-date', np.asarray(proc(t.date())).reshape(-1), m01.at(exp, ds, dcc, t.date()), 1e-8, 1e-9, t=t.date())
    i = rng.randrange(len(ds))
    c.eqv('on-the-grid', np.asarray(proc(ds[i])).reshape(-1), exp[:, i], 1e-8, 1e-9, t=ds[i])
    c.raises('outside', ValueError, lambda: proc(end + timedelta(seconds=1)))
    c.raises('outside-left', ValueError, lambda: proc(start - timedelta(seconds=1)))
    # other users of the same Brownian motion, and paths which are not stored, do not disturb this path
    t = start + (end - start) * rng.random()
    v = np.array(proc(t))
    bm.generate_increments((end - start) / 4)
    bm.generate_path((end - start) / 7, seed=2)
    proc.generate_path(given, set_path=False)
    c.eqv('own-grid', proc(t), v, 0, 0)
    # another step: old path is gone, the new one follows the new step
    dt2 = (end - start) / rng.randint(1, 6)
    proc.set_dt(dt2)
    c.raises('no-path-after-new-step', ValueError, lambda: proc(t))
    inc2, _ = make().generate_increments(dt2, seed=seed)
    ds2 = m01.grid(start, end, dt2)
    exp2 = euler(coeffs, x0, inc2, [O.frac(a, b, dcc) for a, b in zip(ds2, ds2[1:])])
    c.eqv('euler-new-step', proc.generate_path(given, seed=seed), exp2, 1e-8, 1e-9)
    c.eqv('between-new-step', np.asarray(proc(t)).reshape(-1), m01.at(exp2, ds2, dcc, t), 1e-8, 1e-9, t=t)
    c.ok('seedless-differs', not np.array_equal(proc.generate_path(given), proc.generate_path(given)))
    c.event('diffusion')
    c.event('steps', len(taus))
    if m != d:
        c.event('other-number-of-motions')
    if d > 1:
        c.event('multi-dimensional')
    c.seen(d, m, len(ds), seed, round(float(exp[0, -1]), 9))


def geometric(c):
    rng = c.rng
    start, end, dt = m01.horizon(c, 200)
    n = rng.choice([1, 2, 3, 4, 6])
    kind, corr = m01.correlation(c, n)
    mu, sigma = rng.uniform(-0.2, 0.3), rng.choice([0.0, 0.25, rng.uniform(0.01, 0.6)])
    x0 = np.array([rng.uniform(0.5, 200) for _ in range(n)])
    if rng.random() < 0.15:       # the steps are relative whatever the sign
        x0[rng.randrange(n)] *= rng.choice([-1, -1, 0.001])
    seed = rng.choice([0, rng.randrange(2**31)])
    kw = {} if kind == 'identity' and rng.random() < 0.5 else dict(correlation_matrix=corr)
    c.note(start=start, end=end, dt=repr(dt), n=n, mu=mu, sigma=sigma, x0=x0.tolist(), seed=seed, correlation=kind)
    make = lambda: GeometricBrownianMotion(mu, sigma, start, end, dimension=n, dt=dt, **kw)
    g = make()
    keep = x0.copy()
    if rng.random() < 0.5:
        g.generate_path(x0, set_path=False, seed=seed)
        c.ok('unstored-leaves-none', g.path is None)
    got = g.generate_path(x0, seed=seed)
    ds = m01.grid(start, end, dt)
    taus = np.array([O.frac(a, b, 'ACTUAL_OVER_ACTUAL') for a, b in zip(ds, ds[1:])])
    inc, _ = BrownianMotion(start, end, dimension=n, correlation_matrix=corr).generate_increments(dt, seed=seed)
    steps = 1 + mu * taus + sigma * inc
    exp = np.concatenate([x0[:, None], x0[:, None] * np.cumprod(steps, axis=1)], axis=1)
    if not c.eqv('relative-steps', got, exp, 1e-8, 1e-10):
        raise Stop
    c.eqv('stored', g.path, got, 0, 0)
    c.ok('start-untouched', np.array_equal(x0, keep))
    c.eqv('equal-seeds', make().generate_path(x0, seed=seed), got, 0, 0)
    c.eqv('scales', make().generate_path(3 * x0, seed=seed), 3 * got, 1e-10, 0)
    if rng.random() < 0.5:
        c.eqv('list-start', make().generate_path([float(v) for v in x0], seed=seed), got, 0, 0)
    s = float(x0[0])
    c.eqv('scalar-start', make().generate_path(s, seed=seed), s * exp / x0[:, None], 1e-8, 1e-10)
    if rng.random() < 0.5:
        c.eqv('integer-start', make().generate_path(np.full(n, 100), seed=seed), 100 * exp / x0[:, None], 1e-8, 1e-10)
    g.generate_path(2 * x0, set_path=False, seed=seed)
    c.eqv('unstored-ignored', g.path, got, 0, 0)
    pair = geometric_brownian_motion_drift_diffusion(mu, sigma)
    c.eq('own-drift', pair.drift(0.3, 7.0), 7 * mu)
    c.eq('own-volatility', pair.diffusion(0.3, 7.0), 7 * sigma)
    c.event('geometric')
    if n > 1:
        c.event('multi-dimensional')
    c.seen(n, len(ds), seed, round(float(exp[0, -1]), 9))


def evaluations(c):
    """Which (time, state) each coefficient is evaluated at, observed through the coefficients themselves."""
    rng = c.rng
    start, end, dt = m01.horizon(c, 60)
    dcc = rng.choice(m01.ACT)
    d = rng.choice([1, 2, 3])
    seen = {i: {'mu': [], 'sg': []} for i in range(d)}
    col = {}
    for i in range(d):
        def mu(t, x, i=i):
            seen[i]['mu'].append((float(t), tuple(np.ravel(x).tolist())))
            return 0.1 * (i + 1) - 0.2 * float(np.ravel(x)[i])

        def sg(t, x, i=i):
            seen[i]['sg'].append((float(t), tuple(np.ravel(x).tolist())))
            return np.full(d, 0.05 * (i + 1))
        col[f's{i}'] = DriftDiffusionPair(mu, sg)
    bm = BrownianMotion(start, end, dimension=d, day_count_convention=G.DCC[dcc])
    proc = DiffusionProcess(col, bm, dt=dt)
    path = proc.generate_path(np.full(d, 0.3), seed=1)
    ds = m01.grid(start, end, dt)
    c.note(start=start, end=end, dt=repr(dt), dcc=dcc, d=d)
    times = np.array([0.0] + list(np.cumsum([O.frac(a, b, dcc) for a, b in zip(ds, ds[1:])])))[:-1]
    for i in range(d):
        for k in ('mu', 'sg'):
            calls = seen[i][k]
            # one evaluation point per step: the step's start (repeated evaluations at the same point are harmless)
            pts = sorted(set(calls))
            c.same('evaluation-points', len(pts), len(times), coordinate=i, coefficient=k)
            if len(pts) == len(times):
                c.eqv('evaluation-times', [p[0] for p in pts], times, 1e-8, 1e-11, coordinate=i, coefficient=k)
                c.eqv('evaluation-states', np.array([p[1] for p in pts]).T, path[:, :-1], 1e-12, 0, coordinate=i, coefficient=k)
            c.event('evaluations', len(calls))
    c.seen(start, end, repr(dt), d)


def default_step(c):
    """Without a step of its own a process steps by the hour, whatever another process steps by."""
    rng = c.rng
    start = G.rdatetime(rng, 2000, 2045)
    end = start + timedelta(minutes=rng.randint(90, 4000))
    seed = rng.randrange(2**31)
    c.note(start=start, end=end, seed=seed)
    ds = m01.grid(start, end, timedelta(hours=1))
    taus = [O.frac(a, b, 'ACTUAL_OVER_ACTUAL') for a, b in zip(ds, ds[1:])]
    coeffs = coefficients(c, 1, 1)
    inc, _ = BrownianMotion(start, end, dimension=1).generate_increments(timedelta(hours=1), seed=seed)
    other = DiffusionProcess({k: DriftDiffusionPair(*v) for k, v in coeffs.items()}, BrownianMotion(start, end, dimension=1))
    other.set_dt(timedelta(minutes=20))
    other.generate_path(0.4, seed=seed)
    proc = DiffusionProcess({k: DriftDiffusionPair(*v) for k, v in coeffs.items()}, BrownianMotion(start, end, dimension=1))
    c.eqv('hourly-diffusion', proc.generate_path(0.4, seed=seed), euler(coeffs, [0.4], inc, taus), 1e-8, 1e-11)
    g = GeometricBrownianMotion(0.1, 0.3, start, end)
    c.eqv('hourly-geometric', np.ravel(g.generate_path(2.0, seed=seed)),
          np.concatenate([[2.0], 2 * np.cumprod(1 + 0.1 * np.array(taus) + 0.3 * inc[0])]), 1e-8, 1e-11)
    c.event('default-step')
    c.seen(start, end, seed)


DRIVERS = [Driver('diffusions', diffusions, 200, 4000, {'diffusion': 180, 'other-number-of-motions': 30, 'multi-dimensional': 80}),
           Driver('geometric', geometric, 160, 3000, {'geometric': 140, 'multi-dimensional': 60}),
           Driver('default_step', default_step, 24, 200, {'default-step': 20}),
           Driver('evaluations', evaluations, 40, 600, {'evaluations': 2000})]
