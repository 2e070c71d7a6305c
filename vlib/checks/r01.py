"""R01: short rate, integral, discount and accrual curves against the state path, across regeneration, new steps and other grids."""
import math
from datetime import datetime, timedelta

import numpy as np

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.assets.base_cashflow import ZeroCoupon
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
from . import m01
from .models import VasicekModel, span

RULE = ('Random short-rate models (one-factor mean-reverting, multi-state with linear and non-linear transformations, negative rates) through '
        'histories of path generation, step changes, default and custom grids and curve creation in any order; every query is judged against the '
        'trapezoid of the transformed current state path; distinct by (model kind, grid, history, integral).')
ASSUMPTIONS = ['Grids for curves begin at the start of the model; every grid ends at or before its end.', 'Day counts are the actual ones.']


def make(c):
    rng = c.rng
    start, end, dt = span(rng, 20, 1500)
    dcc = rng.choice(m01.ACT)
    kind = rng.choice(['vasicek', 'vasicek', 'sum', 'square', 'exp', 'steep'])
    n = 1 if kind == 'vasicek' else rng.choice([1, 2, 3])
    bm = BrownianMotion(start, end, dimension=n, day_count_convention=G.DCC[dcc])
    if kind == 'vasicek':
        model = VasicekModel(rng.uniform(-0.02, 0.08), rng.uniform(0.05, 2), rng.uniform(0.001, 0.08), bm, dt=dt)
        f = lambda x: float(np.ravel(x)[0])
        x0 = rng.uniform(-0.03, 0.08)
    else:
        col = {}
        for i in range(n):
            k, th, s = rng.uniform(0.1, 2), rng.uniform(-0.02, 0.06), np.array([rng.uniform(-0.04, 0.04) for _ in range(n)])
            col[f'x{i}'] = DriftDiffusionPair(lambda t, x, i=i, k=k, th=th: k * (th - x[i]), lambda t, x, s=s: s)
        f = {'sum': lambda x: float(0.01 + np.sum(x)), 'square': lambda x: float(np.sum(np.square(x)) - 0.001),
             'exp': lambda x: float(0.02 * np.exp(10 * x[0])), 'steep': lambda x: float(60 * np.sum(x))}[kind]
        model = ShortRateModel(f, DiffusionProcess(col, bm, dt=dt))
        x0 = np.array([rng.uniform(-0.02, 0.08) for _ in range(n)])
    c.note(kind=kind, start=start, end=end, dt=repr(dt), dcc=dcc, states=n)
    return model, bm, f, x0, start, end, dt, dcc, kind, n


class Ref:
    def __init__(self, state, ds, dcc, f, start):
        self.state, self.ds, self.dcc, self.f, self.start = np.array(state, copy=True), ds, dcc, f, start

    def rate(self, t):
        return self.f(m01.at(self.state, self.ds, self.dcc, t))

    def integral(self, grid):
        out, r = [0.0], [self.rate(t) for t in grid]
        F = [O.frac(self.start, t, self.dcc) for t in grid]
        for k in range(1, len(grid)):
            out.append(out[-1] + 0.5 * (r[k] + r[k - 1]) * (F[k] - F[k - 1]))
        return np.array(out)


def default_grid(start, end, dt):
    return [d for d in m01.grid(start, end, dt) if d < end or True]


def stepping(start, end, dt):
    out, k = [], 0
    while start + k * dt <= end:
        out.append(start + k * dt)
        k += 1
    return out


def own_grid(c, start, end):
    rng = c.rng
    ts = {start + (end - start) * rng.random() for _ in range(rng.randint(1, 12))}
    if rng.random() < 0.3:      # points only moments apart
        ts |= {t + timedelta(seconds=rng.choice([0.001, 1, 10])) for t in ts}
    ts = sorted(ts)
    return [start] + [t for t in ts if start < t < end] + ([end] if rng.random() < 0.5 else [])


def judge(c, model, ref, start, end, dt, what):
    rng = c.rng
    F = lambda t: O.frac(start, t, ref.dcc)
    if what == 'rate':
        for t in [start, end] + [start + (end - start) * rng.random() for _ in range(4)]:
            c.eq('short-rate', float(np.squeeze(model(t))), ref.rate(t), 1e-8, 1e-12, t=t)
            if isinstance(t, datetime) and O.midnight(t.date()) >= start:      # a date is the beginning of its day
                c.eq('short-rate-on-date', float(np.squeeze(model(t.date()))), ref.rate(O.midnight(t.date())), 1e-8, 1e-12, t=t.date())
        c.eqv('short-rate-path', np.ravel(model.short_rate_path), [ref.f(ref.state[:, k]) for k in range(len(ref.ds))], 1e-10, 1e-14)
        c.event('rate', 6)
        return
    grid = None if rng.random() < 0.5 else own_grid(c, start, end)
    use = grid if grid is not None else stepping(start, end, dt)
    if len(use) < 2:
        return
    kw = {} if grid is None else dict(datetimes=grid)
    exp = ref.integral(use)
    tol = 1e-10 * (1 + np.abs(exp).max())
    if what == 'integral':
        got = model.generate_integrated_path(**kw)
        c.eqv('integral', np.ravel(got), exp, 1e-8, tol)
        c.eqv('integral-stored', np.ravel(model.integrated_path), exp, 1e-8, tol)
        # additive: integrating in two grids which share a point
        if len(use) > 3:
            k = rng.randrange(1, len(use) - 1)
            c.eq('additive', float(np.ravel(model.generate_integrated_path(use[:k + 1]))[-1]), float(exp[k]), 1e-8, tol)
        if rng.random() < 0.5:  # a grid which begins later: only the area under its own part
            late = use[rng.randrange(1, len(use)):] if rng.random() < 0.5 else sorted({start + (end - start) * rng.random() for _ in range(rng.randint(2, 6))})
            e = ref.integral(late)
            g = np.ravel(model.generate_integrated_path(late))
            c.eqv('late-grid', g, e, 1e-8, 1e-10 * (1 + np.abs(exp).max() + np.abs(e).max()), begins=late[0])
            c.event('late-grid')
        c.event('integral')
        return
    if what == 'discount':
        cv, val = model.create_discount_curve(**kw), np.exp(-exp)
        c.ok('current-curve', model.discount_curve is cv)
    else:
        cv, val = model.accrual_curve(**kw), np.exp(exp)
    c.eq(what + '-starts-at-one', float(cv(start)), 1.0, 1e-12, 0)
    idx = sorted({0, len(use) - 1} | {rng.randrange(len(use)) for _ in range(5)})
    for k in idx:
        c.eq(what + '-on-grid', float(cv(use[k])), float(val[k]), 1e-8, 1e-10, t=use[k])
    for _ in range(3):
        k = rng.randrange(len(use) - 1)
        t = use[k] + (use[k + 1] - use[k]) * rng.random()
        w = (F(t) - F(use[k])) / (F(use[k + 1]) - F(use[k]))
        c.eq(what + '-between', float(cv(t)), float(val[k] * (1 - w) + val[k + 1] * w), 1e-7, 1e-9, t=t)
        day = t.date() if isinstance(t, datetime) else t
        m = O.midnight(day) if isinstance(t, datetime) else t
        if m > use[k]:           # an instrument paying on a date
            w = (F(m) - F(use[k])) / (F(use[k + 1]) - F(use[k]))
            df = float(val[k] * (1 - w) + val[k + 1] * w)
            c.eq(what + '-on-date', float(cv(day)), df, 1e-7, 1e-9, t=day)
            if what == 'discount':
                c.eq('claim-on-date', ZeroCoupon(day, 7.0).present_value(cv), df, 1e-7, 1e-9, t=day)
                c.event('claim-on-date')
    c.same(what + '-reference', cv.reference_date, start)
    other = model.accrual_curve(**kw) if what == 'discount' else model.create_discount_curve(**kw)
    for k in idx:
        c.eq('multiply-to-one', float(cv(use[k])) * float(other(use[k])), 1.0, 1e-9, 0, t=use[k])
    c.event(what)
    if grid is not None:
        c.event('own-grid')


def refused(c, model, t, label):
    for name, fn in (('call', lambda: model(t)), ('integral', model.generate_integrated_path), ('accrual', model.accrual_curve),
                     ('discount', model.create_discount_curve)):
        c.raises(f'refused-{name}-{label}', ValueError, fn)
    c.event('refused')


def histories(c):
    rng = c.rng
    model, bm, f, x0, start, end, dt, dcc, kind, n = make(c)
    refused(c, model, start, 'before-path')
    ref, trace = None, []
    for _ in range(rng.randint(4, 10)):
        op = rng.choice(['path', 'path', 'rate', 'integral', 'integral', 'discount', 'discount', 'accrual', 'accrual', 'step', 'unstored', 'other-user'])
        if ref is None and op not in ('path', 'unstored', 'step'):
            op = 'path'
        trace.append(op)
        c.note(history=list(trace))
        if op == 'path':
            seed = rng.randrange(10**6)
            start_val = x0 if rng.random() < 0.5 else x0 + 0.01
            got = model.generate_path(start_val, seed=seed)
            proc = model.state_variables_diffusion_process
            ds = m01.grid(start, end, dt)
            state = np.array(proc.path, copy=True)
            c.same('state-shape', state.shape, (n, len(ds)))
            if state.shape != (n, len(ds)):
                raise Stop
            c.eqv('state-start', state[:, 0], np.atleast_1d(start_val), 1e-12, 0)
            ref = Ref(state, ds, dcc, f, start)
            rates = [f(state[:, k]) for k in range(len(ds))]
            c.eqv('rate-path', np.ravel(got), rates, 1e-10, 1e-14)
            c.eqv('rate-path-stored', np.ravel(model.path), rates, 1e-10, 1e-14)
            if model.discount_curve is not None:      # none until asked for, else of the current path
                e = ref.integral(stepping(start, end, dt))
                c.eq('no-stale-curve', float(model.discount_curve(start + (len(e) - 1) * dt)), math.exp(-e[-1]), 1e-8, 1e-10)
            if model.integrated_path is not None:
                c.eqv('no-stale-integral', np.ravel(model.integrated_path), ref.integral(stepping(start, end, dt)), 1e-8, 1e-10)
            c.event('path')
        elif op == 'step':
            dt = (end - start) / rng.randint(2, 30) if isinstance(start, datetime) else timedelta(days=max(1, (end - start).days // rng.randint(2, 30)))
            model.set_dt(dt)
            ref = None
            c.ok('no-path-after-new-step', model.short_rate_path is None and model.path is None)
            refused(c, model, start, 'after-new-step')
        elif op == 'unstored':
            seed = rng.randrange(1000)
            had = model.path, model.short_rate_path, model.integrated_path, model.discount_curve
            g = model.generate_path(x0, set_path=False, seed=seed)
            kept = [had[0] is model.path, had[1] is model.short_rate_path,
                    had[2] is None if model.integrated_path is None else had[2] is not None and np.array_equal(had[2], model.integrated_path)]
            c.ok('unstored-leaves-stored', all(kept), kept=kept)
            if had[3] is not None and not c.ok('unstored-leaves-a-curve', model.discount_curve is not None):
                raise Stop
            if had[3] is not None and model.discount_curve is not had[3]:
                c.eq('unstored-leaves-curve', float(model.discount_curve(start + dt)), float(had[3](start + dt)), 1e-12, 0)
            c.eqv('unstored-same-values', np.ravel(g), np.ravel(model.generate_path(x0, set_path=False, seed=seed)), 0, 0)
            if ref is None:
                c.raises('unstored-not-kept', ValueError, lambda: model(start))
                c.ok('unstored-no-path', model.path is None and model.short_rate_path is None and model.integrated_path is None and model.discount_curve is None)
            else:
                judge(c, model, ref, start, end, dt, 'rate')
        elif op == 'other-user':
            twin = VasicekModel(0.03, 0.4, 0.01, bm, dt=timedelta(days=1) if (end - start).days < 100 else timedelta(days=9)) if n == 1 else None
            if twin is not None:
                twin.generate_path(0.02, seed=1)
            else:
                bm.generate_path(timedelta(days=max(1, (end - start).days // 5)), seed=1)
            judge(c, model, ref, start, end, dt, 'rate')
        else:
            judge(c, model, ref, start, end, dt, op)
    if ref is not None:
        for what in ('rate', 'integral', 'discount', 'accrual'):
            judge(c, model, ref, start, end, dt, what)
        if any(f(ref.state[:, k]) < 0 for k in range(ref.state.shape[1])):
            c.event('negative-rates')
        c.seen(kind, n, dcc, tuple(trace), round(float(ref.integral(stepping(start, end, dt))[-1]), 10))
    c.event('history')


def fine(c):
    """Fine steps, long paths, rates which keep crossing zero: each single area."""
    rng = c.rng
    steps = rng.choice([200, 500, 500, 2200])
    dt = timedelta(minutes=rng.choice([10, 60, 60, 240, 1440]))
    start = G.rdatetime(rng, 2000, 2045)
    end = start + steps * dt + timedelta(seconds=rng.choice([0, 0, 7]))
    dcc = rng.choice(m01.ACT)
    s = rng.uniform(0.01, 0.5)
    f = rng.choice([lambda x: float(np.ravel(x)[0]), lambda x: float(np.ravel(x)[0]) ** 2 - 1e-4, lambda x: math.exp(30 * float(np.ravel(x)[0])) - 1])
    pair = DriftDiffusionPair(lambda t, x: -20 * x, lambda t, x: np.array([s]))
    model = ShortRateModel(f, DiffusionProcess({'x': pair}, BrownianMotion(start, end, dimension=1, day_count_convention=G.DCC[dcc]), dt=dt))
    model.generate_path(np.array([0.0]), seed=rng.randrange(10**6))
    ds = m01.grid(start, end, dt)
    ref = Ref(model.state_variables_diffusion_process.path, ds, dcc, f, start)
    use = stepping(start, end, dt)
    c.note(start=start, dt=repr(dt), steps=steps, dcc=dcc)
    exp = ref.integral(use)
    rates = np.array([f(x) for x in ref.state.T])
    c.eqv('rates', np.ravel(model.short_rate_path), rates, 1e-9, 1e-13)
    got = np.ravel(model.generate_integrated_path())
    c.eqv('integral', got, exp, 1e-8, 1e-11 * (1 + np.abs(exp).max()))
    areas = np.diff(exp)
    if got.shape == exp.shape:
        c.eqv('single-areas', np.diff(got), areas, 1e-6, 1e-3 * float(np.abs(areas).mean()))
    cv = model.create_discount_curve()
    for k in [rng.randrange(len(use)) for _ in range(4)] + [len(use) - 1]:
        c.eq('discount', float(cv(use[k])), math.exp(-exp[k]), 1e-9, 0, t=use[k])
    c.eq('accrual', float(model.accrual_curve()(use[-1])), math.exp(exp[-1]), 1e-9, 0)
    for _ in range(4):
        t = start + (end - start) * rng.random()
        c.eq('short-rate', float(np.squeeze(model(t))), ref.rate(t), 1e-8, 1e-9, t=t)
    c.event('fine')
    c.event('crossings', int((rates[1:] * rates[:-1] < 0).sum()))
    c.seen('fine', start, dt, steps, round(float(exp[-1]), 12))


def flat(c):
    """A rate that never moves: the integral is rate times elapsed time and the curves are the textbook ones."""
    rng = c.rng
    start, end, dt = span(rng, 20, 1500)
    dcc = rng.choice(m01.ACT)
    r = rng.choice([0.0, 0.05, -0.02, rng.uniform(-0.05, 0.2), rng.uniform(-1, 4)])
    bm = BrownianMotion(start, end, dimension=1, day_count_convention=G.DCC[dcc])
    model = VasicekModel(r, 0.5, 0.0, bm, dt=dt)
    model.generate_path(r, seed=1)
    ts = stepping(start, end, dt)
    exp = np.array([r * O.frac(start, t, dcc) for t in ts])
    c.note(rate=r, start=start, end=end, dt=repr(dt), dcc=dcc)
    c.eqv('flat-integral', np.ravel(model.generate_integrated_path()), exp, 1e-9, 1e-12)
    k = rng.randrange(len(ts))
    c.eq('flat-discount', float(model.create_discount_curve()(ts[k])), math.exp(-exp[k]), 1e-9, 0)
    c.eq('flat-accrual', float(model.accrual_curve()(ts[k])), math.exp(exp[k]), 1e-9, 0)
    c.event('flat')
    c.seen(r, start, dcc, len(ts))


DRIVERS = [Driver('histories', histories, 240, 5000, {'history': 200, 'path': 300, 'integral': 300, 'discount': 300, 'accrual': 300, 'own-grid': 150, 'late-grid': 60,
                                                     'refused': 200, 'claim-on-date': 100, 'negative-rates': 30}),
           Driver('fine', fine, 16, 200, {'fine': 14, 'crossings': 100}),
           Driver('flat', flat, 60, 1000, {'flat': 50})]
