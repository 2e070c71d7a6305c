"""R02: the one-factor model against its own pricing equations, simulated process and parameter changes."""
import math
from datetime import datetime, timedelta

import numpy as np

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType
from . import m01
from .models import Affine, VasicekModel, span

RULE = ('Random one-factor models (level, speed, volatility, also zero volatility), states along simulated paths, purchase dates on and between grid '
        'points or left out, maturities from days to decades, parameter changes in random order; every quantity is compared with a numerical '
        'solution of the model\'s pricing equations; distinct by (parameters, purchase date, maturity, price).')
ASSUMPTIONS = ['Reversion speeds lie in [0.002, 3]; below about 0.02 the closed forms lose digits by cancellation, which the tolerances allow for; the reference solves the pricing equations to about 1e-12.', 'Maturities lie after the purchase date; day counts are the actual ones.']


def rparams(rng):
    lo, hi = (0.02, 3) if rng.random() < 0.85 else (0.002, 0.02)
    return dict(level=rng.choice([0.04, 0.0, -0.01, rng.uniform(-0.02, 0.12)]), speed=math.exp(rng.uniform(math.log(lo), math.log(hi))),
                vol=rng.choice([0.008, 0.0, rng.uniform(0.0005, 0.06), rng.uniform(0.0005, 0.06)]))


def ref_of(p):
    return Affine([[p['speed']]], [p['level']], [[p['vol']]], 0.0, [1.0])


def maturity(rng, t):
    T = t + timedelta(days=rng.choice([1, 30, 365, 3652, rng.randint(2, 12000), rng.randint(2, 12000), rng.randint(12000, 22000)])) + timedelta(seconds=rng.choice([0, 0, 4321]))
    if rng.random() < 0.15 and (T - t).days > 1:      # a date for a timestamp (the beginning of the day) or the other way round
        T = T.date() if isinstance(T, datetime) else O.midnight(T) + timedelta(seconds=rng.choice([0, 30000]))
    return T


def purchase(rng, t, start):
    """Now and then a date as purchase date of a model of timestamps."""
    return t.date() if isinstance(t, datetime) and rng.random() < 0.15 and O.midnight(t.date()) >= start else t


def judge(c, vm, p, t, T, ref, dcc, explicit=True):
    """All quantities of the model between t and T."""
    x = float(np.squeeze(vm(t)))
    X = np.array([x])
    tau = O.frac(t, T, dcc)
    kw = dict(purchase_date=t) if explicit else {}
    A, B = ref.coeffs(tau)
    P = math.exp(A + B[0] * x)
    d = dict(t=t, T=T, params=dict(p), state=x)
    # what (1 - exp(-speed tau)) / speed loses near zero, as the closed forms amplify it
    lost = 1e-15 * (p['vol'] ** 2 / p['speed'] ** 3 + abs(p['level']) / p['speed']) * (1 + p['speed'] * tau)
    if p['speed'] < 0.02:
        c.event('slow')
    c.eq('price', vm.zero_coupon_bond_price(T, **kw), P, 1e-9 + lost, 1e-12, **d)
    y = -(A + B[0] * x) / tau
    c.eq('yield', vm.zero_coupon_bond_yield(T, **kw), y, 1e-8, 1e-9 + lost / tau, **d)
    c.eq('yield-other-name', vm.zero_coupon_yield(T, **kw), y, 1e-8, 1e-9 + lost / tau, **d)
    c.eq('forward-rate', vm.instantaneous_forward_rate(T, **kw), ref.forward(tau, X), 1e-8, 1e-10 + lost, **d)
    c.eq('yield-volatility', vm.yield_volatility(T, **kw), p['vol'] * abs(B[0]) / tau, 1e-8, 1e-12, **d)
    c.eq('forward-volatility', vm.instantaneous_forward_rate_volatility(T, **kw), p['vol'] * math.exp(-p['speed'] * tau), 1e-8, 1e-12, **d)
    c.eq('short-rate-variance', vm.short_rate_variance(T, **kw), float(ref.covariance(tau)[0, 0]), 1e-7, 1e-14, **d)
    c.eq('expected-short-rate', vm.expected_short_rate(T, **kw), float(ref.mean(tau, X)[0]), 1e-9, 1e-12, **d)
    avg = ref.average_rate(tau, X)
    c.eq('average-expected-rate', vm.average_expected_short_rate(T, **kw), avg, 1e-8, 1e-11, **d)
    c.eq('yield-convexity', vm.yield_convexity(T, **kw), y - avg, 1e-6, 3e-10 + lost / tau, **d)
    Ts = [T, maturity(c.rng, t)]
    exp = []
    for u in Ts:
        tu = O.frac(t, u, dcc)
        Au, Bu = ref.coeffs(tu)
        exp.append(-0.5 * math.exp(Au + Bu[0] * x) * Bu[0] ** 2 * p['vol'] ** 2)
    c.eqv('price-convexities', vm.price_convexities(iter(Ts) if c.rng.random() < 0.3 else Ts, **kw), exp, 1e-7, 1e-14, **d)
    c.event('judged')
    c.seen(round(p['level'], 9), round(p['speed'], 9), round(p['vol'], 9), t, T, round(P, 12))


def draw_t(c, start, end, dt):
    rng = c.rng
    u = rng.random()
    if u < 0.3:
        return start
    if u < 0.5:
        k = rng.randint(0, 4)
        t = start + k * dt
        return t if t <= end else start
    return purchase(rng, start + (end - start) * rng.random(), start)


def build(c, p):
    rng = c.rng
    start, end, dt = span(rng, 20, 2500, 60)
    dcc = rng.choice(m01.ACT)
    bm = BrownianMotion(start, end, dimension=1, day_count_convention=G.DCC[dcc])
    vm = VasicekModel(p['level'], p['speed'], p['vol'], bm, dt=dt)
    c.note(start=start, end=end, dt=repr(dt), dcc=dcc, **p)
    return vm, bm, start, end, dt, dcc


def quantities(c):
    rng = c.rng
    p = rparams(rng)
    vm, bm, start, end, dt, dcc = build(c, p)
    c.raises('refused-without-path', ValueError, lambda: vm.zero_coupon_bond_price(end))
    x0 = rng.choice([p['level'], rng.uniform(-0.03, 0.15)])
    vm.generate_path(x0, seed=rng.randrange(10**6))
    ref = ref_of(p)
    for k in range(5):
        t = draw_t(c, start, end, dt)
        judge(c, vm, p, t, maturity(rng, t), ref, dcc)
    judge(c, vm, p, start, maturity(rng, start), ref, dcc, explicit=False)
    # zero maturity
    t = draw_t(c, start, end, dt)
    c.eq('one-at-zero-maturity', vm.zero_coupon_bond_price(t, t), 1.0, 1e-12, 0, t=t)
    c.eq('rate-at-zero-maturity', vm.instantaneous_forward_rate(t, t), float(np.squeeze(vm(t))), 1e-12, 1e-14, t=t)
    early = t - timedelta(days=rng.choice([1, 30, 2000]))
    name = rng.choice(['zero_coupon_bond_price', 'zero_coupon_bond_yield', 'zero_coupon_yield', 'instantaneous_forward_rate', 'yield_volatility', 'yield_convexity',
                       'instantaneous_forward_rate_volatility', 'short_rate_variance', 'expected_short_rate', 'average_expected_short_rate'])
    c.raises('matures-before-purchase', ValueError, lambda: getattr(vm, name)(early, t), quantity=name)
    for bad in (t, early):
        c.raises('convexities-after-purchase', ValueError, lambda: vm.price_convexities([maturity(rng, t), bad], t))
    c.eq('limit', vm.convexity_limit, -p['vol'] ** 2 / (2 * p['speed'] ** 2), 1e-12, 0)
    # prices do not depend on what was asked before
    T = maturity(rng, t)
    v = vm.zero_coupon_bond_price(T, t)
    vm.zero_coupon_bond_yield(maturity(rng, t), t), vm.instantaneous_forward_rate(maturity(rng, start))
    c.eq('no-memory', vm.zero_coupon_bond_price(T, t), v, 0, 0)
    # a new path: prices follow its states
    vm.generate_path(x0 + 0.01, seed=rng.randrange(10**6))
    judge(c, vm, p, t, T, ref, dcc)
    c.event('model')


def changes(c):
    """Parameter changes through the calibration dictionary, in any order, mixed with pricing and simulation."""
    rng = c.rng
    p = rparams(rng)
    vm, bm, start, end, dt, dcc = build(c, p)
    vm.generate_path(0.03, seed=1)
    trace = []
    for _ in range(rng.randint(2, 5)):
        q = rparams(rng)
        op = rng.choice(['vol', 'shape', 'both'])
        trace.append(op)
        d = vm.parameter_calibration_dict
        if op in ('vol', 'both'):
            d[CalibrationParamterType.VOLATILITY] = [q['vol'], q['speed']]
            vm.set_volatiltiy_parameters_from_dict()
            p = dict(p, vol=q['vol'], speed=q['speed'])
        if op in ('shape', 'both'):
            d[CalibrationParamterType.SHAPE] = [q['level']]
            vm.set_shape_parameters_from_dict()
            p = dict(p, level=q['level'])
        if rng.random() < 0.4:
            d[CalibrationParamterType.STATE_VARIABLES] = [rng.uniform(-0.02, 0.1)]
            vm.set_state_variables_from_dict()
            c.same('starting-rate', vm.calibrated_starting_short_rate, d[CalibrationParamterType.STATE_VARIABLES][0])
        c.note(history=trace, **p)
        c.same('parameters', (vm.long_term_mean, vm.reversion_speed, vm.volatility), (p['level'], p['speed'], p['vol']))
        t = draw_t(c, start, end, dt)
        judge(c, vm, p, t, maturity(rng, t), ref_of(p), dcc)
        if rng.random() < 0.7:
            seed = rng.randrange(1000)
            path = np.ravel(vm.generate_path(0.05, seed=seed))
            inc, _ = BrownianMotion(start, end, dimension=1, day_count_convention=G.DCC[dcc]).generate_increments(dt, seed=seed)
            ds = m01.grid(start, end, dt)
            x, exp = 0.05, [0.05]
            for k in range(len(ds) - 1):
                x = x + p['speed'] * (p['level'] - x) * O.frac(ds[k], ds[k + 1], dcc) + p['vol'] * inc[0, k]
                exp.append(x)
            c.eqv('path-follows-parameters', path, exp, 1e-8, 1e-11)
            judge(c, vm, p, t, maturity(rng, t), ref_of(p), dcc)
            c.event('new-path')
        c.event('change')
    c.seen(tuple(trace), round(p['speed'], 9), round(p['level'], 9))


def simulated(c):
    """The expectations are those of the simulated process: exact without noise (up to the step), and in the mean with it."""
    rng = c.rng
    p = dict(level=rng.uniform(0.0, 0.1), speed=rng.uniform(0.1, 2), vol=0.0)
    start = G.rdatetime(rng, 2000, 2040)
    end = start + timedelta(days=365)
    bm = BrownianMotion(start, end, dimension=1)
    dt = timedelta(days=1)
    vm = VasicekModel(p['level'], p['speed'], 0.0, bm, dt=dt)
    x0 = rng.uniform(-0.05, 0.15)
    vm.generate_path(x0, seed=1)
    for _ in range(4):
        t = start + timedelta(days=rng.randint(1, 365))
        c.eq('noiseless-mean', float(np.squeeze(vm(t))), vm.expected_short_rate(t), 0, 3 * p['speed'] ** 2 * abs(x0 - p['level']) / 365 + 1e-12, t=t)
    c.eq('noiseless-average', float(np.ravel(vm.generate_integrated_path())[-1]), vm.average_expected_short_rate(end) * O.frac(start, end, 'ACTUAL_OVER_ACTUAL'),
         0, 3 * (p['speed'] + p['speed'] ** 2) * abs(x0 - p['level']) / 365 + 1e-12)
    vol = rng.uniform(0.005, 0.03)
    N = 250
    vm = VasicekModel(p['level'], p['speed'], vol, bm, dt=timedelta(days=5))
    v = np.array([np.ravel(vm.generate_path(x0, seed=s))[-1] for s in range(N)])
    var = vm.short_rate_variance(end)
    bias = 3 * p['speed'] ** 2 * abs(x0 - p['level']) * 5 / 365
    c.note(x0=x0, vol=vol, **{k: p[k] for k in ('level', 'speed')})
    c.eq('simulated-mean', float(v.mean()), vm.expected_short_rate(end), 0, 6 * math.sqrt(var / N) + bias)
    c.eq('simulated-variance', float(v.var()), var, 6 * math.sqrt(2 / N) + 10 * p['speed'] / 365, 0)
    c.event('simulated')
    c.seen(round(x0, 9), round(p['speed'], 9))


QUICK_SCALE = 2
DRIVERS = [Driver('quantities', quantities, 160, 3000, {'model': 140, 'judged': 900, 'slow': 60}),
           Driver('changes', changes, 120, 2500, {'change': 250, 'new-path': 100}),
           Driver('simulated', simulated, 24, 300, {'simulated': 20})]
