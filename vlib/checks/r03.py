"""R03: multi-factor affine models against numerical solutions of their pricing equations; no-arbitrage of the hedge portfolio."""
import math
from datetime import datetime, timedelta

import numpy as np

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType, create_affine_function
from . import m01
from .models import Affine, DoublyMeanRevertingVasicek, Multi, Smpr, Trebly, reversion, span, spectrum
from .r02 import maturity, purchase

RULE = ('Random multi-factor models of dimension 1-4 (diagonal, triangular, symmetric, general and spiralling reversion matrices, '
        'full volatility matrices, any loadings and intercept) and the named two- and three-factor models, priced along simulated states; compared '
        'with matrix exponentials and quadrature of the pricing equations and with the no-arbitrage conditions; distinct by (model, dates, price).')
ASSUMPTIONS = ['Reversion matrices have distinct eigenvalues with positive real parts and well-conditioned eigenvectors (condition below 60, named models below 1e4).',
               'Day counts are the actual ones; maturities lie after the purchase date.']


def general(c):
    rng, r = c.rng, c.np_rng()
    n = rng.choice([1, 2, 2, 3, 4])
    kind, K = reversion(c, n)
    theta = r.uniform(-0.05, 0.1, n)
    S = r.uniform(-0.02, 0.02, (n, n)) if rng.random() < 0.7 else np.diag(r.uniform(0.001, 0.02, n))
    g = np.ones(n) if rng.random() < 0.3 else r.uniform(-1, 1, n)
    mu = rng.choice([0.0, 0.035, rng.uniform(-0.02, 0.05)])
    start, end, dt = span(rng, 20, 1500, 40)
    dcc = rng.choice(m01.ACT)
    how, R = m01.correlation(c, n) if rng.random() < 0.3 else ('identity', np.eye(n))
    bm = BrownianMotion(start, end, dimension=n, correlation_matrix=R, day_count_convention=G.DCC[dcc])
    if how != 'identity':
        c.event('correlated-motions')
    keep = [np.array(a, copy=True) for a in (K, theta, S, g)]
    model = Multi(short_rate_intercept=mu, short_rate_coefficients=g, reversion_level=theta, reversion_matrix=K, volatility_matrix=S,
                  brownian_motion=bm, dt=dt)
    c.note(kind=kind, K=K.tolist(), theta=theta.tolist(), S=S.tolist(), g=g.tolist(), mu=mu, start=start, end=end, dcc=dcc, correlation=R.tolist())
    return model, Affine(K, theta, S @ m01.factor(R), mu, g), start, end, dt, dcc, n, lambda: all(np.array_equal(a, b) for a, b in zip(keep, (K, theta, S, g)))


def corr3(c):
    r = c.np_rng()
    a = r.normal(size=(3, 5))
    s = a @ a.T
    d = np.sqrt(np.diag(s))
    return s / np.outer(d, d)


def named(c):
    """The named models, with the reference written from their stochastic differential equations."""
    rng = c.rng
    start, end, dt = span(rng, 20, 1500, 40)
    r = c.np_rng()
    which = rng.choice(['doubly', 'doubly-from-parameters', 'trebly', 'market-price-of-risk'])
    u = lambda a, b: rng.uniform(a, b)
    if which.startswith('doubly'):
        a, k = spectrum(r, 2, 0.02, 1.2)
        sl, ss, rho, m = u(0.001, 0.02), u(0.001, 0.02), u(-0.95, 0.95), u(0.0, 0.08)
        x0 = [u(0, 0.08), u(0, 0.08)]
        if which == 'doubly':
            model = DoublyMeanRevertingVasicek(short_rate_reversion_speed=k, short_rate_volatility=ss, long_term_mean=m, long_term_reversion_speed=a,
                                               long_term_volatility=sl, short_rate_long_term_correlation=rho, start_datetime=start, end_datetime=end, dt=dt)
            model.generate_path(np.array(x0), seed=rng.randrange(1000))
        else:
            model = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(
                {CalibrationParamterType.VOLATILITY: [a, sl, k, ss, rho], CalibrationParamterType.SHAPE: [m],
                 CalibrationParamterType.STATE_VARIABLES: x0}, start_datetime=start, end_datetime=end, dt=dt, seed=rng.randrange(1000))
        c.same('parameters', {k.name: [float(v) for v in model.parameter_calibration_dict[k]] for k in
                              (CalibrationParamterType.VOLATILITY, CalibrationParamterType.SHAPE)}, {'VOLATILITY': [a, sl, k, ss, rho], 'SHAPE': [m]})
        # states (long-term level, short rate): d theta = a(m - theta), d r = k(theta - r)
        K = [[a, 0], [-k, k]]
        C = np.array([[sl ** 2, rho * sl * ss], [rho * sl * ss, ss ** 2]])
        level, g = [m, m], [0, 1]
    else:
        q = corr3(c)
        s = [u(0.001, 0.02) for _ in range(3)]                       # first state, medium, short
        k1, km, ks = spectrum(r, 3, 0.03, 1.2)
        C = np.outer(s, s) * q
        g = [0, 0, 1]
        m = u(0.0, 0.08)
        if which == 'trebly':
            model = Trebly(short_rate_reversion_speed=ks, short_rate_volatility=s[2], medium_rate_reversion_speed=km, medium_rate_volatility=s[1],
                           long_term_mean=m, long_term_reversion_speed=k1, long_term_volatility=s[0], short_rate_medium_rate_correlation=q[1, 2],
                           short_rate_long_term_correlation=q[0, 2], medium_rate_long_term_correlation_correlation=q[0, 1],
                           start_datetime=start, end_datetime=end, dt=dt)
            K = [[k1, 0, 0], [-km, km, 0], [0, -ks, ks]]
            level = [m, m, m]
            x0 = [u(0, 0.08) for _ in range(3)]
        else:
            lam = u(-0.5, 0.5)
            model = Smpr(short_rate_reversion_speed=ks, short_rate_vol=s[2], medium_rate_reversion_speed=km, medium_rate_vol=s[1], medium_rate_mean=m,
                         market_price_of_risk_reversion_speed=k1, market_price_of_risk_vol=s[0], market_price_of_risk_mean=lam,
                         short_rate_medium_rate_correlation=q[1, 2], short_rate_market_price_of_risk_correlation=q[0, 2],
                         medium_rate_market_price_of_risk_correlation=q[0, 1], start_datetime=start, end_datetime=end, dt=dt)
            # d lambda = k1(lam - lambda); d theta = km(m - theta) + lambda sigma_m; d r = ks(theta - r)
            K = [[k1, 0, 0], [-s[1], km, 0], [0, -ks, ks]]
            level = [lam, m + s[1] * lam / km, m + s[1] * lam / km]
            x0 = [u(-0.5, 0.5), u(0, 0.08), u(0, 0.08)]
        model.generate_path(np.array(x0), seed=rng.randrange(1000))
    c.note(which=which, K=K, level=level, C=C.tolist(), x0=x0, start=start, end=end)
    made = getattr(model, 'variance_mat', None)
    if made is not None:
        c.eqv('stated-variances', made, C, 1e-9, 1e-15)
    c.eqv('starting-states', model.state_variables_diffusion_process.path[:, 0], x0, 1e-12, 1e-15)
    ref = Affine(K, level, np.linalg.cholesky(C), 0.0, g)
    if np.linalg.cond(np.linalg.eig(ref.K)[1]) > 1e4:
        raise Stop
    c.event(which)
    return model, ref, start, end, dt, 'ACTUAL_OVER_ACTUAL', len(x0)


def judge(c, m, ref, t, T, dcc, explicit=True):
    rng = c.rng
    x = np.ravel(m.state_variables_diffusion_process(t))
    tau = O.frac(t, T, dcc)
    kw = dict(purchase_date=t) if explicit else {}
    A, B = ref.coeffs(tau)
    if abs(A + B @ x) > 20:
        raise Stop
    P = math.exp(A + B @ x)
    d = dict(t=t, T=T, state=x.tolist(), tau=tau)
    price = lambda u: m.zero_coupon_bond_price(u, **kw)
    c.eq('short-rate', float(m(t)), ref.rate(x), 1e-10, 1e-13, **d)
    c.eq('price', price(T), P, 1e-7, 1e-10, **d)
    y = -(A + B @ x) / tau
    tol = 1e-7 + 1e-10 / tau
    c.eq('yield', m.zero_coupon_bond_yield(T, **kw), y, 1e-7, tol, **d)
    c.eqv('state-derivative', m.zero_coupon_bond_price_deriv_wrt_state_variables(T, **kw), P * B, 1e-7, 1e-9, **d)
    fwd = ref.forward(tau, x)
    c.eq('forward-rate', m.instantaneous_forward_rate(T, **kw), fwd, 1e-7, 1e-9, **d)
    c.eq('maturity-derivative', m.zero_coupon_price_deriv_wrt_maturity(T, **kw), -fwd * P, 1e-7, 1e-9, **d)
    Ts = [T] + [maturity(rng, t) for _ in range(rng.randint(0, 3))]
    taus = [O.frac(t, u, dcc) for u in Ts]
    Bs = np.array([ref.loadings(s) for s in taus])
    ycov = (Bs / np.array(taus)[:, None]) @ ref.C @ (Bs / np.array(taus)[:, None]).T
    give = (lambda: iter(Ts)) if rng.random() < 0.4 else (lambda: list(Ts))
    sc = float(np.abs(ref.C).max()) * float(1 + np.abs(ref.g).max() ** 2)
    c.eqv('yield-covariance', m.yield_covariance_matrix(give(), **kw), ycov, 1e-6, 1e-7 * sc, **d)
    if ycov[0, 0] > 1e-4 * sc:
        c.eq('yield-volatility', m.yield_volatility(T, **kw), math.sqrt(max(0.0, ycov[0, 0])), 1e-5, 0, **d)
    fb = np.array([ref.expm(-ref.K.T * s) @ ref.g for s in taus])
    fcov = fb @ ref.C @ fb.T
    c.eqv('forward-covariance', m.instantaneous_forward_rate_covariance(give(), **kw), fcov, 1e-6, 1e-7 * sc, **d)
    if fcov[0, 0] > 1e-4 * sc:
        c.eq('forward-volatility', m.instantaneous_forward_rate_volatility(T, **kw), math.sqrt(max(0.0, fcov[0, 0])), 1e-5, 0, **d)
    lp = [ref.logprice(s, x) for s in taus]
    if max(map(abs, lp)) < 20:
        c.eqv('price-convexities', m.price_convexities(give(), **kw), [-0.5 * math.exp(l) * (b @ ref.C @ b) for l, b in zip(lp, Bs)], 1e-6, 1e-8 * sc, **d)
    c.eqv('expected-states', m.expected_state_variable_mean(T, **kw), ref.mean(tau, x), 1e-8, 1e-10, **d)
    c.eq('expected-short-rate', m.expected_short_rate(T, **kw), ref.rate(ref.mean(tau, x)), 1e-8, 1e-10, **d)
    avg = ref.average_rate(tau, x)
    c.eq('average-expected-rate', m.average_expected_short_rate(T, **kw), avg, 1e-7, 1e-9, **d)
    c.eq('yield-convexity', m.yield_convexity(T, **kw), y - avg, 1e-5, tol, **d)
    cov = ref.covariance(tau)
    c.eqv('state-covariance', m.state_variable_covariance(T, **kw), cov, 1e-6, 1e-8 * float(np.abs(cov).max()), **d)
    c.eq('short-rate-variance', m.short_rate_variance(T, **kw), float(ref.g @ cov @ ref.g), 1e-6, 1e-8 * float(np.abs(cov).max()) * (1 + ref.n), **d)
    c.event('judged')
    c.seen(ref.n, t, T, round(P, 12))


def hedge(c, m, ref, t, dcc, explicit=True):
    rng = c.rng
    x = np.ravel(m.state_variables_diffusion_process(t))
    kw = dict(purchase_date=t) if explicit else {}
    years = rng.sample([0.5, 1, 2, 3, 5, 7, 10, 15, 20], ref.n + 1)
    Ts = [t + timedelta(days=int(365 * v)) for v in years]
    if rng.random() < 0.2:       # some of them dates
        Ts = [u.date() if isinstance(u, datetime) and rng.random() < 0.5 else u for u in Ts]
    taus = [O.frac(t, u, dcc) for u in Ts]
    lp = [ref.logprice(s, x) for s in taus]
    if max(map(abs, lp)) > 10:
        raise Stop
    P = np.exp(lp)
    B = np.array([ref.loadings(s) for s in taus])
    D = B * P[:, None]
    M = np.vstack([np.ones(ref.n + 1), D.T])
    if np.linalg.cond(M) > 1e6:
        raise Stop
    give = (lambda: iter(Ts)) if rng.random() < 0.4 else (lambda: list(Ts))
    w = np.ravel(m.weights_for_riskless_portfolio(give(), **kw))
    c.note(hedge_years=years, hedge_at=t)
    c.same('one-weight-per-bond', w.shape, (ref.n + 1,))
    if w.shape != (ref.n + 1,):
        raise Stop
    sc = float(np.abs(w).max())
    c.eq('unit-sum', float(w.sum()), 1.0, 0, 1e-9 * (1 + sc))
    c.eqv('no-exposure', D.T @ w, np.zeros(ref.n), 0, 1e-8 * (1 + sc) * float(np.abs(D).max()))
    conv = m.riskless_portfolio_convexity(give(), **kw)
    c.eq('convexity', conv, 0.5 * float(sum(wi * pi * (b @ ref.C @ b) for wi, pi, b in zip(w, P, B))), 1e-6, 1e-8 * (1 + sc) * float(np.abs(ref.C).max()))
    drift = sum(wi * -m.zero_coupon_price_deriv_wrt_maturity(u, **kw) for wi, u in zip(w, Ts))
    value = float(sum(wi * m.zero_coupon_bond_price(u, **kw) for wi, u in zip(w, Ts)))
    c.eq('earns-the-short-rate', float(drift + conv), ref.rate(x) * value, 1e-6, 1e-7 * (1 + sc))
    c.event('hedge')
    c.seen('hedge', ref.n, t, tuple(years), round(float(w[0]), 9))


def times(c, start, end, dt):
    rng = c.rng
    return purchase(rng, rng.choice([start, start + rng.randint(0, 3) * dt if start + 3 * dt <= end else start, start + (end - start) * rng.random()]), start)


def run(c, m, ref, start, end, dt, dcc):
    rng = c.rng
    for _ in range(2):
        t = times(c, start, end, dt)
        judge(c, m, ref, t, maturity(rng, t), dcc)
    judge(c, m, ref, start, maturity(rng, start), dcc, explicit=False)
    t = times(c, start, end, dt)
    c.eq('one-at-zero-maturity', m.zero_coupon_bond_price(t, t), 1.0, 1e-9, 0)
    c.eq('rate-at-zero-maturity', m.instantaneous_forward_rate(t, t), ref.rate(np.ravel(m.state_variables_diffusion_process(t))), 1e-8, 1e-11)
    T = maturity(rng, t)
    v = m.zero_coupon_bond_price(T, t)
    m.zero_coupon_bond_yield(maturity(rng, t), t), m.instantaneous_forward_rate(maturity(rng, start)), m.yield_convexity(maturity(rng, t), t)
    c.eq('no-memory', m.zero_coupon_bond_price(T, t), v, 1e-13, 0)
    try:
        hedge(c, m, ref, times(c, start, end, dt), dcc)
        hedge(c, m, ref, start, dcc, explicit=False)
    except Stop:
        pass


def simulation(c, m, ref, start, end, dt, dcc, seed, x0):
    """The simulated states follow the same equations."""
    got = m.state_variables_diffusion_process.generate_path(x0, set_path=False, seed=seed)
    inc, _ = BrownianMotion(start, end, dimension=ref.n, day_count_convention=G.DCC[dcc]).generate_increments(dt, seed=seed)
    ds = m01.grid(start, end, dt)
    x, out = np.array(x0, dtype=float), [np.array(x0, dtype=float)]
    shocks = inc
    for k in range(len(ds) - 1):
        x = x + ref.K @ (ref.theta - x) * O.frac(ds[k], ds[k + 1], dcc) + ref.S @ shocks[:, k]
        out.append(x)
    c.eqv('simulated-states', got, np.array(out).T, 1e-7, 1e-9)
    c.eqv('simulated-short-rates', np.ravel(m.generate_path(x0, set_path=False, seed=seed)), [ref.rate(v) for v in out], 1e-7, 1e-9)
    c.event('simulation')


def multi(c):
    rng = c.rng
    m, ref, start, end, dt, dcc, n, untouched = general(c)
    c.raises('refused-without-path', ValueError, lambda: m.zero_coupon_bond_price(end))
    x0 = np.array([rng.uniform(-0.05, 0.1) for _ in range(n)])
    seed = rng.randrange(1000)
    m.generate_path(x0, seed=seed)
    simulation(c, m, ref, start, end, dt, dcc, seed, x0)
    run(c, m, ref, start, end, dt, dcc)
    t = start
    for bad in (t, t - timedelta(days=3)):
        for name in ('zero_coupon_bond_yield', 'average_expected_short_rate', 'yield_convexity', 'instantaneous_forward_rate_volatility'):
            c.raises('maturity-after-purchase', ValueError, lambda: getattr(m, name)(bad, t), quantity=name)
        for name in ('price_convexities', 'instantaneous_forward_rate_covariance'):
            c.raises('maturities-after-purchase', ValueError, lambda: getattr(m, name)([maturity(rng, t), bad], t), quantity=name)
    for name in ('zero_coupon_bond_price', 'zero_coupon_bond_price_deriv_wrt_state_variables', 'instantaneous_forward_rate', 'yield_volatility',
                 'zero_coupon_price_deriv_wrt_maturity', 'state_variable_covariance', 'short_rate_variance', 'expected_state_variable_mean', 'expected_short_rate'):
        c.raises('maturity-before-purchase', ValueError, lambda: getattr(m, name)(bad, t), quantity=name)
    c.ok('inputs-untouched', untouched())
    c.event(f'dimension-{n}')


def models(c):
    m, ref, start, end, dt, dcc, n = named(c)
    simulation(c, m, ref, start, end, dt, dcc, c.rng.randrange(1000), np.array([c.rng.uniform(0, 0.05) for _ in range(n)]))
    run(c, m, ref, start, end, dt, dcc)
    c.event('named')


def changes(c):
    """The two-factor model follows its parameter dictionary whenever it is told to read it, and not before."""
    rng, r = c.rng, c.np_rng()
    start, end, dt = span(rng, 20, 1500, 40)
    u = rng.uniform
    V, S, X = CalibrationParamterType.VOLATILITY, CalibrationParamterType.SHAPE, CalibrationParamterType.STATE_VARIABLES

    def draw():
        a, k = (float(v) for v in spectrum(r, 2, 0.02, 1.2))
        return [a, u(0.001, 0.02), k, u(0.001, 0.02), u(-0.95, 0.95)], u(0.0, 0.08)

    def reference(vol, m):
        a, sl, k, ss, rho = vol
        C = np.array([[sl ** 2, rho * sl * ss], [rho * sl * ss, ss ** 2]])
        return Affine([[a, 0], [-k, k]], [m, m], np.linalg.cholesky(C), 0.0, [0, 1])

    vol, m = draw()
    x0 = [u(0, 0.08), u(0, 0.08)]
    if rng.random() < 0.5:
        model = DoublyMeanRevertingVasicek(short_rate_reversion_speed=vol[2], short_rate_volatility=vol[3], long_term_mean=m, long_term_reversion_speed=vol[0],
                                           long_term_volatility=vol[1], short_rate_long_term_correlation=vol[4], start_datetime=start, end_datetime=end, dt=dt)
        model.generate_path(np.array(x0), seed=rng.randrange(1000))
    else:
        model = DoublyMeanRevertingVasicek.from_volatility_shape_parameters({V: list(vol), S: [m], X: x0}, start_datetime=start, end_datetime=end, dt=dt,
                                                                            seed=rng.randrange(1000))
    other = DoublyMeanRevertingVasicek.from_volatility_shape_parameters({V: list(vol), S: [m], X: x0}, start_datetime=start, end_datetime=end, dt=dt, seed=3)
    first = reference(vol, m)
    trace = []
    for _ in range(rng.randint(2, 4)):
        new, m2 = draw()
        if rng.random() < 0.3:                 # one parameter only
            i = rng.randrange(5)
            one = list(vol)
            if i == 4 or abs(new[i] - one[2 - i if i in (0, 2) else 0]) > 0.02:
                one[i] = new[i]
            new = one
        op = rng.choice(['volatility', 'shape', 'both', 'unread'])
        trace.append(op)
        c.note(history=list(trace), volatility=new, mean=m2, start=start, end=end)
        p = model.parameter_calibration_dict
        if rng.random() < 0.5:
            p[V], p[S] = list(new), [m2]
        else:
            p[V][:], p[S][:] = new, [m2]
        if op in ('volatility', 'both'):
            model.set_volatiltiy_parameters_from_dict()
            vol = new
        if op in ('shape', 'both'):
            model.set_shape_parameters_from_dict()
            m = m2
        ref = reference(vol, m)
        if np.linalg.cond(np.linalg.eig(ref.K)[1]) > 1e4:
            raise Stop
        t = times(c, start, end, dt)
        judge(c, model, ref, t, maturity(rng, t), 'ACTUAL_OVER_ACTUAL')
        try:
            hedge(c, model, ref, t, 'ACTUAL_OVER_ACTUAL')
        except Stop:
            pass
        simulation(c, model, ref, start, end, dt, 'ACTUAL_OVER_ACTUAL', rng.randrange(1000), np.array(x0))
        if rng.random() < 0.5:
            model.generate_path(np.array([u(0, 0.05), u(0, 0.05)]), seed=rng.randrange(1000))
            judge(c, model, ref, start, maturity(rng, start), 'ACTUAL_OVER_ACTUAL', explicit=False)
        c.event('change-' + op)
    judge(c, other, first, start, maturity(rng, start), 'ACTUAL_OVER_ACTUAL')        # another model is not touched
    p[X][:] = [0.01, 0.02]
    model.set_state_variables_from_dict()
    c.eqv('starting-states-read', model.starting_state_variables, [0.01, 0.02], 0, 0)


QUICK_SCALE = 2
DRIVERS = [Driver('multi', multi, 120, 2500, {'judged': 300, 'hedge': 80, 'simulation': 100, 'dimension-1': 8, 'spiral': 6, 'correlated-motions': 10, 'dimension-2': 20, 'dimension-3': 10, 'dimension-4': 10}),
           Driver('models', models, 80, 1500, {'named': 60, 'hedge': 30, 'doubly': 5, 'doubly-from-parameters': 5, 'trebly': 5, 'market-price-of-risk': 5}),
           Driver('changes', changes, 40, 800, {'change-volatility': 8, 'change-shape': 8, 'change-both': 8, 'change-unread': 8})]
