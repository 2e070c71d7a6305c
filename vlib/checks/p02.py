"""P02: the optimiser against exact quadratic programming by enumeration of the supports (KKT systems)."""
from itertools import combinations

import numpy as np

from .. import gen as G
from ..harness import Driver, Stop
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer

RULE = ('Random mean vectors and positive definite covariances of 2-6 assets (correlated, near-duplicate, equal-mean, negative-mean, very '
        'different volatility scales); each answer is compared with the exact optimum obtained by solving the optimality system on every '
        'support and with random feasible portfolios; distinct by (problem kind, size, optimum).')
ASSUMPTIONS = ['Covariances are positive definite with condition number below 1e6; optimality is judged to a relative excess of 1e-5 of the objective scale.',
               'Target returns lie in the attainable range when short positions are not allowed.']
TOL = 1e-6


def problem(c, units=(1,)):
    rng, r = c.rng, c.np_rng()
    n = rng.randint(2, 6)
    kind = rng.choice(['general', 'general', 'scales', 'twins', 'independent', 'equal-means'])
    vols = r.uniform(0.05, 0.4, n)
    if kind == 'scales':
        vols = 10 ** r.uniform(-1.8, -0.2, n)
    a = r.normal(size=(n, n + 2))
    corr = a @ a.T
    d = np.sqrt(np.diag(corr))
    corr = corr / np.outer(d, d)
    if kind == 'independent':
        corr = np.eye(n)
    if kind == 'twins' and n > 2:
        corr = 0.05 * np.eye(n) + 0.95
    corr = 0.98 * corr + 0.02 * np.eye(n)
    cov = corr * np.outer(vols, vols)
    mean = r.uniform(-0.03, 0.15, n) * rng.choice([1, 1, 0.1])
    if kind == 'equal-means':
        mean[:2] = mean[0]
    unit = rng.choice(units)      # yearly, or per trading day
    mean, cov = (mean * 100, cov * 1e4) if unit == '%' else (mean / unit, cov / unit)      # ... or in percent
    c.event('percent' if unit == '%' else 'daily' if unit > 1 else 'yearly')
    c.note(kind=kind, mean=mean.tolist(), cov=cov.tolist())
    return n, kind, mean, cov


def exact(Q, lin, A, b, longonly):
    """min w'Qw/2*2 - lin.w  s.t. A w = b (w >= 0 if longonly); exact by enumerating supports. Returns (value, w)."""
    n = len(lin)
    best = (np.inf, None)
    subsets = [tuple(range(n))] if not longonly else [s for k in range(1, n + 1) for s in combinations(range(n), k)]
    for s in subsets:
        s = list(s)
        As = A[:, s]
        m = len(s)
        K = np.block([[2 * Q[np.ix_(s, s)], As.T], [As, np.zeros((len(b), len(b)))]])
        rhs = np.concatenate([lin[s], b])
        sol, *_ = np.linalg.lstsq(K, rhs, rcond=None)
        ws = sol[:m]
        if np.abs(As @ ws - b).max() > 1e-9 * (1 + np.abs(b).max()):
            continue
        if longonly and ws.min() < -1e-10:
            continue
        w = np.zeros(n)
        w[s] = ws
        v = w @ Q @ w - lin @ w
        if v < best[0]:
            best = (v, w)
    return best


def feasible(c, w, n, shorts, mean=None, target=None):
    c.same('one-weight-per-asset', np.shape(w), (n,))
    if np.shape(w) != (n,):
        raise Stop
    scale = max(1.0, float(np.abs(w).max()))
    c.eq('fully-invested', float(np.sum(w)), 1.0, 0, TOL * scale)
    if not shorts:
        c.ok('no-short-position', float(np.min(w)) >= -TOL, weights=w.tolist())
    if target is not None:
        c.eq('target-return', float(w @ mean), target, 0, TOL * 0.2 * scale)


def target_for(c, mean, shorts):
    lo, hi = float(mean.min()), float(mean.max())
    u = c.rng.uniform(0.02, 0.98)
    if shorts and c.rng.random() < 0.4:
        u = c.rng.uniform(-1, 2)
    return lo + (hi - lo) * u


def min_variance(c):
    n, kind, mean, cov = problem(c, (1, 1, 250, '%'))
    if (mean.max() - mean.min())/np.abs(mean).max() < 0.02:
        raise Stop
    shorts = c.rng.random() < 0.5
    opt = PortfolioOptimizer(mean, cov)
    m0, c0 = mean.copy(), cov.copy()
    t = target_for(c, mean, shorts)
    c.note(target=t, shorts=shorts)
    w = opt.find_minimum_variance_portfolio(t, allow_short_positions=shorts) if (shorts or c.rng.random() < 0.5) \
        else opt.find_minimum_variance_portfolio(t)                       # long-only is the default
    feasible(c, w, n, shorts, mean, t)
    v, we = exact(cov, np.zeros(n), np.array([np.ones(n), mean]), np.array([1.0, t]), not shorts)
    got = float(w @ cov @ w)
    c.ok('minimal-variance', got <= v * (1 + 1e-5) + 1e-12, got=got, optimum=v, weights=w.tolist(), best=we.tolist())
    c.ok('oracle-is-optimal', got >= v * (1 - 2e-4) - 1e-12, got=got, optimum=v)      # a feasible point cannot be better
    # No feasible random portfolio is better.
    r = c.np_rng()
    for _ in range(20):
        d = r.normal(size=n)
        B = np.array([np.ones(n), mean])
        d = d - B.T @ np.linalg.lstsq(B.T, d, rcond=None)[0]
        x = we + d * c.rng.uniform(0, 0.2)
        if shorts or x.min() >= 0:
            c.ok('no-better-feasible', x @ cov @ x >= got * (1 - 1e-5) - 1e-12)
            c.event('alternative')
    c.ok('inputs-untouched', (mean == m0).all() and (cov == c0).all())
    c.event('min-variance')
    if (np.abs(we) < 1e-12).any():
        c.event('binding-no-short')
    if we.min() < -1e-6:
        c.event('short')
    c.seen('minvar', kind, n, round(v, 12))


def utility(c):
    n, kind, mean, cov = problem(c, (1, 1, 250, 10000, '%'))
    shorts = c.rng.random() < 0.5
    wealth = c.rng.choice([1.0, 100.0, c.rng.uniform(0.5, 10)])
    aversion = c.rng.choice([1.0, 3.0, c.rng.uniform(0.5, 20)])
    if shorts:
        wealth, aversion = max(wealth, 1.0), max(aversion, 2.0)
    elif c.rng.random() < 0.1:
        aversion = 0.0                                      # risk neutral: everything in the best asset
        if np.sort(mean)[-1] - np.sort(mean)[-2] < 0.03 * np.abs(mean).max():
            raise Stop
    lam = wealth * aversion / 2
    c.note(wealth=wealth, aversion=aversion, shorts=shorts)
    opt = PortfolioOptimizer(mean, cov)
    w = opt.find_maximum_utility_portfolio(wealth, aversion, allow_short_positions=shorts) if (shorts or c.rng.random() < 0.5) \
        else opt.find_maximum_utility_portfolio(wealth, aversion)
    feasible(c, w, n, shorts)
    u = float(mean @ w - lam * (w @ cov @ w))
    if aversion == 0.0:
        best, we = float(mean.max()), np.eye(n)[int(mean.argmax())]
        c.event('risk-neutral')
    else:
        v, we = exact(lam * cov, mean, np.ones((1, n)), np.array([1.0]), not shorts)
        best = -v
    scale = float(np.abs(mean).max() + lam * np.abs(cov).max())
    c.ok('maximal-utility', u >= best - 1e-5 * scale, got=u, optimum=best, weights=np.asarray(w).tolist(), best=we.tolist())
    c.ok('oracle-is-optimal', u <= best + 1e-4 * scale * max(1.0, float(np.abs(we).max())), got=u, optimum=best)
    r = c.np_rng()
    for _ in range(20):
        x = r.dirichlet(np.ones(n)) if not shorts else we + (lambda d: d - d.mean())(r.normal(size=n)) * 0.2
        c.ok('no-better-feasible', mean @ x - lam * (x @ cov @ x) <= u + 1e-5 * scale)
        c.event('alternative')
    c.event('utility')
    if we.min() < -1e-6:
        c.event('short')
    c.seen('utility', kind, n, round(best, 12))


def frontier(c):
    n, kind, mean, cov = problem(c, (1, 1, 250, '%'))
    spread = float(mean.max() - mean.min())
    if spread < 0.15 * np.abs(mean).max():
        raise Stop
    rng = c.rng
    shorts = rng.random() < 0.4
    inc = spread / rng.randint(4, 9)
    opt = PortfolioOptimizer(mean, cov)
    kw = dict(return_increment=inc)
    if shorts or rng.random() < 0.5:
        kw['allow_short_positions'] = shorts
    if rng.random() < 0.6:
        lo = float(mean.min()) + rng.uniform(0.01, 0.3) * spread
        up = float(mean.max()) - rng.uniform(0.01, 0.3) * spread
        if rng.random() < 0.5:
            up = lo + inc * rng.randint(1, 3)
            if up + 1.01 * inc >= mean.max():
                raise Stop
        if mean.min() < -0.01 * spread and mean.max() > 0.01 * spread and rng.random() < 0.5:      # a frontier from, or up to, a return of zero
            if rng.random() < 0.6 and up > 0:
                lo = 0.0
            elif lo < 0:
                up = 0.0
            c.event('zero-return-bound')
        kw.update(lower_return=lo, upper_return=up)
    else:
        lo, up = float(mean.min()) + inc, float(mean.max()) - inc
    c.note(**kw)
    rets, vols, ws = opt.calculate_efficient_frontier(**kw)
    c.ok('aligned', len(rets) == len(vols) == len(ws) and len(rets) > 0, lens=(len(rets), len(vols), len(ws)))
    c.eq('first-target', float(rets[0]), lo, 1e-9, 1e-12)
    c.eqv('evenly-spaced', np.diff(rets), np.full(len(rets) - 1, inc), 1e-6, 1e-12)
    c.ok('reaches-upper', up - inc * 1.0001 <= rets[-1] <= up + inc * 1.0001, last=float(rets[-1]), upper=up)
    for t, s, w in zip(rets, vols, ws):
        c.eq('volatility-of-those-weights', float(s), float(np.sqrt(w @ cov @ w)), 1e-9, 1e-12)
        if not shorts and not (mean.min() + 1e-4 * spread < t < mean.max() - 1e-4 * spread):
            continue
        feasible(c, w, n, shorts, mean, t)
        v, we = exact(cov, np.zeros(n), np.array([np.ones(n), mean]), np.array([1.0, t]), not shorts)
        c.ok('frontier-minimal', s * s <= v * (1 + 1e-5) + 1e-12, got=float(s * s), optimum=v, target=float(t))
        c.event('frontier-point')
    rf = rng.uniform(-0.01, 0.05)
    c.eqv('sharpe', opt.sharpe_ratio(rets, vols, rf), [(float(a) - rf) / float(b) for a, b in zip(rets, vols)], 1e-9, 1e-12)
    c.event('frontier')
    c.seen('frontier', kind, n, round(float(rets[0]), 9), round(float(vols[-1]), 9))


DRIVERS = [Driver('min_variance', min_variance, 400, 8000, {'min-variance': 300, 'binding-no-short': 40, 'short': 40, 'alternative': 2000, 'percent': 50}),
           Driver('utility', utility, 400, 8000, {'utility': 300, 'short': 40, 'risk-neutral': 3, 'daily': 100}),
           Driver('frontier', frontier, 100, 2000, {'frontier': 30, 'frontier-point': 150})]
