import math
from datetime import timedelta

from .. import gen as G, oracle as O, scenario
from ..harness import Driver, Stop
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, ZeroCoupon
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
from . import y02

RULE = ('Random yield curves (yields and discount factors) and assets (cashflows, zero-coupon claims, bonds, portfolios) with key rates alone '
        'and in collections, previously bumped or not; revaluations are done by an independent model; distinct by (curve, key rate, asset).')
ASSUMPTIONS = ['Central differences of one basis point; sums over a partition agree with the parallel shift up to the curvature of the exponential.']
BP = 1e-4


def asset(c, st):
    """(asset, [(date, amount)])"""
    rng = c.rng
    first = st['ref'] if st['space'] == 'yield' else max(st['ref'], st['knots'][0][0])
    span = (st['knots'][-1][0] - first).days
    kind = rng.choice(['cashflow', 'zero', 'portfolio'])
    pays = [(first + timedelta(days=rng.randint(0, span)), rng.uniform(10, 100)) for _ in range(rng.randint(1, 6))]
    if kind == 'zero':
        d = pays[0][0]
        return kind, ZeroCoupon(d, 0.9), [(d, 1.0)]
    if kind == 'cashflow':
        return kind, Cashflow(Payment(*p) for p in pays), pays
    q = [rng.choice([1, -2, 3.5, 0]) for _ in pays]
    p = Portfolio([PortfolioEntry(w, Cashflow([Payment(*x)])) for w, x in zip(q, pays)], cash_amount=rng.choice([0.0, 500.0]))
    return kind, p, [(d, w * a) for w, (d, a) in zip(q, pays)]


def pv(st, pays, adj):
    m = y02.model(st, adj)
    return sum(a * m(d) for d, a in pays if d >= st['ref'])


def tent_of(prev, key, nxt, dcc, b):
    return lambda d: O.tent(d, prev, key, nxt, dcc, b)


def deriv(st, pays, shape):
    """shape(bump) -> adjustment"""
    return (pv(st, pays, shape(BP / 2)) - pv(st, pays, shape(-BP / 2))) / BP


def curve(c):
    cv, st = y02.make(c, c.rng.choice(['yield', 'factor']))
    c.note(knots=st['knots'])
    return cv, st


def state_of(cv, kr):
    return ([(k, float(v)) for k, v in cv.interpolation_values], kr.bump_val, kr.prior_date, kr.next_date,
            [kr(kr.key_rate_date + timedelta(days=k)) for k in (-30, -1, 0, 1, 30)])


def derivatives(c):
    rng = c.rng
    cv, st = curve(c)
    kind, a, pays = asset(c, st)
    dcc = rng.choice(O.DCCS[:4])
    last = (st['knots'][-1][0] - st['ref']).days
    for _ in range(2):
        key = st['ref'] + timedelta(days=rng.randint(0, last + 10))
        if rng.random() < 0.4:
            key = rng.choice(st['knots'])[0]
        elif rng.random() < 0.25:   # before the curve starts, with a tent which reaches into it
            key = st['ref'] - timedelta(days=rng.randint(1, 90))
        prev = key - timedelta(days=rng.randint(3, 300)) if rng.random() < 0.6 else None
        nxt = key + timedelta(days=rng.randint(3, 300)) if rng.random() < 0.6 else None
        if rng.random() < 0.25:     # a tent around one payment, often between the knots of the curve
            key = rng.choice(pays)[0]
            prev, nxt = key - timedelta(days=rng.randint(3, 9)), key + timedelta(days=rng.randint(3, 9))
            if not any(prev < k < nxt for k, _ in st['knots']):
                c.event('between-knots')
        kr = KeyRate(G.DCC[dcc], key, prev, nxt)
        if rng.random() < 0.5:
            kr.set_bump_val(rng.choice([0.0, 0.01, -0.0003]))
        c.note(key=(prev, key, nxt, dcc, kr.bump_val), asset=kind, pays=pays)
        before = state_of(cv, kr)
        scale = sum(abs(x) for _, x in pays) + 1
        exp = deriv(st, pays, lambda b: tent_of(prev, key, nxt, dcc, b))
        c.eq('key-rate-derivative', float(cv.calculate_key_rate_deriv(a, kr)), exp, 1e-7, 2e-8 * scale)
        c.same('inputs-kept', state_of(cv, kr), before)
        r = cv.calculate_pv01_risk(a, kr)
        c.eq('risk', float(r.pv01), exp * BP, 1e-7, 2e-12 * scale)
        c.same('risk-labels', (r.key_rate_date, r.index), (key, CurveIndex.US_TREASURY))
        c.same('inputs-kept-by-risk', state_of(cv, kr), before)
        c.eq('value-as-before', float(cv.present_value(a)) - (a.cash_amount if kind == 'portfolio' else 0.0), pv(st, pays, None), 1e-6, 1e-6)
        c.event('derivative')
        if exp and key < st['ref']:
            c.event('before-the-curve')
        if exp:
            c.event('non-zero')
            c.seen(st['space'], tuple(st['knots']), key, prev, nxt, kind)


def ladders(c):
    rng = c.rng
    cv, st = curve(c)
    kind, a, pays = asset(c, st)
    dcc = rng.choice(O.DCCS[:4])
    last = (st['knots'][-1][0] - st['ref']).days
    n = rng.choice([1, 2, 3, 5])
    keys = sorted(rng.sample(range(rng.choice([0, 0, -40]), max(30, last + 20), 3), n))
    keys = [st['ref'] + timedelta(days=k) for k in keys]
    given = [KeyRate(G.DCC[dcc], k) for k in keys]
    rng.shuffle(given)
    col = KeyRateCollection(given)
    if rng.random() < 0.4:
        col.set_bump_val(rng.uniform(-0.01, 0.01))
    c.note(keys=keys, dcc=dcc, asset=kind, pays=pays)
    before = [state_of(cv, k) for k in col]
    ladder = cv.calculate_pv01_risk_ladder(a, col)
    scale = sum(abs(x) for _, x in pays) + 1
    exp = []
    for i, k in enumerate(keys):
        p, q = keys[i - 1] if i else None, keys[i + 1] if i + 1 < n else None
        exp.append(BP * deriv(st, pays, lambda b, p=p, k=k, q=q: tent_of(p, k, q, dcc, b)))
    c.same('ladder-size', len(ladder), n)
    c.same('ladder-dates', ladder.get_key_rate_dates(), keys)
    c.eqv('ladder-risks', [float(x) for x in ladder.get_pv01s()], exp, 1e-7, 2e-12 * scale)
    c.same('ladder-indices', ladder.get_indices(), [CurveIndex.US_TREASURY] * n)
    c.same('ladder-entries', [(r.key_rate_date, r.pv01) for r in ladder], list(zip(keys, ladder.get_pv01s())))
    c.same('inputs-kept', [state_of(cv, k) for k in col], before)
    par = BP * deriv(st, pays, lambda b: (lambda d: b))
    c.eq('sums-to-parallel', float(sum(ladder.get_pv01s())), par, 1e-5, 1e-10 * scale)
    c.event('ladder')
    c.seen(st['space'], tuple(keys), kind, tuple(pays))


def bonds(c):
    """Ladders of bond portfolios on calibrated curves, by bump and revaluation of the bonds' own payments."""
    from .y01 import book
    from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory
    rng = c.rng
    today, pairs = book(c, rng.randint(2, 4), rng.choice([250, 500]))
    cv = YieldCurveFactory().bootstrap_yield_curve([b for b, _ in pairs], G.METHODS['linear'], today)
    st = dict(space='yield', method='linear', dcc='ACTUAL_OVER_ACTUAL', ref=today, knots=[(k, float(v)) for k, v in cv.interpolation_values])
    q = [rng.choice([1, -3, 2.5, 10]) for _ in pairs]
    pf = Portfolio([PortfolioEntry(w, b) for w, (b, _) in zip(q, pairs)])
    dcc = rng.choice(O.DCCS[:4])
    col = pf.to_key_rate_collection(G.DCC[dcc])
    keys = sorted(r.knot() for _, r in pairs)
    pays = [(x[1], w * x[2]) for w, (_, r) in zip(q, pairs) for x in r.received(today)]
    ladder = cv.calculate_pv01_risk_ladder(pf, col)
    exp = []
    for i, k in enumerate(keys):
        p, n = keys[i - 1] if i else None, keys[i + 1] if i + 1 < len(keys) else None
        exp.append(BP * deriv(st, pays, lambda b, p=p, k=k, n=n: tent_of(p, k, n, dcc, b)))
    c.note(quantities=q, dcc=dcc)
    c.same('ladder-dates', ladder.get_key_rate_dates(), keys)
    c.eqv('ladder-risks', [float(x) for x in ladder.get_pv01s()], exp, 1e-6, 1e-9)
    prices = [(b.full_price, b.accrued_interest) for b, _ in pairs]
    c.eqv('bonds-kept', prices, [(r.full_price(), r.accrued()) for _, r in pairs], 1e-10, 1e-10)
    c.event('bond-ladder')
    c.seen(today, tuple(keys), tuple(q))


def collections(c):
    """The ladder itself as a collection of risks."""
    rng = c.rng
    risks = [Risk(G.rdate(rng), rng.uniform(-5, 5), rng.choice(list(CurveIndex))) for _ in range(rng.randint(0, 6))]
    given = list(risks)
    ladder = RiskLadder(rng.choice([iter, list, tuple, lambda x: x])(given))
    given.reverse()
    given.append(Risk(G.rdate(rng), 99.0, CurveIndex.NONE))
    c.note(risks=[(r.key_rate_date, r.pv01) for r in risks])
    c.same('size', len(ladder), len(risks))
    c.same('iteration', list(ladder), risks)
    c.same('iteration-again', list(ladder), risks)
    for r in risks:
        c.ok('contains', r in ladder and Risk(r.key_rate_date, r.pv01, r.index) in ladder)
        c.ok('does-not-contain', Risk(r.key_rate_date, r.pv01 + 1, r.index) not in ladder)
    for _ in range(2):
        c.same('walk', [next(ladder) for _ in risks], risks)
        c.raises('end', StopIteration, lambda: next(ladder))
    if risks:                             # reading it in between does not move the step
        first = [next(ladder)]
        list(ladder), str(ladder), ladder.get_pv01s(), risks[0] in ladder, len(ladder)
        c.same('walk-on', first + [next(ladder) for _ in risks[1:]], risks)
        c.raises('end', StopIteration, lambda: next(ladder))
    text = str(ladder)
    c.ok('one-line-each', all(str(r.key_rate_date) in text and format(r.pv01, '0.2f') in text for r in risks))
    c.same('columns', (ladder.get_key_rate_dates(), ladder.get_pv01s(), ladder.get_indices()),
           ([r.key_rate_date for r in risks], [r.pv01 for r in risks], [r.index for r in risks]))
    c.event('collection')
    c.seen(tuple((r.key_rate_date, r.pv01) for r in risks))


QUICK_SCALE = 2
DRIVERS = [Driver('derivatives', derivatives, 160, 2500, {'derivative': 200, 'non-zero': 80, 'before-the-curve': 5, 'between-knots': 20}),
           Driver('ladders', ladders, 120, 2000, {'ladder': 100}),
           Driver('bonds', bonds, 24, 300, {'bond-ladder': 12}),
           Driver('collections', collections, 100, 1000, {'collection': 100})]
