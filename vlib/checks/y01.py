import math
from collections import deque
from datetime import timedelta

from .. import gen as G, oracle as O, scenario
from ..harness import Driver, Stop
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory

RULE = ('Random books of 2-6 treasury or corporate bonds (principals of 100 to a million, also mixed and also zero-coupon ones, purchased on the reference date, distinct last payment dates up '
        'to about three years, also neighbours whose payments come in the opposite order to their maturities), given as lists, tuples, generators or deques in random order, for every interpolation method the builder '
        'supports; distinct by (book, order, method).')
ASSUMPTIONS = ['Prices are clean prices per 100 of principal, which the builders match without accrued interest.',
               'Books for yields to maturity hold coupon bonds (the library defines no yield of a zero-coupon one).',
               'Bootstrapping is exact for linear and previous interpolation only (a spline moves already solved knots).',
               'Yields of the books lie between about -2% and 15%.']
MIN = {'linear': 2, 'previous': 2, 'quadratic': 3, 'cubic': 4}


def shuffled(rng, items):
    items = list(items)
    rng.shuffle(items)
    return items


def container(rng, items):
    k = rng.choice(['list', 'tuple', 'generator', 'deque'])
    return k, (list(items) if k == 'list' else tuple(items) if k == 'tuple' else deque(items) if k == 'deque' else (x for x in items))


def book(c, n, max_days=900, coupons=False):
    rng = c.rng
    principals = rng.choice([(100,), (100,), (1000,), (100, 250, 1000, 1_000_000)])
    freqs = ('SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL') + (() if coupons or rng.random() < 0.6 else ('ZERO_COUPON',))
    for _ in range(20):
        today, pairs = scenario.bond_book(c, n, kind=rng.choice(['treasury', 'corporate']), max_days=max_days, principals=principals, freqs=freqs)
        if len(pairs) < 2:
            continue
        c.note(reference=today, book=[dict(price=r.price, coupon=r.coupon, maturity=r.maturity, tenor=r.tenor, freq=r.freq, adj=r.adj, principal=r.principal)
                                      for _, r in pairs])
        if all(min(x[1] for x in r.received(today)) > today for _, r in pairs):
            if any(r.principal != 100 for _, r in pairs):
                c.event('other-principal')
            if any(r.freq == 'ZERO_COUPON' for _, r in pairs):
                c.event('with-zero-coupon')
            return today, pairs
    raise Stop


def model_pv(r, today, knots, kind):
    """Clean independent revaluation: exp(-y t) with y interpolated on actual/actual, flat beyond the ends."""
    m = O.RefCurve(knots, kind, 'ACTUAL_OVER_ACTUAL', today, 'CONSTANT', 'CONSTANT')
    return sum(a * math.exp(-m(d) * O.frac(today, d, 'ACTUAL_OVER_ACTUAL')) for _, d, a in r.received(today))


def reprices(c, curve, today, pairs, kind, what):
    knots = [(k, float(v)) for k, v in curve.interpolation_values]
    c.same('knots-are-last-payment-dates', [k for k, _ in knots], sorted(r.knot() for _, r in pairs))
    for b, r in pairs:
        c.eq('reprices-on-the-knots', model_pv(r, today, knots, kind) * 100.0 / r.principal, r.price, 0, 2e-6, maturity=r.maturity)
        c.eq('reprices-on-the-curve', float(curve.present_value(b)) * 100.0 / r.principal, r.price, 0, 2e-6, maturity=r.maturity)
        c.event(what)
    c.seen(what, today, tuple(knots), kind)


def simultaneous(c):
    rng = c.rng
    kind = ['linear', 'previous', 'quadratic', 'cubic'][c.index % 4]
    today, pairs = book(c, rng.randint(MIN[kind], 5), rng.choice([300, 600]))
    if len(pairs) < MIN[kind]:
        kind = 'linear'
    how, given = container(rng, shuffled(rng, [b for b, _ in pairs]))
    c.note(method=kind, container=how)
    curve = YieldCurveFactory().construct_yield_curve(given, G.METHODS[kind], today)
    reprices(c, curve, today, pairs, kind, 'solved')
    c.event('solved-' + kind)
    c.event('from-' + how)


def bootstrapped(c):
    rng = c.rng
    kind = rng.choice(['linear', 'linear', 'previous'])
    today, pairs = book(c, rng.randint(2, 6), rng.choice([300, 700, 1000]))
    how, given = container(rng, shuffled(rng, [b for b, _ in pairs]))
    c.note(method=kind, container=how)
    curve = YieldCurveFactory().bootstrap_yield_curve(given, G.METHODS[kind], today)
    reprices(c, curve, today, pairs, kind, 'bootstrapped')
    c.event('from-' + how)


def agree(c):
    """Bootstrapping and simultaneous solving find the same curve."""
    rng = c.rng
    today, pairs = book(c, rng.randint(2, 4), 400)
    bonds = [b for b, _ in pairs]
    f = YieldCurveFactory()
    a = f.bootstrap_yield_curve(shuffled(rng, bonds), G.METHODS['linear'], today)
    b = f.construct_yield_curve(shuffled(rng, bonds), G.METHODS['linear'], today)
    for (ka, va), (kb, vb) in zip(a.interpolation_values, b.interpolation_values):
        c.same('same-knots', ka, kb)
        c.eq('same-yields', float(va), float(vb), 0, 1e-6)
    for _ in range(10):
        d = today + timedelta(days=rng.randint(0, 400))
        c.eq('same-curve', float(a(d)), float(b(d)), 0, 1e-6, date=d)
    c.event('agree')
    c.seen(today, tuple(r.knot() for _, r in pairs))


def yields(c):
    rng = c.rng
    kind = ['linear', 'previous', 'quadratic', 'cubic'][c.index % 4]
    today, pairs = book(c, rng.randint(MIN[kind], 7), rng.choice([500, 3000, 7000]), coupons=True)
    if len(pairs) < MIN[kind]:
        kind = 'linear'
    ref = today + timedelta(days=rng.choice([0, 0, 0, rng.randint(1, 25), -rng.randint(1, 40)]))    # also before the purchase
    pairs = [(b, r) for b, r in pairs if (r.maturity - ref).days > 25 and r.accrued(ref) is not None and -0.2 < r.ytm(ref) < 0.6]
    if len(pairs) < MIN[kind]:
        raise Stop
    how, given = container(rng, shuffled(rng, [b for b, _ in pairs]))
    c.note(method=kind, container=how, on=ref)
    curve = YieldCurveFactory().construct_curve_from_yield_to_maturities(given, G.METHODS[kind], ref)
    knots = sorted((r.knot(), r.ytm(ref)) for _, r in pairs)
    c.same('knots-are-last-payment-dates', [k for k, _ in curve.interpolation_values], [k for k, _ in knots])
    m = O.RefCurve(knots, kind, 'ACTUAL_OVER_ACTUAL', ref, 'CONSTANT', 'CONSTANT')
    for k, y in knots:
        c.eq('yield-at-knot', float(curve(k)), y, 0, 2e-6, knot=k)
        c.event('yield')
    lo, hi = knots[0][0], knots[-1][0]
    grow = 1.0
    if kind in ('quadratic', 'cubic'):
        import numpy as np
        inv = np.linalg.inv(np.array([[m.f._b(j, m.f.k, x) for j in range(len(m.f.xs))] for x in m.f.xs]))
        grow = float(np.abs(inv).sum(axis=1).max())
    for _ in range(12):
        d = lo + timedelta(days=rng.randint(-20, (hi - lo).days + 20))
        c.eq('interpolated-yield', float(curve(d)), m(d), 0, 2e-6 * max(1.0, grow), date=d)
    if ref < today:
        c.event('before-purchase')
    c.event('from-' + how)
    c.seen(kind, ref, tuple(k for k, _ in knots))


def crossing(c):
    """Two neighbours whose last payment dates come in the opposite order to their maturities (different calendars or adjustments)."""
    rng = c.rng
    today, pairs = book(c, rng.randint(2, 3), 500)
    last = max(r.knot() for _, r in pairs)
    y = rng.uniform(0.0, 0.08)

    def bond(mat, adj, empty, price, coupon, months, freq):
        p = dict(price=price, coupon=coupon, principal=100, tenor=f'{months}M', purchase=today, maturity=mat, settle='T_PLUS_ONE_BUSINESS',
                 freq=freq, dcc='ACTUAL_OVER_ACTUAL', adj=adj)
        return G.make_bond('corporate', p, {} if empty else G.US_FEDERAL_HOLIDAYS, O.NONE if empty else O.US)

    for _ in range(400):
        year = last.year + 1 + rng.randint(0, 1)
        holidays = [d for d in O.us_holidays(year).values() if d.weekday() in (0, 4)]
        mid = rng.choice(holidays)
        if mid <= last + timedelta(days=30):
            continue
        two = []
        for _ in range(2):
            mat = mid + timedelta(days=rng.randint(-3, 3))
            months = rng.choice([12, 24, 36])
            while O.add_months(mat, -months) > today - timedelta(days=7):
                months += 12
            two.append((mat, rng.choice(['FOLLOWING', 'MODIFIED_FOLLOWING']), rng.random() < 0.5, round(rng.uniform(1, 8), 3), months,
                        rng.choice(['SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL'])))
        made = [bond(m, a, e, 100.0, cp, mo, f) for m, a, e, cp, mo, f in two]
        (_, r1), (_, r2) = made
        if (r1.maturity - r2.maturity).days * (r1.knot() - r2.knot()).days < 0 and \
                all(min(x[1] for x in r.received(today)) > today for r in (r1, r2)):
            break
    else:
        raise Stop
    out = []
    for (m, a, e, cp, mo, f), (_, r) in zip(two, made):
        flat = y + rng.uniform(-5e-4, 5e-4)
        price = sum(v * math.exp(-flat * O.frac(today, d, 'ACTUAL_OVER_ACTUAL')) for _, d, v in r.received(today))
        out.append(bond(m, a, e, round(price, 3), cp, mo, f))
    c.note(neighbours=two, yield_=y)
    rest = [x for x in pairs if x[1].maturity < last]       # a shorter bond or none: the neighbours end the curve
    allp = rest + out
    kind = rng.choice(['linear', 'linear', 'previous'])
    f = YieldCurveFactory()
    build = f.bootstrap_yield_curve if rng.random() < 0.7 else f.construct_yield_curve
    curve = build(shuffled(rng, [b for b, _ in allp]), G.METHODS[kind], today)
    reprices(c, curve, today, allp, kind, 'crossed')


QUICK_SCALE = 1
DRIVERS = [Driver('simultaneous', simultaneous, 48, 600, {'solved-linear': 8, 'solved-previous': 8, 'solved-cubic': 6, 'from-generator': 4}),
           Driver('bootstrapped', bootstrapped, 64, 800, {'bootstrapped': 60, 'from-generator': 4, 'other-principal': 8, 'with-zero-coupon': 8}),
           Driver('crossing', crossing, 24, 300, {'crossed': 24}),
           Driver('agree', agree, 16, 200, {'agree': 10}),
           Driver('yields', yields, 120, 1600, {'yield': 200, 'before-purchase': 10})]
