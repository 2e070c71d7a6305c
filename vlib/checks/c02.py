from datetime import datetime, timedelta

from .. import gen as G, oracle as O, scenario, taps
from ..harness import Driver
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, ZeroCoupon
from fixedIncome.src.curves.base_curve import KnotValuePair

RULE = ('Random cashflows (past, on-the-day, future, repeated dates, missing and negative amounts) on random discount curves of every '
        'interpolation method and reference date, plus every present value taken in situ by the library; distinct by '
        '(schedule, curve) with at least one past and one counted payment.')
ASSUMPTIONS = ['Discount factors are read from an independent interpolation model, so curve values are part of what is observed.']


def _curve(c):
    rng = c.rng
    ref = G.rdatetime(rng, 2000, 2040) if rng.random() < 0.2 else G.rdate(rng, 2000, 2040)
    method = rng.choice(['linear', 'linear', 'previous', 'cubic', 'quadratic'])
    disc, mod = G.discount_pair(rng, ref, 3650, method=method, right='CONSTANT', left='CONSTANT')
    return rng, ref, disc, mod


def counted(d, ref):
    return O.midnight(d) >= O.midnight(ref)


def values(c):
    rng, ref, disc, mod = _curve(c)
    for _ in range(6):
        pays = []
        mixed = rng.random() < 0.2      # payments at timestamps on a curve of dates, or on dates (the beginning of the day) on a curve of timestamps
        hour = timedelta(seconds=rng.choice([0, 43200]))
        day = (lambda d: d.date() if isinstance(d, datetime) else datetime(d.year, d.month, d.day) + hour) if mixed else (lambda d: d)
        if mixed:
            c.event('dates-on-timestamps' if isinstance(ref, datetime) else 'timestamps-on-dates')
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            off = rng.choice([0, -1, 1, rng.randint(-900, 4200), rng.randint(1, 3649), rng.randint(1, 3649)])
            pays.append((day(ref + timedelta(days=off)), None if rng.random() < 0.12 else rng.uniform(-1, 2) * 10 ** rng.choice([0, 2, 6, 6, 11])))
        if pays and rng.random() < 0.3:     # a payment made twice counts twice
            pays += rng.sample(pays, rng.randint(1, len(pays)))
        scale = max([1.0] + [abs(a) for _, a in pays if a is not None])
        exp = sum(a * mod(d) for d, a in pays if a is not None and counted(d, ref))
        made = {}
        cf = Cashflow([made.setdefault(p, Payment(*p)) for p in pays])
        c.note(reference=ref, payments=pays)
        pv = cf.present_value(disc)
        tol = dict(rtol=1e-9, atol=1e-9 * scale)
        c.eq('value', pv, exp, **tol)
        c.eq('value-by-curve', disc.present_value(cf), exp, **tol)
        # additive over a partition, proportional to the amounts, indifferent to past and empty payments
        cut = [rng.random() < 0.5 for _ in pays]
        a = Cashflow(Payment(*p) for p, s in zip(pays, cut) if s)
        b = Cashflow(Payment(*p) for p, s in zip(pays, cut) if not s)
        c.eq('additive', a.present_value(disc) + b.present_value(disc), pv, **tol)
        tiny = 10.0 ** -rng.randint(6, 14)      # also amounts far below a cent are discounted
        c.eq('proportional-tiny', Cashflow(Payment(d, None if x is None else tiny * x) for d, x in pays).present_value(disc), tiny * pv, 1e-9, tiny * tol['atol'])
        f = rng.uniform(-3, 3)
        c.eq('proportional', Cashflow(Payment(d, None if x is None else f * x) for d, x in pays).present_value(disc), f * pv, **tol)
        cf.add_payment(Payment(day(ref - timedelta(days=rng.randint(2, 500))), 1e7))
        cf.add_payment(Payment(day(ref + timedelta(days=rng.randint(0, 3000))), None))
        c.eq('past-and-empty', cf.present_value(disc), exp, **tol)
        d, x = day(ref + timedelta(days=rng.choice([0, 0, rng.randint(0, 3600)]))), rng.uniform(1, 100)
        cf.add_payment(Payment(d, x))
        c.eq('one-more', cf.present_value(disc), exp + (x * mod(d) if counted(d, ref) else 0), **tol)
        z = day(ref + timedelta(days=rng.choice([0, 1, rng.randint(-40, 4000)])))
        c.eq('zero-coupon', ZeroCoupon(z, 0.5).present_value(disc), mod(z) if counted(z, ref) else 0.0, 1e-9, 1e-12, payment=z)
        c.event('valuation')
        if any(d == ref for d, x in pays if x is not None):
            c.event('paid-on-the-reference-date')
        if any(not counted(d, ref) for d, _ in pays) and exp:
            c.seen(ref, tuple(pays))
            c.event('mixed-past-and-future')


def moving_curve(c):
    """The same cashflow on a curve whose knots are replaced: the value follows the knots."""
    rng, ref, disc, mod = _curve(c)
    pays = [(ref + timedelta(days=rng.randint(-100, 3649)), rng.uniform(1, 100)) for _ in range(5)]
    cf = Cashflow(Payment(*p) for p in pays)
    knots = list(mod.knots)
    for _ in range(5):
        i = rng.randrange(len(knots))
        knots[i] = (knots[i][0], rng.uniform(0.3, 1.1))
        if rng.random() < 0.5:
            disc.reset_interpolation_value(KnotValuePair(*knots[i]), i)
        else:
            disc.reset_interpolation_values([KnotValuePair(*k) for k in reversed(knots)])
        m = O.RefCurve(knots, mod.kind, mod.dcc, ref, 'CONSTANT', 'CONSTANT')
        c.note(knots=knots, payments=pays, reference=ref)
        c.eq('value-follows-curve', cf.present_value(disc), sum(a * m(d) for d, a in pays if counted(d, ref)), 1e-8, 1e-8)
        c.event('moved')
        c.seen(ref, tuple(knots))


def in_situ(c):
    with taps.cashflow_values(c):
        scenario.ALL[c.index % 2](c)


DRIVERS = [Driver('values', values, 300, 6000, {'valuation': 1000, 'paid-on-the-reference-date': 100, 'mixed-past-and-future': 200, 'dates-on-timestamps': 30, 'timestamps-on-dates': 150}),
           Driver('moving_curve', moving_curve, 120, 2500, {'moved': 300}),
           Driver('in_situ', in_situ, 16, 100)]
