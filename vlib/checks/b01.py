from datetime import date, timedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.assets.base_cashflow import CashflowKeys

RULE = ('Random treasury and corporate bonds over every payment frequency, tenors in years and months (short first periods included), '
        'maturities weighted to month ends, leap days and holidays, both adjustments and US/empty/custom calendars; distinct by '
        '(maturity, tenor, frequency, adjustment, calendar) with at least one coupon.')
ASSUMPTIONS = ['Months are subtracted from the maturity date with the day clipped to the month length.']
COUPON, REDEMPTION = CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT


def draw(c, **kw):
    """A bond whose settlement falls inside its life (its constructor records accrued interest)."""
    rng = c.rng
    for _ in range(40):
        repo, ref = G.rcalendar(rng)
        p = G.rbond_params(rng, max_years=rng.choice([3, 12, 30, 30, 100]), **kw)
        kind = rng.choice(['treasury', 'corporate'])
        r = O.RefBond(p['price'], p['coupon'], p['principal'], p['tenor'], p['purchase'], p['maturity'], p['settle'], p['freq'],
                      p['dcc'], p['adj'], ref)
        if r.accrued() is not None:
            c.note(kind=kind, calendar=ref.name, **p)
            return kind, p, repo, ref
    raise Stop


def schedules(c):
    kind, p, repo, ref = draw(c)
    b, r = G.make_bond(kind, p, repo, ref)
    c.same('dated-date', b.dated_date, r.dated)
    coupons, redemption = list(b[COUPON]), list(b[REDEMPTION])
    c.same('coupon-dates', [q.unadjusted_payment_date for q in coupons], r.unadj)
    c.same('payment-dates', [q.payment_date for q in coupons], [x[1] for x in r.coupons])
    c.eqv('coupon-amounts', [q.payment for q in coupons], [r.cpn] * len(r.unadj), 1e-12, 0)
    c.same('principal', [(q.unadjusted_payment_date, q.payment_date, q.payment) for q in redemption], [r.redemption])
    c.eq('coupon-rate', b.calculate_coupon_payment(), r.cpn, 1e-12, 0)
    c.same('size', len(b), 2)
    if r.n:
        c.ok('strictly-after-dated-date', all(q.unadjusted_payment_date > b.dated_date for q in coupons))
        c.same('last-coupon-with-principal', coupons[-1].unadjusted_payment_date, p['maturity'])
        yearly = sum(q.payment for q in coupons[-r.n:]) if len(coupons) >= r.n else None
        if yearly is not None:
            c.eq('a-year-of-coupons', yearly, p['principal'] * p['coupon'] / 100.0, 1e-12, 0)
        c.event('coupon', len(coupons))
        c.seen(kind, p['maturity'], p['tenor'], p['freq'], p['adj'], ref.name)
    else:
        c.event('zero-coupon')
    knot = b.to_knot_value_pair()
    c.same('last-payment', knot.knot, r.knot())
    if any(x[0] != x[1] for x in r.payments()):
        c.event('adjusted')
    if any(x[1] < x[0] for x in r.payments()):
        c.event('rolled-back')
    if r.n and O.add_months(r.unadj[0], -12 // r.n) < r.dated:
        c.event('short-first-period')


def twins(c):
    """The same bond through either class, and with the same tenor in years or months."""
    kind, p, repo, ref = draw(c)
    months = O.tenor_months(p['tenor'])
    alt = dict(p)
    if months % 12 == 0:
        alt['tenor'] = f'{months}M' if p['tenor'][-1] == 'Y' else f'{months // 12}Y'
    a, _ = G.make_bond('treasury', p, repo, ref)
    b, _ = G.make_bond('corporate', alt, repo, ref)
    for key in (COUPON, REDEMPTION):
        rows = [[(q.unadjusted_payment_date, q.payment_date, q.payment) for q in x[key]] for x in (a, b)]
        c.same('same-schedule', rows[0], rows[1])
    c.event('twin')
    c.seen(p['maturity'], p['tenor'], p['freq'])


def defaults(c):
    """The defaults: semi-annual, following, federal holidays."""
    rng = c.rng
    p = G.rbond_params(rng, coupon_bearing=True)
    p.update(freq='SEMI_ANNUAL', adj='FOLLOWING', settle='T_PLUS_ONE_BUSINESS', dcc='ACTUAL_OVER_ACTUAL')
    r = O.RefBond(p['price'], p['coupon'], p['principal'], p['tenor'], p['purchase'], p['maturity'])
    if r.accrued() is None:
        raise Stop
    c.note(**p)
    for name, cls in G.bond_classes().items():
        b = cls(price=p['price'], coupon_rate=p['coupon'], principal=p['principal'], tenor=p['tenor'], purchase_date=p['purchase'],
                maturity_date=p['maturity'])
        c.same('default-schedule', [(q.unadjusted_payment_date, q.payment_date) for q in b[COUPON]], [x[:2] for x in r.coupons], kind=name)
        c.same('default-redemption', [(q.payment_date, q.payment) for q in b[REDEMPTION]], [r.redemption[1:]], kind=name)
        c.event('default')


def rejected(c):
    rng = c.rng
    kind, p, repo, ref = draw(c)
    for bad in ({'tenor': '10D'}, {'tenor': '5W'}):
        c.raises('tenor-unit', ValueError, lambda: G.make_bond(kind, {**p, **bad}, repo, ref), **bad)
    c.raises('monthly-coupons', ValueError, lambda: G.make_bond(kind, {**p, 'freq': 'MONTHLY'}, repo, ref))
    c.event('rejected')
    c.seen(kind, p['maturity'])


O.FREQ.setdefault('MONTHLY', 12)
DRIVERS = [Driver('schedules', schedules, 900, 20000, {'coupon': 3000, 'adjusted': 200, 'rolled-back': 30, 'zero-coupon': 30, 'short-first-period': 50}),
           Driver('twins', twins, 200, 4000, {'twin': 100}),
           Driver('defaults', defaults, 100, 2000, {'default': 100}),
           Driver('rejected', rejected, 24, 200, {'rejected': 16})]
