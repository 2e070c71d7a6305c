from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from .b01 import draw, COUPON, REDEMPTION

RULE = ('Random bonds with every settlement convention (both signs), day count, frequency, adjustment and calendar, looked at on purchase and '
        'on reference dates weighted to coupon dates, dated dates and the days around them, in random order; distinct by '
        '(bond, reference date) with accrued interest or a payment cut off by settlement.')
ASSUMPTIONS = ['A settlement on a coupon date carries the whole coupon as accrued interest (the buyer is entitled to that payment).',
               'Accrued interest after the last coupon date is undefined and not observed.']


def references(rng, r):
    out = []
    for _ in range(10):
        u = rng.random()
        if u < 0.5 and r.unadj:
            d = rng.choice(r.unadj) + timedelta(days=rng.randint(-5, 4))
        elif u < 0.65:
            d = r.dated + timedelta(days=rng.randint(-6, 6))
        else:
            d = r.dated + timedelta(days=rng.randint(0, max(1, (r.maturity - r.dated).days)))
        out.append(d)
    return out


def bond(c):
    rng = c.rng
    for _ in range(40):
        kind, p, repo, ref = draw(c)
        if rng.random() < 0.6:
            p['settle'] = rng.choice(G.SETTLE_NAMES)
        if rng.random() < 0.25:       # bought around the date on which interest begins to accrue
            p['purchase'] = O.add_months(p['maturity'], -O.tenor_months(p['tenor'])) + timedelta(days=rng.randint(0, 4))
        r = O.RefBond(p['price'], p['coupon'], p['principal'], p['tenor'], p['purchase'], p['maturity'], p['settle'], p['freq'],
                      p['dcc'], p['adj'], ref)
        if r.accrued() is not None:
            c.note(**p)
            return kind, p, repo, ref
    raise Stop


def accrued(c):
    rng = c.rng
    kind, p, repo, ref = bond(c)
    b, r = G.make_bond(kind, p, repo, ref)
    scale = max(1.0, r.cpn)
    c.same('settlement-date', b.settlement_date, r.settlement())

    def own():
        c.eq('recorded-accrued-interest', b.accrued_interest, r.accrued(), 1e-9, 1e-9 * scale)
        c.eq('recorded-full-price', b.full_price, r.full_price(), 1e-10, 1e-9)
        c.eq('own-accrued-interest', b.calculate_accrued_interest(), r.accrued(), 1e-9, 1e-9 * scale)
    own()
    c.eq('own-full-price', b.get_full_price(), r.full_price(), 1e-10, 1e-9)
    for d in references(rng, r):
        s = r.settlement(d)
        a = r.accrued(d)
        if a is None:
            if s < r.dated:
                c.raises('before-dated-date', ValueError, lambda: b.calculate_accrued_interest(d), reference=d, settlement=s)
                c.raises('before-dated-date-price', ValueError, lambda: b.get_full_price(d), reference=d, settlement=s)
                c.event('before-dated-date')
            continue
        c.eq('accrued-interest', b.calculate_accrued_interest(d), a, 1e-9, 1e-9 * scale, reference=d, settlement=s)
        c.eq('full-price', b.get_full_price(d), r.full_price(d), 1e-10, 1e-9, reference=d, settlement=s)
        c.ok('between-zero-and-coupon', -1e-12 <= a <= r.cpn * (1 + 1e-12))
        c.event('reference')
        if s in r.unadj:
            c.event('settles-on-coupon-date')
        if s == r.dated:
            c.event('settles-on-dated-date')
        if s < r.unadj[0] if r.n else False:
            c.event('first-period')
        if a > 0:
            c.seen(kind, p['maturity'], p['tenor'], p['freq'], p['dcc'], p['settle'], d)
    own()        # looking at other dates leaves the bond's own numbers alone
    if r.n == 0:
        c.event('zero-coupon')


def entitlement(c):
    rng = c.rng
    kind, p, repo, ref = bond(c)
    b, r = G.make_bond(kind, p, repo, ref)
    pays = list(b[COUPON]) + list(b[REDEMPTION])
    rows = r.payments()
    c.same('payments', [q.unadjusted_payment_date for q in pays], [x[0] for x in rows])
    for d in [None] + references(rng, r):
        s = r.settlement(d)
        got = [bool(b.is_payment_received(q) if d is None else b.is_payment_received(q, d)) for q in pays]
        c.same('entitled', got, [x[0] >= s for x in rows], reference=d, settlement=s)
        c.event('entitlement', len(rows))
        if any(x[0] < s <= x[1] for x in rows):
            c.event('settles-between-coupon-date-and-payment')
        if any(x[0] == s for x in rows):
            c.event('settles-on-coupon-date')
        if 0 < sum(got) < len(got) or any(x[0] == s for x in rows):
            c.seen(kind, p['maturity'], p['tenor'], p['settle'], d)


def on_a_curve(c):
    """The value on a curve counts exactly the payments of a buyer on the curve's reference date."""
    rng = c.rng
    kind, p, repo, ref = bond(c)
    b, r = G.make_bond(kind, p, repo, ref)
    for d in rng.sample(references(rng, r), 3):
        if r.settlement(d) < d:        # payments before the curve begins have no discount factor here
            continue
        disc, mod = G.discount_pair(rng, d, max(400, (r.knot() - d).days + 60), left='CONSTANT')
        exp = r.pv(mod, d)
        c.note(reference=d, curve=[mod.kind, mod.dcc, mod.knots])
        c.eq('value-on-curve', b.present_value(disc), exp, 1e-8, 1e-8 * p['principal'], reference=d)
        c.eq('value-by-curve', disc.present_value(b), exp, 1e-8, 1e-8 * p['principal'], reference=d)
        c.event('valuation')
        c.seen(kind, p['maturity'], d)


DRIVERS = [Driver('accrued', accrued, 500, 12000, {'reference': 2000, 'settles-on-coupon-date': 100, 'first-period': 100, 'before-dated-date': 50}),
           Driver('entitlement', entitlement, 300, 6000, {'entitlement': 5000, 'settles-between-coupon-date-and-payment': 50, 'settles-on-coupon-date': 100}),
           Driver('on_a_curve', on_a_curve, 200, 4000, {'valuation': 200})]
