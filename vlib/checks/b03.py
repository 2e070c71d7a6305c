from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop

RULE = ('Random coupon-bearing bonds priced at yields from -1% to 25% (long and short lives, every frequency, day count, calendar and forward '
        'settlement convention), on purchase and reference dates; distinct by (bond, reference date).')
ASSUMPTIONS = ['Zero-coupon bonds are outside: the library defines no compounding frequency for them.',
               'Yields between -30% and 100%; rates above minus the payment frequency.',
               'Duration and convexity are compared with the analytic derivatives to the accuracy of one-basis-point differences.']
FORWARD = [n for n in G.SETTLE_NAMES if n.startswith('T_PLUS')]


def bond(c, tries=60):
    """A bond whose clean price is drawn through its yield."""
    rng = c.rng
    for _ in range(tries):
        repo, ref = G.rcalendar(rng)
        p = G.rbond_params(rng, max_years=rng.choice([2, 10, 30]), coupon_bearing=True)
        p['settle'] = rng.choice(FORWARD)
        r = O.RefBond(100.0, p['coupon'], p['principal'], p['tenor'], p['purchase'], p['maturity'], p['settle'], p['freq'], p['dcc'],
                      p['adj'], ref)
        a = r.accrued()
        if a is None or not r.received():
            continue
        y = rng.choice([rng.uniform(-0.01, 0.12), rng.uniform(0, 0.25)])
        price = round((r.value(y) - a) * 100.0 / p['principal'], 6)
        if price <= 5:
            continue
        p['price'] = price
        kind = rng.choice(['treasury', 'corporate', 'corporate'])
        c.note(kind=kind, calendar=ref.name, **p)
        b, r = G.make_bond(kind, p, repo, ref)
        return kind, p, b, r, repo, ref
    raise Stop


def _dates(rng, r, n):
    out = []
    for _ in range(n):
        d = r.purchase + timedelta(days=rng.randint(-200, max(1, (r.maturity - r.purchase).days - 20)))
        if rng.random() < 0.4:
            d = rng.choice(r.unadj) + timedelta(days=rng.randint(-4, 2))
        if d > r.dated and r.accrued(d) is not None and r.received(d):
            out.append(d)
    return out


def discounting(c):
    rng = c.rng
    kind, p, b, r, _, _ = bond(c)
    for d in [None] + _dates(rng, r, 3):
        ref = r.purchase if d is None else d
        for _ in range(3):
            y = rng.choice([0.0, rng.uniform(-0.2, 1.0), rng.uniform(-0.01, 0.1)])
            got = b.discount_cashflows_by_fixed_rate(y) if d is None else b.discount_cashflows_by_fixed_rate(y, d)
            c.eq('value-at-rate', got, r.value(y, ref), 1e-10, 1e-9, rate=y, reference=d)
            c.event('value')
        c.eq('undiscounted', b.discount_cashflows_by_fixed_rate(0.0, ref), sum(x[2] for x in r.received(ref)), 1e-12, 0)
        if len(r.received(ref)) < len(r.payments()):
            c.event('some-payments-cut-off')
        c.seen(kind, p['maturity'], p['tenor'], p['freq'], p['dcc'], d)


def yields(c):
    rng = c.rng
    kind, p, b, r, repo, ref = bond(c)
    for d in [None] + _dates(rng, r, 2):
        day = r.purchase if d is None else d
        exp = r.ytm(day)
        if not -0.3 < exp < 1.0:
            continue
        y = b.yield_to_maturity() if d is None else b.yield_to_maturity(d)
        target = r.full_price(day) * p['principal'] / 100.0
        c.eq('reprices', r.value(y, day), target, 1e-7, 1e-9, reference=d, yield_=y, expected_yield=exp)
        c.eq('reprices-itself', b.discount_cashflows_by_fixed_rate(y, day), target, 1e-7, 1e-9, reference=d)
        c.eq('yield', y, exp, 1e-6, 1e-7, reference=d)
        c.event('yield')
        c.seen(kind, p['maturity'], p['tenor'], p['freq'], d)
    q = dict(p, price=p['price'] * (1 + rng.choice([0.001, 0.01, 0.05])))
    b2, r2 = G.make_bond(kind, q, repo, ref)
    if -0.3 < r2.ytm() and r.ytm() < 1:
        c.ok('dearer-means-lower-yield', b2.yield_to_maturity() < b.yield_to_maturity(), price=p['price'], dearer=q['price'])
        c.event('comparison')


def sensitivities(c):
    rng = c.rng
    kind, p, b, r, _, _ = bond(c)
    y = r.ytm()
    if not -0.3 < y < 1.0:
        raise Stop
    full = r.full_price() * p['principal'] / 100.0
    dv, d2 = r.dvalue(y), r.d2value(y)
    c.eq('derivative', b.pv_deriv(), dv, 2e-6, 1e-6 * full)
    off = rng.uniform(-0.01, 0.01)
    c.eq('derivative-with-offset', b.pv_deriv(off), r.dvalue(y + off), 2e-6, 1e-6 * full, offset=off)
    at = rng.uniform(0, 0.2)
    c.eq('derivative-at-yield', b.pv_deriv(ytm=at), r.dvalue(at), 2e-6, 1e-6 * full, ytm=at)
    c.eq('duration', b.duration(), -dv / full, 2e-6, 1e-6)
    c.eq('convexity', b.convexity(), d2 / full, 1e-4, 2e-5)
    c.event('sensitivity')
    c.seen(kind, p['maturity'], p['tenor'], p['freq'], p['principal'])
    if kind == 'corporate':
        mac = r.value(y, weight=lambda t: t) / full
        c.eq('macaulay', b.macaulay_duration(y), mac, 1e-9, 1e-9)
        if p['freq']:
            c.eq('macaulay-vs-duration', mac / (1 + y / r.n), b.duration(), 2e-6, 2e-6)
        for d in _dates(rng, r, 3):
            z = rng.uniform(-0.01, 0.2)
            c.eq('macaulay-on-date', b.macaulay_duration(z, d), r.value(z, d, weight=lambda t: t) / (r.full_price(d) * p['principal'] / 100.0),
                 1e-9, 1e-9, reference=d, rate=z)
            c.event('macaulay-on-date')
            # looking at other dates leaves the duration alone
        c.eq('duration-again', b.duration(), -dv / full, 2e-6, 1e-6)
    c.eq('full-price-kept', b.full_price, r.full_price(), 1e-10, 1e-9)
    if kind == 'treasury':      # a new quote: yield and sensitivities follow it
        b.price = r.price = p['price'] * rng.uniform(0.97, 1.03)
        y = r.ytm()
        if not -0.3 < y < 1.0:
            raise Stop
        full = r.full_price() * p['principal'] / 100.0
        ask = rng.sample(['yield', 'duration', 'convexity', 'derivative', 'full price', 'knot'], 6)
        c.note(new_price=b.price, order=ask)
        for what in ask:
            if what == 'yield':
                c.eq('requoted-yield', b.yield_to_maturity(), y, 1e-6, 1e-7)
            elif what == 'duration':
                c.eq('requoted-duration', b.duration(), -r.dvalue(y) / full, 2e-6, 1e-6)
            elif what == 'convexity':
                c.eq('requoted-convexity', b.convexity(), r.d2value(y) / full, 1e-4, 2e-5)
            elif what == 'derivative':
                c.eq('requoted-derivative', b.pv_deriv(), r.dvalue(y), 2e-6, 1e-6 * full)
            elif what == 'full price':
                c.eq('requoted-full-price', b.get_full_price(), r.full_price(), 1e-10, 1e-9)
            else:
                c.same('requoted-knot', b.to_knot_value_pair().value, b.price)
        c.event('requoted')


QUICK_SCALE = 1
DRIVERS = [Driver('discounting', discounting, 300, 6000, {'value': 1500, 'some-payments-cut-off': 100}),
           Driver('yields', yields, 250, 5000, {'yield': 300, 'comparison': 100}),
           Driver('sensitivities', sensitivities, 250, 5000, {'sensitivity': 150, 'macaulay-on-date': 100, 'requoted': 40})]
