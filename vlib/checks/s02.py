"""S02: swap legs' amounts, value, direction, implied rate against independent cash-flow arithmetic."""
from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.assets.base_cashflow import CashflowKeys, Cashflow
from . import s01

RULE = ('Random term and overnight swaps with random rate functions, discount curves before, at and after the start (so that payments lie in the '
        'past), legs generated with and without storing them, regenerated, replaced and missing; distinct by (kind, tenor, value, implied rate).')
ASSUMPTIONS = ['The index is a deterministic function of the date above -100%.', 'Discount factors are positive.']


def rate_fn(rng, start):
    kind = rng.choice(['flat', 'slope', 'wiggle', 'negative'])
    a, b = rng.uniform(0.0, 0.08), rng.uniform(-0.002, 0.003)
    import math

    def f(d):
        t = (d - start).days / 365.0
        return {'flat': a, 'slope': a + b * t, 'wiggle': a + 0.01 * math.sin(0.7 * (d - start).days), 'negative': -0.004 + b * t}[kind]
    return f


def amounts(p, ref, rate):
    """[(payment date, amount)] of both legs."""
    fl = []
    for a, b, tau, pay, fix in ref.floating:
        if p['kind'] == 'term':
            r = rate(fix)
        else:
            ds, growth, total = ref.cal.days(a, b), 1.0, 0.0
            for x, y in zip(ds, ds[1:]):
                growth *= 1 + rate(x) * (y - x).days / 360.0
                total += (y - x).days / 360.0
            r = (growth - 1) / total
        fl.append((pay, p['notional'] * tau * r))
    fx = [(pay, p['notional'] * tau * p['rate']) for a, b, tau, pay, _ in ref.fixed]
    return fl, fx


def setup(c):
    rng = c.rng
    p = s01.params(c, 120)
    if p['kind'] == 'overnight' and p['months'] > 36:
        p['kind'] = 'term'
    repo, cal = G.rcalendar(rng)
    ref = s01.Ref(p, cal)
    if any(a >= b for a, b, *_ in ref.floating + ref.fixed):
        raise Stop
    rate = rate_fn(rng, ref.start)
    span = (ref.end - ref.start).days
    today = rng.choice([p['purchase'], ref.start, ref.start - timedelta(days=rng.randint(0, 60)),
                        ref.start + timedelta(days=rng.randint(0, max(1, span - 5))), rng.choice(ref.fixed)[3], rng.choice(ref.floating)[3]])
    disc, mod = G.discount_pair(rng, today, max(30, (ref.end - today).days + 40), left=rng.choice(['ERROR', 'CONSTANT']), right='CONSTANT')
    c.note(**p, calendar=cal.name, reference=today)
    return p, repo, ref, rate, today, disc, mod


def pv(pays, mod, today):
    return sum(a * mod(d) for d, a in pays if d >= today)


def values(c):
    rng = c.rng
    p, repo, ref, rate, today, disc, mod = setup(c)
    fl, fx = amounts(p, ref, rate)
    sw = s01.build(p, repo)
    n = p['notional']
    c.raises('refused-before-legs', ValueError, lambda: sw.present_value(disc))
    c.raises('refused-before-legs-curve', ValueError, lambda: disc.present_value(sw))
    # Generating without storing changes nothing.
    a, b = sw.generate_fixed_leg_cashflow(set_cashflow=False), sw.generate_floating_leg_cashflow(rate, set_cashflow=False)
    for name, cf, exp in (('fixed', a, fx), ('floating', b, fl)):
        c.same(name + '-dates', [q.payment_date for q in cf], [d for d, _ in sorted(exp, key=lambda e: e[0])])
        c.eqv(name + '-amounts', [q.payment for q in cf], [x for _, x in sorted(exp, key=lambda e: e[0])], 1e-9, 1e-9 * n)
    c.raises('not-stored', ValueError, lambda: sw.present_value(disc))
    first = rng.choice(['fixed', 'floating'])
    for k, leg in enumerate([first, 'floating' if first == 'fixed' else 'fixed']):
        if leg == 'fixed':
            cf = sw.generate_fixed_leg_cashflow() if rng.random() < 0.5 else sw.generate_fixed_leg_cashflow(set_cashflow=True)
        else:
            cf = sw.generate_floating_leg_cashflow(rate)
        if k == 0:
            c.raises('refused-with-one-leg', ValueError, lambda: sw.present_value(disc))
    c.eqv('stored-fixed', [q.payment for q in sw.fixed_leg], [q.payment for q in a], 1e-12, 0)
    c.eqv('stored-floating', [q.payment for q in sw.floating_leg], [q.payment for q in b], 1e-12, 0)
    sign = 1 if p['direction'] == 'PAYER_FIXED' else -1
    exp = sign * (pv(fl, mod, today) - pv(fx, mod, today))
    scale = n + sum(abs(x) for _, x in fl + fx)
    got = sw.present_value(disc)
    c.eq('value', got, exp, 1e-9, 1e-9 * scale)
    c.eq('value-by-curve', disc.present_value(sw), exp, 1e-9, 1e-9 * scale)
    c.eq('same-again', sw.present_value(disc), float(got), 0, 0)
    # Direction, notional.
    other = s01.build(p, repo, direction='RECEIVER_FIXED' if sign == 1 else 'PAYER_FIXED')
    other.generate_fixed_leg_cashflow()
    other.generate_floating_leg_cashflow(rate)
    c.eq('reversed', other.present_value(disc), -float(got), 1e-10, 1e-10 * scale)
    big = s01.build(p, repo, notional=7 * n)
    big.generate_fixed_leg_cashflow()
    big.generate_floating_leg_cashflow(rate)
    c.eq('scaled', big.present_value(disc), 7 * float(got), 1e-10, 1e-9 * scale)
    # Another index path replaces the floating leg.
    rate2 = rate_fn(rng, ref.start)
    sw.generate_floating_leg_cashflow(rate2, set_cashflow=False)
    c.eq('unstored-leg-ignored', sw.present_value(disc), float(got), 0, 0)
    sw.generate_floating_leg_cashflow(rate2)
    fl2, _ = amounts(p, ref, rate2)
    c.eq('regenerated', sw.present_value(disc), sign * (pv(fl2, mod, today) - pv(fx, mod, today)), 1e-9, 1e-9 * scale)
    c.event('swap')
    c.event(p['kind'])
    if any(d < today for d, _ in fl + fx):
        c.event('past-payment')
    if any(d == today for d, _ in fl + fx):
        c.event('payment-today')
    c.seen(p['kind'], p['tenor'], p['direction'], round(exp, 6))


def implied(c):
    rng = c.rng
    p, repo, ref, rate, today, disc, mod = setup(c)
    fl, fx1 = amounts(dict(p, rate=1.0), ref, rate)
    annuity = pv(fx1, mod, today)
    if annuity <= 1e-9 * p['notional']:
        raise Stop
    exp = pv(fl, mod, today) / annuity
    sw = s01.build(p, repo)
    got = float(sw.implied_rate(disc, rate))
    c.eq('implied-rate', got, exp, 1e-9, 1e-11 * max(1.0, p['notional'] / annuity))
    c.same('implied-does-not-store', (sw.floating_leg, sw.fixed_leg), (None, None))
    c.raises('implied-does-not-store', ValueError, lambda: sw.present_value(disc))
    sw.generate_fixed_leg_cashflow()
    sw.implied_rate(disc, rate)
    c.same('implied-does-not-store', sw.floating_leg, None)
    c.raises('implied-does-not-store', ValueError, lambda: sw.present_value(disc))
    # Of the index it is given, whatever legs the swap already has.
    rate2 = rate_fn(rng, ref.start)
    fl2, _ = amounts(p, ref, rate2)
    exp2 = pv(fl2, mod, today) / annuity
    tol = 1e-11 * max(1.0, p['notional'] / annuity)
    held = s01.build(p, repo)
    held.generate_floating_leg_cashflow(rate)
    if rng.random() < 0.5:
        held.generate_fixed_leg_cashflow()
    c.eq('implied-by-another-index', held.implied_rate(disc, rate2), exp2, 1e-9, tol)
    held.generate_fixed_leg_cashflow()
    sign = 1 if p['direction'] == 'PAYER_FIXED' else -1
    size = p['notional'] + sum(abs(x) for _, x in fl + fl2)
    worth = lambda f: sign * (pv(f, mod, today) - p['rate'] * annuity)
    c.eq('implied-keeps-legs', held.present_value(disc), worth(fl), 1e-9, 1e-9 * size)
    c.eq('implied-and-stored', held.implied_rate(disc, rate2, set_cashflow=True), exp2, 1e-9, tol)
    c.eq('implied-stored-its-index', held.present_value(disc), worth(fl2), 1e-9, 1e-9 * size)
    c.eq('implied-back', held.implied_rate(disc, rate), exp, 1e-9, tol)
    at = s01.build(p, repo, rate=got)
    at.generate_fixed_leg_cashflow()
    c.eq('implied-again', at.implied_rate(disc, rate, set_cashflow=True), got, 1e-12, 1e-15)
    c.eq('worth-zero', at.present_value(disc), 0.0, 0, 1e-9 * p['notional'])
    # The payer gains exactly the annuity times the rate difference.
    bump = rng.uniform(-0.02, 0.02)
    off = s01.build(p, repo, rate=got + bump)
    off.generate_fixed_leg_cashflow()
    off.generate_floating_leg_cashflow(rate)
    sign = 1 if p['direction'] == 'PAYER_FIXED' else -1
    c.eq('off-market', off.present_value(disc), -sign * bump * annuity, 1e-7, 1e-9 * p['notional'])
    c.event('implied')
    if any(d < today for d, _ in fl + fx1):
        c.event('past-payment')
    c.seen(p['kind'], p['tenor'], round(exp, 12))


def annualized(c):
    """The overnight rate compounds every business day of any interval."""
    rng = c.rng
    p = dict(s01.params(c, 12), kind='overnight')
    repo, cal = G.rcalendar(rng)
    sw = s01.build(p, repo)
    for _ in range(6):
        a = cal.roll_fwd(G.rdate(rng, 2000, 2040))
        b = cal.roll_fwd(a + timedelta(days=rng.choice([1, 3, 7, 31, rng.randint(1, 400)])))
        rate = rate_fn(rng, a)
        ds, growth, total = cal.days(a, b), 1.0, 0.0
        if len(ds) < 2:
            continue
        for x, y in zip(ds, ds[1:]):
            growth *= 1 + rate(x) * (y - x).days / 360.0
            total += (y - x).days / 360.0
        c.eq('annualised', sw.calculate_annualized_rate(rate, a, b), (growth - 1) / total, 1e-9, 1e-12, start=a, end=b)
        # The simple rate over the period restores the growth, and lies above a constant rate (compounding).
        c.eq('growth', 1 + sw.calculate_annualized_rate(rate, a, b) * (b - a).days / 360.0, growth, 1e-10, 1e-12, start=a, end=b)
        c.event('annualised')
        c.seen(a, b, cal.name)


QUICK_SCALE = 2
DRIVERS = [Driver('values', values, 300, 6000, {'swap': 250, 'term': 100, 'overnight': 40, 'past-payment': 80, 'payment-today': 20}),
           Driver('implied', implied, 240, 5000, {'implied': 150, 'past-payment': 50}),
           Driver('annualized', annualized, 64, 1500, {'annualised': 200})]
