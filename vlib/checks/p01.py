import math
from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, ZeroCoupon
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.risk.key_rate import KeyRate
from .b01 import draw
from . import k03, y02

RULE = ('Random portfolios of bonds, zero-coupon claims, cashflows and portfolios, with long, short, fractional, zero and repeated positions '
        'and cash, valued on discount and yield curves and differentiated by key rates; distinct by (quantities, cash, value).')
ASSUMPTIONS = ['Key rates are derived from portfolios whose positions have a calibration date.']


def _assets(c, ref, span, n):
    rng = c.rng
    out = []
    for _ in range(n):
        k = rng.choice(['bond', 'bond', 'zero', 'cashflow', 'portfolio'])
        if k == 'bond':
            try:
                kind, p, repo, rc = draw(c, purchase=ref)
            except Stop:
                continue
            b, r = G.make_bond(kind, p, repo, rc)
            if r.settlement(ref) < ref:
                continue
            out.append((b, lambda df, r=r: r.pv(df, ref)))
        elif k == 'zero':
            d = ref + timedelta(days=rng.randint(-20, span))
            out.append((ZeroCoupon(d, 0.7), lambda df, d=d: df(d) if d >= ref else 0.0))
        else:
            pays = [(ref + timedelta(days=rng.randint(-50, span)), rng.uniform(-10, 100)) for _ in range(rng.randint(0, 4))]
            f = lambda df, pays=pays: sum(a * df(d) for d, a in pays if d >= ref)
            cf = Cashflow(Payment(*p) for p in pays)
            if k == 'cashflow':
                out.append((cf, f))
            else:
                w, cash = rng.uniform(-3, 3), rng.uniform(0, 50)
                out.append((Portfolio([PortfolioEntry(w, cf)], cash), lambda df, f=f, w=w, cash=cash: w * f(df) + cash))
    return out


def values(c):
    rng = c.rng
    ref = G.rdate(rng, 2005, 2035)
    assets = _assets(c, ref, 4000, rng.randint(0, 6))
    if assets and rng.random() < 0.4:
        assets.append(rng.choice(assets))            # the same instrument twice
    q = [rng.choice([1, -1, 0, 10, 0.25, rng.uniform(-100, 100)]) for _ in assets]
    cash = rng.choice([None, 0.0, rng.uniform(-1e4, 1e4)])
    entries = [PortfolioEntry(w, a) for w, (a, _) in zip(q, assets)]
    src = list(entries)
    kw = {} if cash is None else dict(cash_amount=cash)
    pf = Portfolio(iter(src) if rng.random() < 0.4 else src, **kw)
    disc, mod = G.discount_pair(rng, ref, 4000, left='CONSTANT', right='CONSTANT')
    exp_parts = [w * f(mod) for w, (_, f) in zip(q, assets)]
    exp = (cash or 0.0) + sum(exp_parts)
    scale = 1 + sum(abs(x) for x in exp_parts) + abs(cash or 0)
    c.note(reference=ref, quantities=q, cash=cash, kinds=[type(a).__name__ for a, _ in assets])
    c.eq('value', pf.present_value(disc), exp, 1e-8, 1e-8 * scale)
    c.eq('value-by-curve', disc.present_value(pf), exp, 1e-8, 1e-8 * scale)
    c.eq('sum-of-its-own-positions', pf.present_value(disc), (cash or 0.0) + sum(e.quantity * e.asset.present_value(disc) for e in pf), 1e-9, 1e-9 * scale)
    c.same('positions', [(e.quantity, id(e.asset)) for e in pf], [(e.quantity, id(e.asset)) for e in entries])
    c.same('positions-again', [(e.quantity, id(e.asset)) for e in pf], [(e.quantity, id(e.asset)) for e in entries])
    c.same('positions-property', [(e.quantity, id(e.asset)) for e in pf.assets], [(e.quantity, id(e.asset)) for e in entries])
    for _ in range(2):
        c.same('walk', [id(next(pf).asset) for _ in entries], [id(e.asset) for e in entries])
        c.raises('end', StopIteration, lambda: next(pf))
    if entries:
        first = [id(next(pf).asset) for _ in range(rng.randint(1, len(entries)))]     # reading it in between does not move the step
        list(pf), pf.assets, pf.present_value(disc)
        c.same('walk-on', first + [id(next(pf).asset) for _ in range(len(entries) - len(first))], [id(e.asset) for e in entries])
        c.raises('end', StopIteration, lambda: next(pf))
    src.clear()
    c.eq('own-list', pf.present_value(disc), exp, 1e-8, 1e-8 * scale)
    small = rng.choice([1e-6, 1e-9])                 # however small the position
    c.eq('small-positions', Portfolio([PortfolioEntry(small * e.quantity, e.asset) for e in entries]).present_value(disc) / small, exp - (cash or 0.0), 1e-8, 1e-8 * scale)
    # homogeneous in the positions, additive over portfolios
    f = rng.uniform(-3, 3)
    big = Portfolio([PortfolioEntry(f * e.quantity, e.asset) for e in entries], (cash or 0.0) * f)
    c.eq('scaled', big.present_value(disc), f * exp, 1e-8, 1e-8 * scale)
    both = Portfolio([PortfolioEntry(1, pf), PortfolioEntry(-1, big)])
    c.eq('portfolio-of-portfolios', both.present_value(disc), (1 - f) * exp, 1e-8, 1e-8 * scale)
    c.event('portfolio')
    if any(w < 0 for w in q):
        c.event('short')
    if cash:
        c.event('cash')
    c.seen(tuple(q), cash, round(exp, 6))


def risks(c):
    """Key-rate risk of a portfolio is the weighted sum of its positions' risks (cash has none)."""
    rng = c.rng
    cv, st = k03.curve(c)
    dcc = rng.choice(O.DCCS[:4])
    parts = [k03.asset(c, st) for _ in range(rng.randint(1, 4))]
    q = [rng.choice([1, -1, 0, 2.5, rng.uniform(-10, 10)]) for _ in parts]
    pf = Portfolio([PortfolioEntry(w, a) for w, (_, a, _) in zip(q, parts)], cash_amount=rng.choice([0.0, 1e4]))
    key = rng.choice(st['knots'])[0]
    prev, nxt = key - timedelta(days=rng.randint(3, 200)), key + timedelta(days=rng.randint(3, 200))
    kr = KeyRate(G.DCC[dcc], key, prev, nxt)
    c.note(quantities=q, key=(prev, key, nxt, dcc))
    exp = sum(w * k03.deriv(st, pays, lambda b: k03.tent_of(prev, key, nxt, dcc, b)) for w, (_, _, pays) in zip(q, parts))
    scale = 1e4 + sum(abs(w * x) for w, (_, _, pays) in zip(q, parts) for _, x in pays)
    c.eq('portfolio-derivative', float(cv.calculate_key_rate_deriv(pf, kr)), exp, 1e-7, 2e-8 * scale)
    own = sum(w * float(cv.calculate_key_rate_deriv(a, kr)) for w, (_, a, _) in zip(q, parts))
    c.eq('sum-of-position-derivatives', own, exp, 1e-7, 2e-8 * scale)
    c.eq('portfolio-risk', float(cv.calculate_pv01_risk(pf, kr).pv01), exp * 1e-4, 1e-7, 2e-12 * scale)
    c.event('risk')
    c.seen(tuple(q), key, prev, nxt)


def key_rates(c):
    rng = c.rng
    ref = G.rdate(rng, 2005, 2035)
    entries, knots = [], []
    for _ in range(rng.randint(1, 6)):
        if rng.random() < 0.5:
            d = ref + timedelta(days=rng.randint(1, 4000))
            a, k = ZeroCoupon(d, 0.5), d
        else:
            try:
                kind, p, repo, rc = draw(c)
            except Stop:
                continue
            a, r = G.make_bond(kind, p, repo, rc)
            k = r.knot()
        knots.append(k)
        entries.append(PortfolioEntry(rng.choice([1, -5, 0, 0.5]), a))
    if not entries:
        raise Stop
    if rng.random() < 0.4:                    # the same instrument, or another with its date, once more
        i = rng.randrange(len(entries))
        entries.insert(rng.randint(0, len(entries)), PortfolioEntry(rng.choice([2, -1]), rng.choice([entries[i].asset, ZeroCoupon(knots[i], 0.9)])))
        c.event('shared-date')
    dcc = rng.choice(O.DCCS[:4])
    pf = Portfolio(entries, 10.0)
    col = pf.to_key_rate_collection(G.DCC[dcc])
    ds = sorted(set(knots))
    c.note(knots=knots, dcc=dcc)
    c.same('key-dates', [k.key_rate_date for k in col], ds)
    c.same('key-neighbours', [(k.prior_date, k.next_date) for k in col],
           [(ds[i - 1] if i else None, ds[i + 1] if i + 1 < len(ds) else None) for i in range(len(ds))])
    c.same('key-day-counts', {k.day_count_convention.name for k in col}, {dcc})
    for _ in range(6):
        d = ds[0] + timedelta(days=rng.randint(-100, (ds[-1] - ds[0]).days + 100))
        c.eq('parallel', col(d), 1e-4, 1e-9, 1e-13, date=d)
    c.same('positions-kept', [(e.quantity, id(e.asset)) for e in pf], [(e.quantity, id(e.asset)) for e in entries])
    c.same('again', [k.key_rate_date for k in pf.to_key_rate_collection(G.DCC[dcc])], ds)
    c.event('key-rates')
    c.seen(tuple(ds), dcc)


DRIVERS = [Driver('values', values, 240, 5000, {'portfolio': 200, 'short': 50, 'cash': 50}),
           Driver('risks', risks, 80, 1500, {'risk': 60}),
           Driver('key_rates', key_rates, 120, 2500, {'key-rates': 80, 'shared-date': 15})]
