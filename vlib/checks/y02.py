import math
from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, ZeroCoupon
from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.curves.curve_enumerations import EndBehavior, InterpolationSpace
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve

RULE = ('Random yield curves of continuously compounded yields and of discount factors (all interpolation methods and day counts), taken '
        'through random histories of knot changes, adjusted and unadjusted derivations; every curve handed out is re-read at the end; '
        'distinct by (curve state, adjustment, date).')
ASSUMPTIONS = ['Curves of up to about fifty years, most of them of less than two (a yield curve is turned into daily discount factors).',
               'The derived curve is observed on whole days from the reference date (or the first discount-factor knot) to the last knot.']


def make(c, space, longest=None):
    rng = c.rng
    ref = G.rdate(rng, 2000, 2040)
    method = rng.choice(['linear', 'linear', 'previous', 'quadratic', 'cubic'])
    dcc = rng.choice(O.DCCS[:4])
    n = rng.choice([5, 6, 7, 8, 8, 12])
    days = sorted(rng.sample(range(1, longest or rng.choice([60, 250, 700] * 8 + [4000])), n))
    if rng.random() < 0.4:
        days[0] = 0
    left, right = rng.choice(['CONSTANT', 'CONSTANT', 'ERROR']), rng.choice(['CONSTANT', 'ERROR'])
    if days[0]:
        left = 'CONSTANT'      # the curve is needed from its reference date on
    value = (lambda d: rng.uniform(-0.02, 0.12)) if space == 'yield' else (lambda d: math.exp(-rng.uniform(0, 0.1) * d / 365.0))
    knots = [(ref + timedelta(days=d), value(d)) for d in days]
    inst = [ZeroCoupon(k, v) for k, v in knots]
    rng.shuffle(inst)
    cv = YieldCurve(instruments=inst if rng.random() < 0.5 else iter(inst), quote_adjustments=None, interpolation_method=G.METHODS[method],
                    interpolation_day_count_convention=G.DCC[dcc],
                    interpolation_space=InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD if space == 'yield' else InterpolationSpace.DISCOUNT_FACTOR,
                    reference_date=ref, left_end_behavior=getattr(EndBehavior, left), right_end_behavior=getattr(EndBehavior, right))
    c.note(space=space, method=method, dcc=dcc, reference=ref, knots=knots, ends=(left, right))
    return cv, dict(space=space, method=method, dcc=dcc, ref=ref, knots=knots, left=left)


def model(st, adj):
    """date -> discount factor of the state under the adjustment"""
    a = adj if adj is not None else (lambda d: 0.0)
    if st['space'] == 'yield':
        y = O.RefCurve(st['knots'], st['method'], st['dcc'], st['ref'], 'CONSTANT', 'CONSTANT')
        return lambda d: math.exp(-(y(d) + a(d)) * O.frac(st['ref'], d, st['dcc']))
    return O.RefCurve([(k, v + a(k)) for k, v in st['knots']], st['method'], st['dcc'], st['ref'])


def adjustments(rng, ref):
    k = rng.choice([1e-4, -1e-4, 0.01, rng.uniform(-0.02, 0.02)])
    return rng.choice([None, None, lambda d: k, lambda d: k * (d - ref).days / 365.0, lambda d: k if d.day < 15 else 0.0])


def observe(c, cv, st, adj, dc, n=12):
    rng = c.rng
    m = model(st, adj)
    first = st['ref'] if st['space'] == 'yield' else st['knots'][0][0]
    last = st['knots'][-1][0]
    span = (last - first).days
    # spline tolerance as for any curve
    tol = 1e-9 if st['method'] in ('linear', 'previous') else 1e-6
    c.same('reference-date', dc.reference_date, st['ref'])
    got = []
    for d in [first, last] + [k for k, _ in st['knots']][:4] + [first + timedelta(days=rng.randint(0, span)) for _ in range(n)]:
        v = float(dc(d))
        c.eq('discount-factor', v, m(d), tol, tol, date=d, adjusted=adj is not None, space=st['space'])
        got.append((d, v))
        c.seen(st['space'], st['method'], st['dcc'], d, round(v, 12))
    c.event('derived-' + st['space'] + ('-adjusted' if adj is not None else ''))
    return got


def histories(c):
    rng = c.rng
    cv, st = make(c, rng.choice(['yield', 'yield', 'factor']))
    handed = []
    hist = []
    c.note(history=hist)
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(['derive', 'derive', 'one', 'all', 'value', 'clear'])
        hist.append(op)
        knots = list(st['knots'])
        new = (lambda d: rng.uniform(-0.02, 0.12)) if st['space'] == 'yield' else (lambda d: rng.uniform(0.6, 1.0))
        if op == 'derive':
            adj = adjustments(rng, st['ref'])
            dc = cv.to_discount_curve(adj) if adj is not None else cv.to_discount_curve()
            handed.append((dc, observe(c, cv, st, adj, dc)))
        elif op == 'one':
            i = rng.randrange(len(knots))
            knots[i] = (knots[i][0], new(0))
            cv.reset_interpolation_value(KnotValuePair(*knots[i]), i)
            st = dict(st, knots=knots)
            c.event('knot-changed')
        elif op == 'all':
            knots = [(k, new(0)) for k, _ in knots]
            if rng.random() < 0.4 and len(knots) > 5:
                knots.pop(rng.randrange(1 if st['left'] == 'ERROR' else 0, len(knots)))
            order = [KnotValuePair(*k) for k in knots]
            rng.shuffle(order)
            cv.reset_interpolation_values(order)
            st = dict(st, knots=knots)
            c.event('knots-replaced')
        else:
            adj = adjustments(rng, st['ref']) if op == 'value' else None
            m = model(st, adj)
            first = st['ref'] if st['space'] == 'yield' else st['knots'][0][0]
            span = (st['knots'][-1][0] - first).days
            pays = [(first + timedelta(days=rng.randint(0, span)), rng.uniform(1, 100)) for _ in range(4)]
            cf = Cashflow(Payment(*p) for p in pays)
            exp = sum(a * m(d) for d, a in pays if d >= st['ref'])
            tol = 1e-8 if st['method'] in ('linear', 'previous') else 1e-6
            c.eq('value-on-yield-curve', float(cv.present_value(cf, adj) if adj is not None else cv.present_value(cf)), exp, tol, tol,
                 adjusted=adj is not None)
            dc = cv.to_discount_curve(adj)
            c.eq('value-equals-discount-curve', float(cf.present_value(dc)), exp, tol, tol)
            c.event('valued')
    for dc, got in handed:      # whatever happened since, the curves handed out still say what they said
        for d, v in got:
            c.eq('handed-out-curve-kept', float(dc(d)), v, 1e-14, 1e-14, date=d)
        c.event('re-read')


def daily(c):
    """Every day of the curve, end to end."""
    cv, st = make(c, 'yield' if c.index % 2 else 'factor')
    adj = adjustments(c.rng, st['ref'])
    dc = cv.to_discount_curve(adj)
    m = model(st, adj)
    first = st['ref'] if st['space'] == 'yield' else st['knots'][0][0]
    tol = 1e-9 if st['method'] in ('linear', 'previous') else 1e-6
    d = first
    while d <= st['knots'][-1][0]:
        c.eq('discount-factor', float(dc(d)), m(d), tol, tol, date=d)
        c.event('day')
        d += timedelta(days=1)
    if st['space'] == 'yield':
        c.eq('starts-at-one', float(dc(st['ref'])), 1.0, 0, 1e-12)
    c.seen(st['ref'], tuple(st['knots']))


def long(c):
    """Curves of decades."""
    rng = c.rng
    cv, st = make(c, 'yield' if c.index % 3 else 'factor', rng.choice([9000, 13000, 18000]))
    for adj in (None, adjustments(rng, st['ref'])):
        observe(c, cv, st, adj, cv.to_discount_curve(adj) if adj is not None else cv.to_discount_curve(), 60)
    if (st['knots'][-1][0] - st['ref']).days > 30 * 365:
        c.event('more-than-thirty-years')


DRIVERS = [Driver('histories', histories, 240, 4000, {'derived-yield': 100, 'derived-yield-adjusted': 50, 'derived-factor': 40, 're-read': 150, 'valued': 100,
                                                      'knot-changed': 50, 'knots-replaced': 50}),
           Driver('daily', daily, 80, 1200, {'day': 5000}),
           Driver('long', long, 16, 200, {'more-than-thirty-years': 2})]
