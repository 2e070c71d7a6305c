from datetime import datetime, timedelta

from .. import gen as G, oracle as O, scenario, taps
from ..harness import Driver
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod

RULE = ('Random knot sets (dates and timestamps, any input order) under every interpolation method, day count, reference date and end '
        'behaviour, queried at knots, one day around them, in between and outside, with and without adjustments, through random '
        'histories of knot replacements; distinct by (curve, query date) strictly between knots or outside them.')
ASSUMPTIONS = ['Quadratic and cubic methods are the interpolating splines with standard (not-a-knot) end conditions; they are recomputed '
               'with an independent B-spline collocation, to 1e-7 of the size of the knot values.',
               'Dates and timestamps are not mixed among the knots of one curve, knots do not coincide on the interpolation axis.']


def _make(c, cls=None):
    rng = c.rng
    stamp = rng.random() < 0.25
    ref = G.rdatetime(rng, 2000, 2040) if stamp else G.rdate(rng, 2000, 2040)
    method = rng.choice(list(G.METHODS))
    dcc = rng.choice(O.DCCS[:4])
    n = rng.choice([0, rng.randint(0, 8)]) + {'cubic': 4, 'quadratic': 3}.get(method, 2)
    horizon = rng.choice([40, 900, 9000])
    step = 1
    if method in ('linear', 'previous') and not stamp and rng.random() < 0.15:
        dcc, step = 'THIRTY_OVER_THREESIXTY', 5
    knots = [(ref + timedelta(days=step * k), rng.uniform(-2, 5)) for k in sorted(rng.sample(range(0, horizon), n))]
    explicit = rng.random() < 0.6
    reference = None
    if explicit:
        reference = knots[0][0] - timedelta(days=rng.choice([0, 0, rng.randint(1, 60)]))
    left, right = rng.choice(['ERROR', 'CONSTANT']), rng.choice(['ERROR', 'CONSTANT'])
    order = knots[:]
    rng.shuffle(order)
    given = [KnotValuePair(*k) for k in order]
    kw = dict(interpolation_method=G.METHODS[method], interpolation_day_count_convention=G.DCC[dcc],
              reference_date=reference, left_end_behavior=getattr(EndBehavior, left), right_end_behavior=getattr(EndBehavior, right),
              index=rng.choice(list(CurveIndex)))
    cls = cls or rng.choice([Curve, DiscountCurve])
    if rng.random() < 0.15:          # as configured by default: refused on both sides
        left = right = 'ERROR'
        del kw['left_end_behavior'], kw['right_end_behavior']
    cv = cls(iter(given) if rng.random() < 0.3 else given, **kw)
    m = O.RefCurve(knots, method, dcc, reference, left, right)
    c.note(curve=cls.__name__, method=method, dcc=dcc, reference=reference, left=left, right=right, knots=order)
    c.same('input-order-kept', given, [KnotValuePair(*k) for k in order])
    c.same('reference', cv.reference_date, m.ref)
    c.same('index', cv.index, kw['index'])
    return cv, m


def _adjustments(rng, ref):
    k = rng.uniform(-1, 1)
    return [None, lambda d: k, lambda d: k * (d - ref).days / 100.0, lambda d: 0.0 if d.month % 2 else k]


def probe(c, cv, m, n=12):
    rng = c.rng
    dates = [k for k, _ in m.knots]
    first, last = dates[0], dates[-1]
    scale = max(abs(v) for _, v in m.knots)
    tol = 1e-9 * max(1, scale) if m.kind in ('linear', 'previous') else 1e-7 * max(1, scale) * m_growth(m)
    c.same('knots', [(k, float(v)) for k, v in cv.interpolation_values], [(k, float(v)) for k, v in m.knots])
    for k, v in m.knots:
        c.eq('at-knot', float(cv(k)), v, 0, max(tol, 1e-9 * scale), knot=k)
        c.event('knot')
    adjs = _adjustments(rng, m.ref)
    for _ in range(n):
        u = rng.random()
        if u < 0.55:
            i = rng.randrange(len(dates) - 1)
            d = dates[i] + (dates[i + 1] - dates[i]) * rng.random()
            if not isinstance(d, datetime):
                d = dates[i] + timedelta(days=rng.randint(0, (dates[i + 1] - dates[i]).days))
        elif u < 0.75:
            d = rng.choice(dates) + timedelta(days=rng.choice([-1, 1]))
        elif u < 0.87:
            d = last + timedelta(days=rng.choice([1, 30, 4000]))
        else:
            d = first - timedelta(days=rng.choice([1, 30, 4000]))
        f = rng.choice(adjs)
        if rng.random() < 0.12:          # a date on a curve of timestamps (the beginning of its day), a timestamp on a curve of dates
            if rng.random() < 0.2:
                d = rng.choice([first, last])
            d = d.date() if isinstance(d, datetime) else datetime(d.year, d.month, d.day) + rng.choice([timedelta(0), timedelta(seconds=rng.randint(-5, 86399))])
            f = rng.choice([None, lambda d: 0.25 if isinstance(d, datetime) else -0.125])       # told the very date which is asked for
            c.event('date-on-timestamps' if not isinstance(d, datetime) else 'timestamp-on-dates')
        exp = m(d, f)
        where = 'left' if O.midnight(d) < O.midnight(first) else 'right' if O.midnight(d) > O.midnight(last) else 'inside'
        call = (lambda: cv(d)) if f is None else (lambda: cv(d, f)) if rng.random() < 0.5 else (lambda: cv.interpolate(d, f))
        if exp is None:
            c.raises('refused-outside', ValueError, call, date=d, side=where)
        else:
            c.eq('value-' + where, float(call()), exp, 1e-10, tol, date=d, adjusted=f is not None)
        c.event(where + ('' if exp is not None else '-refused') + ('-adjusted' if f is not None and exp is not None else ''))
        if not any(O.midnight(d) == O.midnight(k) for k in dates):
            c.seen(m.kind, m.dcc, d, round(exp or 0, 12))


def m_growth(m):
    """Largest spline coefficient relative to the data: how much rounding the spline itself amplifies."""
    import numpy as np
    return max(1.0, float(np.abs(m.f.c).max()) / max(1e-12, max(abs(v) for _, v in m.knots)))


def curves(c):
    cv, m = _make(c)
    probe(c, cv, m, 25)


def histories(c):
    rng = c.rng
    cv, m = _make(c)
    hist = []
    c.note(history=hist)
    probe(c, cv, m, 4)
    for _ in range(rng.randint(2, 7)):
        knots = list(m.knots)
        op = rng.choice(['one', 'one', 'one-moved', 'all-values', 'all-new'])
        if op in ('one', 'one-moved'):
            i = rng.randrange(len(knots))
            d = knots[i][0]
            if op == 'one-moved' and 0 < i:
                lo = knots[i - 1][0]
                hi = knots[i + 1][0] if i + 1 < len(knots) else d + timedelta(days=50)
                room = [d + timedelta(days=k) for k in range(-20, 21) if lo < d + timedelta(days=k) < hi]
                if m.dcc == 'THIRTY_OVER_THREESIXTY':
                    room = [x for x in room if (x - lo).days >= 5 and (hi - x).days >= 5]
                d = rng.choice(room) if room else d
            knots[i] = (d, rng.uniform(-2, 5))
            cv.reset_interpolation_value(KnotValuePair(*knots[i]), i if rng.random() < 0.7 else i - len(knots))
        else:
            if op == 'all-values':
                knots = [(k, rng.uniform(-2, 5)) for k, _ in knots]
            else:
                n = rng.randint({'cubic': 4, 'quadratic': 3}.get(m.kind, 2), 9)
                step = 5 if m.dcc == 'THIRTY_OVER_THREESIXTY' else 1
                knots = [(m.ref + timedelta(days=step * k), rng.uniform(-2, 5)) for k in sorted(rng.sample(range(0, 3000), n))]
            order = [KnotValuePair(*k) for k in knots]
            rng.shuffle(order)
            kept = list(order)
            cv.reset_interpolation_values(order if rng.random() < 0.6 else iter(order))
            c.same('caller-list-kept', order, kept)
        hist.append((op, knots))
        m = O.RefCurve(knots, m.kind, m.dcc, m.ref, m.left, m.right)
        c.event('reset-' + ('one' if op.startswith('one') else 'all'))
        probe(c, cv, m, 5)


def two_curves(c):
    """Curves built from the same knot list stay independent of each other and of the list."""
    rng = c.rng
    ref = G.rdate(rng, 2000, 2040)
    knots = G.rknots(rng, ref, 6, first_at_ref=True)
    given = [KnotValuePair(*k) for k in knots]
    mk = lambda: Curve(given, InterpolationMethod.LINEAR, G.DCC['ACTUAL_OVER_365'], reference_date=ref)
    a, b = mk(), mk()
    mod = O.RefCurve(knots, 'linear', 'ACTUAL_OVER_365', ref)
    c.note(knots=knots)
    i = rng.randrange(len(knots))
    a.reset_interpolation_value(KnotValuePair(knots[i][0], 99.0), i)
    probe(c, b, mod, 4)
    given.clear()
    probe(c, b, mod, 4)
    new = [(k, 99.0 if j == i else v) for j, (k, v) in enumerate(knots)]
    probe(c, a, O.RefCurve(new, 'linear', 'ACTUAL_OVER_365', ref), 4)
    c.event('independent')


def in_situ(c):
    with taps.curve_values(c):
        scenario.ALL[c.index % 3](c)


DRIVERS = [Driver('curves', curves, 500, 10000, {'knot': 2000, 'inside': 500, 'inside-adjusted': 500, 'left-adjusted': 50, 'right-adjusted': 50,
                                                 'left-refused': 50, 'right-refused': 50, 'date-on-timestamps': 40, 'timestamp-on-dates': 100}),
           Driver('histories', histories, 250, 6000, {'reset-one': 200, 'reset-all': 200}),
           Driver('two_curves', two_curves, 60, 600, {'independent': 30}),
           Driver('in_situ', in_situ, 18, 100)]
