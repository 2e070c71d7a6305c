from datetime import date, datetime, timedelta

import pandas as pd

from .. import gen as G, oracle as O, taps, scenario
from ..harness import Driver
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator

RULE = ('Random and boundary-weighted pairs of dates and timestamps under every convention (plus dense windows around month, '
        'leap and year ends and calls made in situ by the rest of the library); non-trivial = a pair with start < end; distinct by '
        '(convention, start, end).')
ASSUMPTIONS = ['Reference year fractions are computed by an independent implementation of the published rules.',
               'Timestamps are naive (no time zones).']
f = DayCountCalculator.compute_accrual_length


def call(a, b, dcc):
    return f(a, b, G.DCC[dcc])


def _chk(c, a, b, dcc, tol=1e-12):
    got = call(a, b, dcc)
    c.eq('convention', got, O.frac(a, b, dcc), 1e-10, tol, start=a, end=b, dcc=dcc)
    if got > 0:
        c.seen(dcc, a, b)
    c.event(dcc)
    return got


def pairs(c):
    rng = c.rng
    for _ in range(60):
        lo, hi = rng.choice([(1950, 2090), (1950, 2090), (1890, 1910), (2090, 2110), (1880, 2210), (1580, 2610)])     # centuries are no leap years
        a, b = sorted((G.rdate(rng, lo, hi), G.rdate(rng, lo, hi)))
        if rng.random() < 0.4:
            b = a + timedelta(days=rng.randint(0, 800))
        m = a + timedelta(days=rng.randint(0, (b - a).days))
        c.note(start=a, mid=m, end=b)
        for dcc in O.DCCS:
            w = _chk(c, a, b, dcc)
            x, y = _chk(c, a, m, dcc), _chk(c, m, b, dcc)
            if dcc != 'THIRTY_OVER_THREESIXTY':
                c.eq('additive', x + y, w, 1e-12, 1e-12, start=a, mid=m, end=b, dcc=dcc)
            c.ok('monotone', x <= w + 1e-12, start=a, mid=m, end=b, dcc=dcc)
            c.ok('non-negative', w >= 0 and x >= 0 and y >= 0, start=a, mid=m, end=b, dcc=dcc)
            c.same('zero', call(a, a, dcc), 0.0, date=a, dcc=dcc)
        if a < b:
            dcc = rng.choice(O.DCCS)
            c.raises('reversed', ValueError, lambda: call(b, a, dcc), start=b, end=a, dcc=dcc)
            c.event('reversed')
        bad = rng.choice([None, 'ACTUAL_OVER_360', 3, object()])
        c.raises('unknown-convention', TypeError, lambda: f(a, b, bad))


def windows(c):
    """Every end date in a window for one boundary start date."""
    rng = c.rng
    y = rng.choice([rng.randint(1990, 2060), rng.randint(1990, 2060), 1900, 2000, 2100, 1899, 2099, 2399])
    m, d = rng.choice(G.SPECIAL_MD)
    if (m, d) == (2, 29) and O.ylen(y) == 365:
        d = 28
    a = date(y, m, d)
    off = rng.choice([0, 0, 330, 700, 1430])
    prev = {}
    for k in range(75):
        b = a + timedelta(days=off + k)
        for dcc in O.DCCS:
            w = _chk(c, a, b, dcc)
            c.ok('monotone', w >= prev.get(dcc, 0.0) - 1e-12, start=a, end=b, dcc=dcc)
            prev[dcc] = w


def timestamps(c):
    rng = c.rng
    for _ in range(60):
        a, b = G.rdatetime(rng, 1970, 2070), G.rdatetime(rng, 1970, 2070)
        u = rng.random()
        if u < 0.35:
            b = a + timedelta(seconds=rng.randint(0, 4 * 86400))
        elif u < 0.6:
            b = a + timedelta(days=rng.randint(0, 900), seconds=rng.randint(0, 86399), microseconds=rng.choice([0, 0, 250000]))
        if rng.random() < 0.2:
            a = a.date()
        elif rng.random() < 0.2:
            b = b.date()
        ka = a if isinstance(a, datetime) else datetime.combine(a, datetime.min.time())
        kb = b if isinstance(b, datetime) else datetime.combine(b, datetime.min.time())
        if kb < ka:
            a, b, ka, kb = b, a, kb, ka
        c.note(start=a, end=b)
        for dcc in O.DCCS:
            w = _chk(c, a, b, dcc, 1e-11)
            c.ok('non-negative', w >= 0, start=a, end=b, dcc=dcc)
            if dcc != 'THIRTY_OVER_THREESIXTY':
                mid = ka + (kb - ka) * rng.random()
                if isinstance(mid, datetime):
                    c.eq('additive', call(a, mid, dcc) + call(mid, b, dcc), w, 1e-10, 1e-10, start=a, mid=mid, end=b, dcc=dcc)
        if isinstance(a, datetime) or isinstance(b, datetime):
            c.event('timestamps')
        if ka < kb:
            c.raises('reversed', ValueError, lambda: call(b, a, rng.choice(O.DCCS)), start=b, end=a)
        later = ka + timedelta(microseconds=rng.choice([1, 7, 999, 250000, 2000000]))
        dcc = rng.choice(O.DCCS)
        c.raises('reversed-by-moments', ValueError, lambda: call(later, ka, dcc), start=later, end=ka, dcc=dcc)
        _chk(c, ka, later, dcc, 1e-13)


def moments(c):
    """Through the days around month, leap and year ends in small steps: part days never count backwards, whichever end moves."""
    rng = c.rng
    for _ in range(6):
        y = rng.randint(1990, 2060)
        edge = lambda: datetime(y + rng.choice([0, 0, 1, 3]), rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)]), 1) + timedelta(days=rng.randint(-4, 3), seconds=rng.randint(0, 86399))
        a, b = sorted((edge(), edge()))
        if rng.random() < 0.4:
            b = a + timedelta(seconds=rng.randint(0, 2 * 86400))
        ends = sorted(b + timedelta(seconds=rng.randint(0, rng.choice([600, 3 * 86400]))) for _ in range(12))
        ends += [datetime(e.year, e.month, e.day) + x for e in ends[-2:] for x in (timedelta(0), timedelta(days=1), timedelta(days=1, seconds=-1))]
        ends = sorted({e for e in ends if e >= b})
        starts = sorted({a + (b - a) * rng.random() for _ in range(8)} | {a})
        for dcc in O.DCCS:
            prev = -1e-12
            for e in ends:
                w = _chk(c, a, e, dcc, 1e-11)
                c.ok('monotone-end', 0 <= w and w >= prev - 1e-12, start=a, end=e, dcc=dcc, value=w, before=prev)
                prev = w
            prev = None
            for s in starts:
                w = _chk(c, s, ends[-1], dcc, 1e-11)
                c.ok('monotone-start', w >= 0 and (prev is None or w <= prev + 1e-12), start=s, end=ends[-1], dcc=dcc, value=w, before=prev)
                prev = w
        c.event('swept')


class Day(date):
    """A date of a caller's own type."""


class Moment(datetime):
    """A timestamp of a caller's own type."""


def own(rng, d):
    if isinstance(d, datetime):
        return rng.choice([pd.Timestamp(d), Moment(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)])
    return Day(d.year, d.month, d.day)


def subclasses(c):
    """Dates and timestamps of subclasses (pandas timestamps among them) count as the days and moments they are."""
    rng = c.rng
    for _ in range(12):
        a, b = sorted((G.rdatetime(rng, 1970, 2070), G.rdatetime(rng, 1970, 2070)))
        if rng.random() < 0.5:
            b = a + timedelta(seconds=rng.randint(0, 900 * 86400))
        if rng.random() < 0.3:
            a = a.date()
        if rng.random() < 0.3 and (not isinstance(a, datetime) or b.date() > a.date()):
            b = b.date()
        x, y = (own(rng, a), own(rng, b)) if rng.random() < 0.6 else (own(rng, a), b) if rng.random() < 0.5 else (a, own(rng, b))
        for dcc in O.DCCS:
            c.eq('convention', call(x, y, dcc), O.frac(a, b, dcc), 1e-10, 1e-11, start=repr(x), end=repr(y), dcc=dcc)
        c.event('subclass')
        c.seen('subclass', a, b)


def in_situ(c):
    with taps.day_counts(c):
        scenario.ALL[c.index % 3](c)


DRIVERS = [Driver('pairs', pairs, 160, 3000, {'ACTUAL_OVER_360': 1000, 'THIRTY_OVER_THREESIXTY': 1000}),
           Driver('windows', windows, 120, 2500, {'THIRTY_OVER_THREESIXTY': 1000}),
           Driver('timestamps', timestamps, 120, 2500, {'timestamps': 1000}),
           Driver('moments', moments, 80, 1500, {'swept': 300}),
           Driver('subclasses', subclasses, 40, 500, {'subclass': 300}),
           Driver('in_situ', in_situ, 18, 120)]
