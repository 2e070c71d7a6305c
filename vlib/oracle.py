"""Reference models, written from the published rules and from the documented behaviour, sharing no code with /repo.

Everything here works on plain dates, floats and strings (names of enumeration members)."""
from __future__ import annotations

import bisect
import calendar
import math
from datetime import date, datetime, time, timedelta
from functools import lru_cache

import numpy as np

DAY = timedelta(days=1)

# ----------------------------------------------------------------------------------------------------- holidays


def nth_weekday(year, month, weekday, n):
    first = date(year, month, 1)
    return first + timedelta(days=(weekday - first.weekday()) % 7 + 7 * (n - 1))


def observed(d):
    """US federal rule: Saturday holidays are observed on Friday, Sunday holidays on Monday."""
    return d - DAY if d.weekday() == 5 else d + DAY if d.weekday() == 6 else d


@lru_cache(maxsize=None)
def us_holidays(year):
    """Observed dates of the holidays whose nominal date lies in ``year``, by name."""
    return {
        'NewYears': observed(date(year, 1, 1)),
        'MLK': observed(date(year, 1, 17)),
        'Presidents': nth_weekday(year, 2, 0, 3),
        'Memorial': observed(date(year, 5, 30)),
        'Juneteenth': observed(date(year, 6, 19)),
        'Independence': observed(date(year, 7, 4)),
        'Labor': nth_weekday(year, 9, 0, 1),
        'Columbus': nth_weekday(year, 10, 0, 2),
        'Veterans': observed(date(year, 11, 11)),
        'Thanksgiving': nth_weekday(year, 11, 3, 4),
        'Christmas': observed(date(year, 12, 25)),
    }


class Cal:
    """Reference calendar: ``rules(year) -> iterable of observed dates`` for the nominal holidays of that year."""

    def __init__(self, rules=None, name='US'):
        self.name = name
        self.rules = rules if rules is not None else (lambda y: us_holidays(y).values())
        self._years = {}
        self._bd = {}

    def _hol(self, year):
        if year not in self._years:
            self._years[year] = frozenset(self.rules(year))
        return self._years[year]

    def is_bd(self, d):
        r = self._bd.get(d)
        if r is None:
            r = d.weekday() < 5 and not any(d in self._hol(y) for y in range(max(1, d.year - 1), min(9999, d.year + 1) + 1))
            self._bd[d] = r
        return r

    def roll_fwd(self, d):
        while not self.is_bd(d):
            d += DAY
        return d

    def roll_back(self, d):
        while not self.is_bd(d):
            d -= DAY
        return d

    def add(self, d, n):
        d = self.roll_fwd(d)
        for _ in range(abs(n)):
            d = self.roll_fwd(d + DAY) if n > 0 else self.roll_back(d - DAY)
        return d

    def following(self, d):
        return self.roll_fwd(d)

    def modified(self, d):
        f = self.roll_fwd(d)
        return f if f.month == d.month else self.roll_back(f - DAY)

    def adjust(self, d, how):
        return self.following(d) if how == 'FOLLOWING' else self.modified(d)

    SETTLE = {'T_MINUS_TWO_BUSINESS': -2, 'T_MINUS_ONE_BUSINESS': -1, 'T_PLUS_ZERO_BUSINESS': 0,
              'T_PLUS_ONE_BUSINESS': 1, 'T_PLUS_TWO_BUSINESS': 2, 'T_PLUS_THREE_BUSINESS': 3}

    def settle(self, d, conv):
        if conv == 'T_MINUS_ZERO_BUSINESS':
            return self.roll_back(d)
        return self.add(d, self.SETTLE[conv])

    def days(self, a, b):
        out = []
        while a <= b:
            if self.is_bd(a):
                out.append(a)
            a += DAY
        return out


US = Cal()
NONE = Cal(lambda y: (), 'none')

# ---------------------------------------------------------------------------------------------------- day counts

ACT = {'ACTUAL_OVER_360': 360.0, 'ACTUAL_OVER_365': 365.0, 'ACTUAL_OVER_365_POINT_25': 365.25}
DCCS = ['ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_365_POINT_25', 'ACTUAL_OVER_ACTUAL', 'THIRTY_OVER_THREESIXTY']


def ylen(y):
    return 366 if calendar.isleap(y) else 365


def year_time(d):
    """Calendar-year clock of the actual/actual convention: year plus elapsed share (Dec 31 of last year = whole)."""
    return d.year + (d - date(d.year, 1, 1)).days / ylen(d.year) + 1.0 / ylen(d.year)


def thirty360(a, b):
    def last_feb(d):
        return d.month == 2 and d.day == calendar.monthrange(d.year, 2)[1]
    d1, d2 = a.day, b.day
    if last_feb(a) and last_feb(b):
        d2 = 30
    if last_feb(a):
        d1 = 30
    if d2 == 31 and d1 >= 30:
        d2 = 30
    if d1 == 31:
        d1 = 30
    return (360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1) / 360.0


def _frac_dates(a, b, dcc):
    if dcc in ACT:
        return (b - a).days / ACT[dcc]
    if dcc == 'ACTUAL_OVER_ACTUAL':
        return year_time(b) - year_time(a)
    if dcc == 'THIRTY_OVER_THREESIXTY':
        return thirty360(a, b)
    raise ValueError(dcc)


def frac(a, b, dcc):
    """Year fraction between dates or timestamps."""
    ta, tb = isinstance(a, datetime), isinstance(b, datetime)
    if not ta and not tb:
        return _frac_dates(a, b, dcc)
    fa = a if ta else datetime.combine(a, time(0))
    fb = b if tb else datetime.combine(b, time(0))
    if dcc in ACT:
        return (fb - fa).total_seconds() / 86400.0 / ACT[dcc]
    da, db = fa.date(), fb.date()
    u, v = ((t - datetime.combine(t.date(), time(0))).total_seconds() / 86400.0 for t in (fa, fb))
    if da == db:                 # part of the accrual of one day
        return _frac_dates(da, da + DAY, dcc) * ((fb - fa).total_seconds() / 86400.0)
    # otherwise each end lies in between the two ends of its day
    return sum(p * q * _frac_dates(x, y, dcc) for x, p in ((da, 1 - u), (da + DAY, u)) if p for y, q in ((db, 1 - v), (db + DAY, v)) if q)


# ------------------------------------------------------------------------------------------------ month arithmetic

def add_months(d, n):
    k = d.year * 12 + d.month - 1 + n
    y, m = divmod(k, 12)
    m += 1
    day = min(d.day, calendar.monthrange(y, m)[1])
    return d.replace(year=y, month=m, day=day)


def tenor_months(tenor):
    return int(tenor[:-1]) * (12 if tenor[-1] == 'Y' else 1)


# ------------------------------------------------------------------------------------------------- interpolation

class Interp:
    """One-dimensional interpolation written out (linear, previous, nearest-free) plus natural polynomial splines."""

    def __init__(self, xs, ys, kind):
        order = sorted(range(len(xs)), key=lambda i: xs[i])
        self.xs = [float(xs[i]) for i in order]
        self.ys = [float(ys[i]) for i in order]
        self.kind = kind
        if kind in ('quadratic', 'cubic'):
            self._spline(2 if kind == 'quadratic' else 3)

    def _spline(self, k):
        """B-spline collocation with the interior knots of scipy's interpolating spline (not-a-knot / midpoints)."""
        x = np.array(self.xs)
        if k == 3:
            t = np.concatenate([[x[0]] * 4, x[2:-2], [x[-1]] * 4])
        else:
            t = (x[1:] + x[:-1]) / 2.0
            t = np.concatenate([[x[0]] * 3, t[1:-1], [x[-1]] * 3])
        self.t, self.k = t, k
        n = len(x)
        self.dom = (x[0], x[-1])
        mat = np.array([[self._b(j, k, xv) for j in range(n)] for xv in x])
        self.c = np.linalg.solve(mat, np.array(self.ys))

    def _b(self, j, k, x):
        t = self.t
        if k == 0:
            last = t[j + 1] == self.t[-1] and x == self.t[-1] and t[j] < t[j + 1]
            return 1.0 if (t[j] <= x < t[j + 1]) or last else 0.0
        out = 0.0
        if t[j + k] > t[j]:
            out += (x - t[j]) / (t[j + k] - t[j]) * self._b(j, k - 1, x)
        if t[j + k + 1] > t[j + 1]:
            out += (t[j + k + 1] - x) / (t[j + k + 1] - t[j + 1]) * self._b(j + 1, k - 1, x)
        return out

    def __call__(self, x):
        xs, ys = self.xs, self.ys
        if self.kind in ('quadratic', 'cubic'):
            return sum(c * self._b(j, self.k, x) for j, c in enumerate(self.c))
        i = bisect.bisect_right(xs, x) - 1
        if i < 0:
            return ys[0]
        if self.kind == 'previous':
            return ys[i]
        if i == len(xs) - 1:
            return ys[-1]
        w = (x - xs[i]) / (xs[i + 1] - xs[i])
        return ys[i] * (1 - w) + ys[i + 1] * w


class RefCurve:
    """Reference for a curve: knots (date, value), kind, day count, reference date, end behaviours."""

    def __init__(self, knots, kind, dcc, ref=None, left='ERROR', right='ERROR'):
        self.knots = sorted(knots, key=lambda kv: kv[0])
        self.kind, self.dcc = kind, dcc
        self.ref = ref if ref is not None else self.knots[0][0]
        self.left, self.right = left, right
        self.f = Interp([self.axis(k) for k, _ in self.knots], [v for _, v in self.knots], kind)

    def axis(self, d):
        return frac(self.ref, d, self.dcc)

    def __call__(self, d, adj=None):
        a = adj(d) if adj is not None else 0.0
        if midnight(d) < midnight(self.knots[0][0]):
            return None if self.left == 'ERROR' else self.knots[0][1] + a
        if midnight(d) > midnight(self.knots[-1][0]):
            return None if self.right == 'ERROR' else self.knots[-1][1] + a
        if isinstance(self.knots[0][0], datetime):
            d = midnight(d)
        return self.f(self.axis(d)) + a


def midnight(d):
    """A date as the timestamp at the beginning of its day."""
    return d if isinstance(d, datetime) else datetime.combine(d, time(0))


# --------------------------------------------------------------------------------------------------------- bonds

FREQ = {'ZERO_COUPON': 0, 'ANNUAL': 1, 'SEMI_ANNUAL': 2, 'QUARTERLY': 4}


class RefBond:
    def __init__(self, price, coupon, principal, tenor, purchase, maturity, settle='T_PLUS_ONE_BUSINESS',
                 freq='SEMI_ANNUAL', dcc='ACTUAL_OVER_ACTUAL', adj='FOLLOWING', cal=US):
        self.price, self.coupon, self.principal, self.tenor = price, coupon, principal, tenor
        self.purchase, self.maturity, self.settle_conv = purchase, maturity, settle
        self.freq, self.dcc, self.adj, self.cal = freq, dcc, adj, cal
        self.n = FREQ[freq]
        self.dated = add_months(maturity, -tenor_months(tenor))
        self.cpn = 0.0 if self.n == 0 else principal * coupon / 100.0 / self.n
        self.unadj = []
        if self.n:
            k = 0
            while True:
                d = add_months(maturity, -k * (12 // self.n))
                if d <= self.dated:
                    break
                self.unadj.append(d)
                k += 1
            self.unadj.reverse()
        self.coupons = [(u, cal.adjust(u, adj), self.cpn) for u in self.unadj]
        self.redemption = (maturity, cal.adjust(maturity, adj), principal)

    def payments(self):
        return self.coupons + [self.redemption]

    def settlement(self, ref=None):
        return self.cal.settle(self.purchase if ref is None else ref, self.settle_conv)

    def received(self, ref=None):
        s = self.settlement(ref)
        return [p for p in self.payments() if p[0] >= s]

    def accrued(self, ref=None):
        """None: undefined (before the dated date, or after the last coupon)."""
        if self.n == 0:
            return 0.0
        s = self.settlement(ref)
        if s < self.dated or s > self.unadj[-1]:
            return None
        bounds = [self.dated] + self.unadj
        i = bisect.bisect_left(bounds, s)
        i = max(i, 1)
        a, b = bounds[i - 1], bounds[i]
        return self.cpn * frac(a, s, self.dcc) / frac(a, b, self.dcc)

    def full_price(self, ref=None):
        a = self.accrued(ref)
        return None if a is None else self.price + 100.0 * a / self.principal

    def value(self, rate, ref=None, weight=lambda t: 1.0):
        ref = self.purchase if ref is None else ref
        out = 0.0
        for _, paid, amount in self.received(ref):
            t = frac(ref, paid, self.dcc)
            out += amount * weight(t) * (1 + rate / self.n) ** (-t * self.n)
        return out

    def dvalue(self, rate, ref=None):
        ref = self.purchase if ref is None else ref
        out = 0.0
        for _, paid, amount in self.received(ref):
            t = frac(ref, paid, self.dcc)
            out += -amount * t * (1 + rate / self.n) ** (-t * self.n - 1)
        return out

    def d2value(self, rate, ref=None):
        ref = self.purchase if ref is None else ref
        out = 0.0
        for _, paid, amount in self.received(ref):
            t = frac(ref, paid, self.dcc)
            out += amount * t * (t + 1.0 / self.n) * (1 + rate / self.n) ** (-t * self.n - 2)
        return out

    def ytm(self, ref=None):
        target = self.full_price(ref) * self.principal / 100.0
        lo, hi = -0.9 * self.n, 10.0
        for _ in range(300):
            mid = 0.5 * (lo + hi)
            if self.value(mid, ref) > target:
                lo = mid
            else:
                hi = mid
        return 0.5 * (lo + hi)

    def knot(self):
        return max(p[1] for p in (self.coupons[-1:] + [self.redemption]))

    def pv(self, df, ref):
        return sum(amount * df(paid) for _, paid, amount in self.received(ref))


# ----------------------------------------------------------------------------------------------------- key rates

def tent(d, prev, key, nxt, dcc, bump):
    if d == key:
        return bump
    if d < key:
        if prev is None:
            return bump
        return 0.0 if d <= prev else bump * frac(prev, d, dcc) / frac(prev, key, dcc)
    if nxt is None:
        return bump
    return 0.0 if d >= nxt else bump * frac(d, nxt, dcc) / frac(key, nxt, dcc)


# --------------------------------------------------------------------------------------------------------- swaps

def leg_periods(start, end, months, cal, adj):
    ds, k = [], 0
    while add_months(end, -k * months) > start:
        ds.append(add_months(end, -k * months))
        k += 1
    ds.append(start)
    ds.reverse()
    ds = [cal.adjust(d, adj) for d in ds]
    return list(zip(ds[:-1], ds[1:]))
