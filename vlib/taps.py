"""Passive monitors ("taps"): wrap public functions of the running system and judge every call with a reference model.

A tap never changes arguments or results; it records what it saw and reports a mismatch to the case."""
from __future__ import annotations

import contextlib
import functools
import inspect
from datetime import date, datetime

from . import gen as G
from . import oracle as O

from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import US_FEDERAL_HOLIDAYS
from fixedIncome.src.curves.base_curve import Curve
from fixedIncome.src.assets.base_cashflow import Cashflow


@contextlib.contextmanager
def patched(owner, name, make, static):
    own = name in owner.__dict__
    raw = owner.__dict__.get(name)
    orig = getattr(owner, name)
    w = functools.wraps(orig)(make(orig))
    setattr(owner, name, staticmethod(w) if static else w)
    try:
        yield
    finally:
        if own:
            setattr(owner, name, raw)
        else:
            delattr(owner, name)


def args(fn, a, k, n):
    """The first n arguments of a call, defaults filled in."""
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return tuple(b.arguments.values())[:n]


def _cal(cal):
    if cal is US_FEDERAL_HOLIDAYS or (cal and set(cal) == set(O.us_holidays(2020)) and cal == US_FEDERAL_HOLIDAYS):
        return O.US
    if not cal:
        return O.NONE
    return None


def day_counts(c, limit=4000):
    n = [0]

    def make(orig):
        def compute_accrual_length(*a, **k):
            out = orig(*a, **k)
            n[0] += 1
            if n[0] <= limit or n[0] % 37 == 0:
                s, e, dcc = args(orig, a, k, 3)
                dcc = dcc.name
                c.eq('in-situ-day-count', out, O.frac(s, e, dcc), 1e-9, 1e-11, start=s, end=e, dcc=dcc)
                c.event('in-situ-day-count')
                if n[0] < 200:
                    c.seen(dcc, s, e)
            return out
        return compute_accrual_length
    return patched(DayCountCalculator, 'compute_accrual_length', make, True)


def business_days(c):
    def make(orig):
        def is_business_day(*a, **k):
            out = orig(*a, **k)
            date_obj, holiday_calendar = args(orig, a, k, 2)
            cal = _cal(holiday_calendar)
            if cal is not None and type(date_obj) is date:
                c.same('in-situ-business-day', bool(out), cal.is_bd(date_obj), date=date_obj)
                c.event('in-situ-business-day')
                c.seen(date_obj, cal.name)
            return out
        return is_business_day
    return patched(Scheduler, 'is_business_day', make, True)


@contextlib.contextmanager
def shifts(c):
    def add(orig):
        def add_business_days(*a, **k):
            out = orig(*a, **k)
            date_obj, business_days, holiday_calendar = args(orig, a, k, 3)
            cal = _cal(holiday_calendar)
            if cal is not None and type(date_obj) is date:
                c.same('in-situ-shift', out, cal.add(date_obj, business_days), date=date_obj, n=business_days)
                c.event('in-situ-shift')
                c.seen(date_obj, business_days)
            return out
        return add_business_days

    def setl(orig):
        def calculate_settlement_date(*a, **k):
            out = orig(*a, **k)
            purchase_date, settlement_convention, holiday_calendar = args(orig, a, k, 3)
            cal = _cal(holiday_calendar)
            if cal is not None and type(purchase_date) is date:
                c.same('in-situ-settlement', out, cal.settle(purchase_date, settlement_convention.name), date=purchase_date,
                       conv=settlement_convention.name)
                c.event('in-situ-settlement')
                c.seen(purchase_date, settlement_convention.name)
            return out
        return calculate_settlement_date

    def mf(orig):
        def modified_following_date_adjustment(*a, **k):
            out = orig(*a, **k)
            date_obj, holiday_calendar = args(orig, a, k, 2)
            cal = _cal(holiday_calendar)
            if cal is not None and type(date_obj) is date:
                c.same('in-situ-modified-following', out, cal.modified(date_obj), date=date_obj)
                c.event('in-situ-adjustment')
            return out
        return modified_following_date_adjustment

    with patched(Scheduler, 'add_business_days', add, True), patched(Scheduler, 'calculate_settlement_date', setl, True), \
            patched(Scheduler, 'modified_following_date_adjustment', mf, True):
        yield


def sequences(c):
    def make(orig):
        def generate_dates_by_increments(*a, **k):
            out = orig(*a, **k)
            start_date, end_date, increment, max_dates = args(orig, a, k, 4)
            n = len(out)
            c.event('in-situ-sequence')
            c.event('in-situ-sequence-dates', n)
            c.seen(start_date, end_date, repr(increment))
            expect = [start_date + k * increment for k in ([0, 1, n - 1] if n > 3 else range(n))]
            got = [out[k] for k in ([0, 1, n - 1] if n > 3 else range(n))]
            c.same('in-situ-no-drift', got, expect, increment=repr(increment), n=n)
            up = start_date + increment >= start_date
            mono = all((a < b) if up else (a > b) for a, b in zip(out, out[1:]))
            c.ok('in-situ-ordered', mono, start=start_date, end=end_date, increment=repr(increment))
            inside = all((d <= end_date) if up else (d >= end_date) for d in out[-2:])
            c.ok('in-situ-inside', inside, start=start_date, end=end_date, increment=repr(increment))
            if n < max_dates:
                nxt = start_date + n * increment
                c.ok('in-situ-complete', nxt > end_date if up else nxt < end_date, start=start_date, end=end_date,
                     increment=repr(increment), n=n)
            return out
        return generate_dates_by_increments
    return patched(Scheduler, 'generate_dates_by_increments', make, True)


def curve_values(c, limit=1500):
    """Every value a curve returns is the interpolation of the knots it holds at that moment."""
    n = [0]

    def make(orig):
        def interpolate(self, date_obj, adjustment=None):
            out = orig(self, date_obj, adjustment)
            n[0] += 1
            if n[0] <= limit or n[0] % 101 == 0:
                knots = [(k, float(v)) for k, v in self.interpolation_values]
                kind = self.interpolation_method.value
                if kind in ('linear', 'previous'):
                    exp = _local(self, knots, date_obj, kind)
                    if exp is not None:
                        exp += adjustment(date_obj) if adjustment is not None else 0.0
                        c.eq('in-situ-curve-value', float(out), exp, 1e-9, 1e-10, date=date_obj, kind=kind)
                        c.event('in-situ-curve-value')
                        if n[0] < 200:
                            c.seen(kind, date_obj, round(float(out), 10))
            return out
        return interpolate

    def _local(cv, knots, d, kind):
        import bisect
        dates = [k for k, _ in knots]
        if d < dates[0]:
            return knots[0][1]
        if d > dates[-1]:
            return knots[-1][1]
        i = bisect.bisect_right(dates, d) - 1
        dcc, ref = cv.interpolation_day_count_convention.name, cv.reference_date
        if dcc == 'THIRTY_OVER_THREESIXTY':
            return None
        if kind == 'previous' or i == len(knots) - 1:
            return knots[i][1]
        x0, x1, x = (O.frac(ref, q, dcc) for q in (dates[i], dates[i + 1], d))
        w = (x - x0) / (x1 - x0)
        return knots[i][1] * (1 - w) + knots[i + 1][1] * w
    return patched(Curve, 'interpolate', make, False)


def cashflow_values(c):
    def make(orig):
        def present_value(self, discount_curve):
            out = orig(self, discount_curve)
            ref = discount_curve.reference_date
            exp = 0.0
            for p in list(self.schedule):
                if p.payment is not None and p.payment_date >= ref:
                    exp += float(discount_curve(p.payment_date)) * p.payment
            c.eq('in-situ-present-value', float(out), exp, 1e-9, 1e-9 * max([1.0] + [abs(p.payment or 0) for p in self.schedule]))
            c.event('in-situ-present-value')
            c.seen(len(self.schedule), ref, round(float(out), 6))
            return out
        return present_value
    return patched(Cashflow, 'present_value', make, False)
