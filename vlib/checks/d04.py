import random
from datetime import date, datetime, timedelta

from dateutil.relativedelta import relativedelta

from .. import gen as G, oracle as O, taps, scenario
from ..harness import Driver
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.schedule_enumerations import ImmMonths
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryFuture
from fixedIncome.src.assets.base_cashflow import CashflowKeys

RULE = ('Random starts (weighted to month ends), ends on either side, increments of days/weeks/months/years/mixed and hours for '
        'timestamps, either sign; business-day periods and futures under US/empty/custom calendars; distinct by '
        '(start, end, increment) with at least two dates.')
ASSUMPTIONS = ['Adding k increments means adding k times the months (day clipped to the month length) and then k times the days.']


def _ref_at(start, k, months, days, seconds=0):
    d = O.add_months(start, k * months)
    return d + timedelta(days=k * days, microseconds=k * round(seconds * 1e6)) if isinstance(start, datetime) else d + timedelta(days=k * days)


def increments(c):
    rng = c.rng
    for _ in range(12):
        stamp = rng.random() < 0.3
        start = G.rdatetime(rng, 1990, 2050) if stamp else G.rdate(rng, 1990, 2050)
        if rng.random() < 0.4:
            nd = date(start.year, start.month, 28) + timedelta(days=4)
            eom = nd - timedelta(days=nd.day)
            start = start.replace(day=eom.day)
        months = days = seconds = 0
        sign = rng.choice([1, -1])
        kind = rng.choice(['days', 'weeks', 'months', 'months', 'quarter', 'years', 'mixed', 'opposite', 'hours'])
        if kind == 'hours' and not stamp:
            kind = 'months'
        if kind == 'days':
            days = sign * rng.randint(1, 40)
            inc = timedelta(days=days) if rng.random() < 0.5 else relativedelta(days=days)
        elif kind == 'weeks':
            days = sign * 7 * rng.randint(1, 3)
            inc = relativedelta(weeks=days // 7)
        elif kind == 'months':
            months = sign * rng.randint(1, 7)
            inc = relativedelta(months=months)
        elif kind == 'quarter':
            months = sign * 3 * rng.randint(1, 2)
            inc = relativedelta(months=months)
        elif kind == 'years':
            months = sign * 12
            inc = relativedelta(years=sign)
        elif kind == 'mixed':
            months, days = sign * rng.randint(1, 5), sign * rng.randint(0, 20)
            inc = relativedelta(months=months, days=days)
        elif kind == 'opposite':    # the direction is that of the net step
            net = rng.choice([1, -1])
            months = net * sign * rng.randint(1, 3)
            days = -net * sign * abs(months) * (rng.randint(5, 18) if net > 0 else rng.randint(42, 60))
            inc = relativedelta(months=months, days=days)
            c.event('opposite')
        else:
            seconds = sign * 3600 * rng.choice([1, 5, 12])
            inc = relativedelta(hours=seconds // 3600) if rng.random() < 0.5 else timedelta(seconds=seconds)
            if rng.random() < 0.4:     # any timedelta at all
                inc = sign * timedelta(days=rng.choice([0, 0, 1]), seconds=rng.randint(0, 86399), microseconds=rng.randint(1, 999999))
                seconds = inc / timedelta(seconds=1)
                c.event('microseconds')
        n = rng.randint(0, 60)
        end = _ref_at(start, n, months, days, seconds)
        if rng.random() < 0.6:
            end = end + timedelta(days=sign * rng.randint(0, 25)) if kind != 'hours' else end + timedelta(seconds=sign * rng.randint(0, 3000))
        if rng.random() < 0.08:    # nothing to generate: the end lies on the other side
            end = start - timedelta(days=sign * rng.randint(1, 50))
        exp, k = [], 0
        while True:
            d = _ref_at(start, k, months, days, seconds)
            if (d > end) if sign > 0 else (d < end):
                break
            exp.append(d)
            k += 1
        c.note(start=start, end=end, increment=repr(inc), expected=len(exp))
        got = Scheduler.generate_dates_by_increments(start, end, inc, max_dates=5000)
        c.same('dates', list(got), exp, start=start, end=end, increment=repr(inc))
        c.event('sequence')
        c.event('date', len(exp))
        if start.day >= 29 and months:
            c.event('month-end-start')
        if sign < 0:
            c.event('backward')
        if len(exp) > 1:
            c.seen(start, end, repr(inc))
        cap = rng.randint(1, 20)
        if len(exp) > cap + 1:
            capped = Scheduler.generate_dates_by_increments(start, end, inc, max_dates=cap)
            c.ok('capped', capped == exp[:len(capped)] and cap <= len(capped) <= cap + 1, n=len(capped), cap=cap)
            c.event('capped')
    zero = Scheduler.generate_dates_by_increments(date(2020, 1, 1), date(2021, 1, 1), timedelta(0), max_dates=7)
    c.ok('zero-step-stops', set(zero) == {date(2020, 1, 1)} and len(zero) <= 8)
    c.raises('bad-increment', TypeError, lambda: Scheduler.generate_dates_by_increments(date(2020, 1, 1), date(2021, 1, 1), 5))


def long_sequences(c):
    """Hundreds of steps of months from a month end: the day never drifts."""
    rng = c.rng
    start = date(rng.randint(1850, 2050), rng.choice([1, 3, 5, 7, 8, 10, 12, 2]), 28)
    start += timedelta(days=rng.randint(0, 3 if start.month != 2 else 0))
    months, sign = rng.choice([1, 1, 2, 3]), rng.choice([1, -1])
    n = rng.randint(420, 999)
    end = _ref_at(start, n * sign, months, 0) + timedelta(days=sign * rng.randint(0, 20))
    c.note(start=start, end=end, months=sign * months)
    got = Scheduler.generate_dates_by_increments(start, end, relativedelta(months=sign * months))
    c.same('dates-long', list(got), [_ref_at(start, sign * k, months, 0) for k in range(n + 1)], start=start, end=end)
    c.event('long-sequence')
    c.seen(start, end, months)


def default_cap(c):
    """The default maximum stops a sequence running in the wrong direction or too long."""
    start = G.rdate(c.rng, 2000, 2030)
    got = Scheduler.generate_dates_by_increments(start, start + timedelta(days=3000), timedelta(days=1))
    c.ok('default-cap', 1000 <= len(got) <= 1001 and got == [start + timedelta(days=k) for k in range(len(got))], n=len(got))
    c.event('default-cap')
    c.seen(start)


def business_days(c):
    rng = c.rng
    for _ in range(4):
        repo, ref = G.rcalendar(rng)
        a = G.rdate(rng, 1990, 2060)
        b = a + timedelta(days=rng.choice([-5, 0, 1, 2, 3, 30, rng.randint(0, 400)]))
        c.note(start=a, end=b, calendar=ref.name)
        got = Scheduler.generate_business_days(a, b, repo)
        c.same('business-days', list(got), ref.days(a, b), start=a, end=b, calendar=ref.name)
        c.event('period')
        c.event('business-day', len(got))
        if len(got) > 1:
            c.seen(a, b, ref.name)


def long_periods(c):
    """Every business day of decades."""
    rng = c.rng
    repo, ref = G.rcalendar(rng, False)
    a = G.rdate(rng, 1960, 2040)
    b = a + timedelta(days=rng.randint(7500, 16000))
    got = Scheduler.generate_business_days(a, b, repo)
    c.same('business-days-long', list(got), ref.days(a, b), start=a, end=b, calendar=ref.name)
    c.event('long-period')
    c.event('business-day', len(got))
    c.seen(a, b, ref.name)


class Future(UsTreasuryFuture):
    """The future is abstract in the valuation methods only; its schedule is what is observed here."""

    def present_value(self, *a, **k):
        raise NotImplementedError

    def to_knot_value_pair(self, *a, **k):
        raise NotImplementedError


def futures(c):
    rng = c.rng
    repo, ref = G.rcalendar(rng)
    purchase = G.rdate(rng, 2000, 2050)
    maturity = purchase + timedelta(days=rng.choice([0, 5, rng.randint(1, 200)]))
    conv = rng.choice(G.SETTLE_NAMES)
    c.note(purchase=purchase, maturity=maturity, convention=conv, calendar=ref.name)
    fut = Future(deliverables_basket={}, conversion_factors={}, tenor='10Y', maturity_date=maturity,
                           delivery_month=ImmMonths.MARCH, purchase_date=purchase, holiday_calendar=repo,
                           settlement_convention=G.settle(conv))
    s = ref.settle(purchase, conv)
    c.same('settlement', fut.settlement_date, s)
    cf = fut[CashflowKeys.MARK_TO_MARKET]
    c.same('mark-to-market-dates', cf.get_payment_dates(), ref.days(s, maturity), settlement=s, maturity=maturity)
    c.same('amounts-open', [a for a in cf.get_payment_amounts() if a is not None], [])
    c.event('future')
    c.seen(purchase, maturity, conv, ref.name)


def in_situ(c):
    with taps.sequences(c):
        scenario.ALL[c.index % 3](c)


DRIVERS = [Driver('increments', increments, 160, 3000, {'month-end-start': 100, 'backward': 300, 'opposite': 30, 'capped': 50}),
           Driver('long_sequences', long_sequences, 12, 200, {'long-sequence': 10}),
           Driver('default_cap', default_cap, 4, 20),
           Driver('business_days', business_days, 100, 1500, {'business-day': 5000}),
           Driver('long_periods', long_periods, 4, 40, {'long-period': 3}),
           Driver('futures', futures, 100, 1500, {'future': 50}),
           Driver('in_situ', in_situ, 12, 60)]
