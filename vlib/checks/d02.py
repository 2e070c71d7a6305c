from datetime import date, datetime, timedelta

import pandas as pd

from .. import gen as G, oracle as O, taps, scenario
from ..harness import Driver
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import (US_FEDERAL_HOLIDAYS, generate_all_holidays, generate_holiday_dates, get_next_weekday,
                                                       us_federal_holiday_adjustment, Holiday)
from fixedIncome.src.scheduling_tools.schedule_enumerations import Weekdays

RULE = ('All dates of randomly drawn years (1903-2195) under the US calendar, an empty calendar and random custom calendars, with the '
        'holiday sets of random year spans; distinct by (calendar, date) for dates that are weekend days, holidays or neighbours of '
        'a holiday.')
ASSUMPTIONS = ['The US observance rules are those documented in the holiday table (fixed-date Martin Luther King and Memorial days).',
               'Adjustment functions of custom calendars are the user\'s; the check applies them itself.']


def us_years(c):
    y = c.rng.randint(1903, 2195) if c.rng.random() < 0.85 else c.rng.randint(3, 9996)
    c.note(year=y)
    d = date(y, 1, 1)
    while d.year == y:
        got = Scheduler.is_business_day(d, US_FEDERAL_HOLIDAYS)
        exp = O.US.is_bd(d)
        c.same('business-day', bool(got), exp, date=d)
        c.event('date')
        if not exp:
            c.event('closed')
            c.seen('US', d)
        d += timedelta(days=1)
    if any(d.year != y for d in O.us_holidays(y).values()):
        c.event('observed-in-other-year')


def year_ends(c):
    """The dates around the year end of ten years: the observed date can fall in another year than the holiday."""
    y0 = c.rng.randint(1905, 2180)
    for y in range(y0, y0 + 14):
        for k in range(-4, 5):
            d = date(y, 1, 1) + timedelta(days=k)
            c.same('business-day', bool(Scheduler.is_business_day(d, US_FEDERAL_HOLIDAYS)), O.US.is_bd(d), date=d)
            c.seen('US', d)
            c.event('year-end-date')


def other_calendars(c):
    rng = c.rng
    repo, ref = ({}, O.NONE) if rng.random() < 0.2 else G.custom_calendar(rng)
    y = rng.randint(1950, 2100)
    c.note(calendar={k: (str(v.Month), v.Day, v.Adjustment_Function.__name__) for k, v in repo.items()}, year=y)
    for k in range(-15, 380):
        d = date(y, 1, 1) + timedelta(days=k)
        exp = ref.is_bd(d)
        c.same('business-day', bool(Scheduler.is_business_day(d, repo)), exp, date=d)
        if not exp and d.weekday() < 5:
            c.seen(c.index, d)
            c.event('custom-holiday')
        c.event('custom-date')
    h = G.rdate(rng, y, y)                              # the same holiday, moved to another day of the week by each of the calendars
    for wd in rng.sample(range(5), 2):
        move = G._weekday_on_after(wd)
        own = {'moved': Holiday(h.month, min(h.day, 28), move)}
        shut = {move(date(yy, h.month, min(h.day, 28))) for yy in (h.year - 1, h.year)}
        for k in range(-1, 8):
            d = h + timedelta(days=k)
            c.same('business-day-moved', bool(Scheduler.is_business_day(d, own)), d.weekday() < 5 and d not in shut, date=d, holiday=h, weekday=wd)
    a, b = y, y + rng.randint(0, 6)
    c.same('holiday-set', set(generate_all_holidays(a, b, repo)), {d for yy in range(a, b + 1) for d in ref.rules(yy)}, years=(a, b))


def holiday_sets(c):
    rng = c.rng
    a = rng.randint(1900, 2190)
    b = a + rng.choice([0, 0, 1, 5, 30])
    c.note(years=(a, b))
    for name in US_FEDERAL_HOLIDAYS:
        got = generate_holiday_dates(name, a, b, US_FEDERAL_HOLIDAYS)
        exp = {O.us_holidays(y)[name] for y in range(a, b + 1)}
        c.same('holiday-dates', set(got), exp, name=name)
        c.same('one-per-year', len(got), b - a + 1, name=name)
        c.ok('never-weekend', all(d.weekday() < 5 for d in got), name=name)
        c.event('holiday', len(exp))
        c.seen(name, a, b)
    c.same('holiday-names', set(US_FEDERAL_HOLIDAYS), set(O.us_holidays(2020)))
    c.same('all-holidays', set(generate_all_holidays(a, b, US_FEDERAL_HOLIDAYS)), {d for y in range(a, b + 1) for d in O.us_holidays(y).values()})
    c.raises('unknown-name', KeyError, lambda: generate_holiday_dates('no such holiday', a, b, US_FEDERAL_HOLIDAYS))


def weekdays(c):
    """The next given weekday is the first one on or after the date."""
    rng = c.rng
    for _ in range(8):
        d, w = G.rdate(rng, 1900, 2195), rng.choice(list(Weekdays))
        exp = next(d + timedelta(days=k) for k in range(7) if (d + timedelta(days=k)).strftime('%A').upper() == w.name)
        c.same('next-weekday', get_next_weekday(d, w), exp, date=d, weekday=w.name)
        c.same('next-weekday', Scheduler.get_next_weekday(d, w), exp, date=d, weekday=w.name)
        c.event('weekday')
        c.seen(d, w.name)


def observed(c):
    """The federal rule moves a holiday of any date from a Saturday to the Friday before and from a Sunday to the Monday after."""
    rng = c.rng
    y = rng.randint(1910, 2190)
    days = [date(y, 12, 31), date(y, 1, 1), date(y, 2, 28)] + [G.rdate(rng, y, y) for _ in range(9)]
    for d in days:
        exp = d + timedelta(days={5: -1, 6: 1}.get(d.weekday(), 0))
        c.same('observed', us_federal_holiday_adjustment(d), exp, date=d)
        if (d.month, d.day) != (2, 29):
            calendar = {'only': Holiday(d.month, d.day, us_federal_holiday_adjustment)}
            for k in (-2, -1, 0, 1, 2):
                x = d + timedelta(days=k)
                near = {h + timedelta(days={5: -1, 6: 1}.get(h.weekday(), 0)) for h in (d.replace(year=yy) for yy in (d.year - 1, d.year, d.year + 1))}
                c.same('observed-closed', bool(Scheduler.is_business_day(x, calendar)), x.weekday() < 5 and x not in near, date=x, holiday=d)
        c.event('observed-moved', exp != d)
        c.seen(d)


def timestamps(c):
    """A timestamp has the status of its day, at any time of the day."""
    rng = c.rng
    repo, ref = G.rcalendar(rng)
    for _ in range(12):
        d = G.rdate(rng, 1905, 2190)
        if rng.random() < 0.5:   # around a holiday of the calendar, weekdays first
            near = [h for h in ref.rules(d.year)]
            d = rng.choice(near) + timedelta(days=rng.choice([0, 0, 0, 1, -1])) if near else d
        t = datetime.combine(d, G.rtime(rng))
        t = pd.Timestamp(t) if rng.random() < 0.3 else t
        exp = ref.is_bd(d)
        c.same('timestamp', bool(Scheduler.is_business_day(t, repo)), exp, timestamp=t, calendar=ref.name)
        c.event('timestamp')
        if not exp and d.weekday() < 5:
            c.event('timestamp-on-holiday')
            c.seen(ref.name, t)


def in_situ(c):
    with taps.business_days(c):
        scenario.ALL[c.index % 2](c)


DRIVERS = [Driver('us_years', us_years, 150, 293, {'closed': 3000, 'observed-in-other-year': 5}),
           Driver('year_ends', year_ends, 60, 400, {'year-end-date': 3000}),
           Driver('other_calendars', other_calendars, 80, 1200, {'custom-holiday': 100}),
           Driver('holiday_sets', holiday_sets, 80, 800, {'holiday': 1000}),
           Driver('weekdays', weekdays, 60, 1000, {'weekday': 200}),
           Driver('observed', observed, 60, 1000, {'observed-moved': 100}),
           Driver('timestamps', timestamps, 60, 1000, {'timestamp-on-holiday': 30}),
           Driver('in_situ', in_situ, 10, 60)]
