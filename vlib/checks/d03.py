from datetime import date, datetime, timedelta

from .. import gen as G, oracle as O, taps, scenario
from ..harness import Driver
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention

RULE = ('Boundary-weighted dates, shift sizes of either sign, every settlement convention, US/empty/custom calendars including runs of '
        'consecutive holidays; distinct by (date, shift or convention, calendar) where the date is not simply the next weekday.')
ASSUMPTIONS = ['The business-day status of each date is taken from an independent calendar model.']
CALENDAR_DAYS = ['T_PLUS_ZERO_CALENDAR', 'T_PLUS_ONE_CALENDAR', 'T_PLUS_TWO_CALENDAR', 'T_PLUS_THREE_CALENDAR']


def shifts(c):
    rng = c.rng
    repo, ref = G.rcalendar(rng)
    for _ in range(25):
        d = G.rdate(rng, 1980, 2080)
        n = rng.choice([0, 0, 1, -1, 2, -2, 3, -3, rng.randint(-40, 40)])
        c.note(date=d, n=n, calendar=ref.name)
        got = Scheduler.add_business_days(d, n, repo)
        c.same('shift', got, ref.add(d, n), date=d, n=n, calendar=ref.name)
        c.ok('lands-on-business-day', ref.is_bd(got), date=d, n=n, got=got)
        m = rng.randint(0, 12) * (1 if n >= 0 else -1)
        c.same('composes', Scheduler.add_business_days(got, m, repo), ref.add(d, n + m), date=d, n=n, m=m)
        c.event('shift')
        if n < 0:
            c.event('backward')
        if not ref.is_bd(d):
            c.event('from-holiday-or-weekend')
        if got != d + timedelta(days=n):
            c.seen(d, n, ref.name)
        if ref.is_bd(d):
            c.same('next', Scheduler.add_single_business_day(d, repo), ref.add(d, 1), date=d)
        else:
            c.raises('single-step-needs-business-day', ValueError, lambda: Scheduler.add_single_business_day(d, repo), date=d)
        c.same('previous', Scheduler.subtract_single_business_day(d, repo), ref.roll_back(d - timedelta(days=1)), date=d)


def adjustments(c):
    rng = c.rng
    repo, ref = G.rcalendar(rng)
    for _ in range(35):
        d = G.rdate(rng, 1980, 2080)
        if rng.random() < 0.5:   # month ends
            d = date(d.year + d.month // 12, d.month % 12 + 1, 1) - timedelta(days=rng.randint(1, 4))
        c.note(date=d, calendar=ref.name)
        f, mf = Scheduler.following_date_adjustment(d, repo), Scheduler.modified_following_date_adjustment(d, repo)
        c.same('following', f, ref.following(d), date=d, calendar=ref.name)
        c.same('modified-following', mf, ref.modified(d), date=d, calendar=ref.name)
        c.ok('business-day', ref.is_bd(f) and ref.is_bd(mf), date=d)
        c.event('adjust')
        if mf < d:
            c.event('rolled-back')
        if f != d:
            c.seen(d, ref.name)


def settlement(c):
    rng = c.rng
    repo, ref = G.rcalendar(rng)
    for _ in range(12):
        d = G.rdate(rng, 1980, 2080)
        c.note(date=d, calendar=ref.name)
        for conv in G.SETTLE_NAMES:
            got = Scheduler.calculate_settlement_date(d, G.settle(conv), repo)
            c.same('settlement', got, ref.settle(d, conv), date=d, convention=conv, calendar=ref.name)
            c.event('settlement')
            c.seen(d, conv, ref.name)
        for conv in CALENDAR_DAYS:
            c.raises('no-rule', ValueError, lambda: Scheduler.calculate_settlement_date(d, G.settle(conv), repo), convention=conv)
    c.same('conventions-known', {s.name for s in SettlementConvention}, set(G.SETTLE_NAMES) | set(CALENDAR_DAYS))


def far_shifts(c):
    """Shifts of years, and calendars closed for weeks on end."""
    rng = c.rng
    if rng.random() < 0.4:
        repo, ref = G.rcalendar(rng)
    else:
        repo, ref = G.long_closure(rng)
        c.event('long-closure')
    d = G.rdate(rng, 1990, 2060)
    n = rng.choice([-1, 1]) * rng.choice([rng.randint(40, 300), rng.randint(250, 1100), 365, 366, 1000, 1001, rng.randint(1100, 2800)])
    if len(repo) > 20:
        n = n // 4
        h = rng.choice(ref.rules(d.year))       # just outside, or inside, the closure
        d = h + timedelta(days=rng.randint(-4, 4))
        c.same('following', Scheduler.following_date_adjustment(d, repo), ref.following(d), date=d, calendar=ref.name)
        c.same('modified-following', Scheduler.modified_following_date_adjustment(d, repo), ref.modified(d), date=d, calendar=ref.name)
        for k in (1, -1, 2, -2):
            c.same('over-closure', Scheduler.add_business_days(d, k, repo), ref.add(d, k), date=d, n=k, calendar=ref.name)
    c.note(date=d, n=n, calendar=ref.name)
    c.same('far-shift', Scheduler.add_business_days(d, n, repo), ref.add(d, n), date=d, n=n, calendar=ref.name)
    c.event('far-shift')
    c.seen(d, n, ref.name)


def timestamps(c):
    """A timestamp moves to the days its date moves to."""
    rng = c.rng
    repo, ref = G.rcalendar(rng)
    for _ in range(10):
        d = G.rdate(rng, 1980, 2080)
        t = datetime.combine(d, G.rtime(rng))
        n = rng.choice([0, 1, -1, 2, -2, rng.randint(-15, 15)])
        c.note(timestamp=t, n=n, calendar=ref.name)
        c.same('timestamp-shift', Scheduler.add_business_days(t, n, repo).date(), ref.add(d, n), timestamp=t, n=n, calendar=ref.name)
        c.same('timestamp-following', Scheduler.following_date_adjustment(t, repo).date(), ref.following(d), timestamp=t, calendar=ref.name)
        c.same('timestamp-modified', Scheduler.modified_following_date_adjustment(t, repo).date(), ref.modified(d), timestamp=t, calendar=ref.name)
        conv = rng.choice(G.SETTLE_NAMES)
        c.same('timestamp-settlement', Scheduler.calculate_settlement_date(t, G.settle(conv), repo).date(), ref.settle(d, conv), timestamp=t,
               convention=conv, calendar=ref.name)
        c.event('timestamp')
        c.seen(t, n, ref.name)


def in_situ(c):
    with taps.shifts(c):
        scenario.ALL[c.index % 2](c)


DRIVERS = [Driver('shifts', shifts, 150, 2500, {'backward': 500, 'from-holiday-or-weekend': 300}),
           Driver('adjustments', adjustments, 120, 2500, {'rolled-back': 100}),
           Driver('settlement', settlement, 100, 2000, {'settlement': 3000}),
           Driver('far_shifts', far_shifts, 80, 800, {'far-shift': 60, 'long-closure': 20}),
           Driver('timestamps', timestamps, 60, 1000, {'timestamp': 400}),
           Driver('in_situ', in_situ, 10, 60)]
