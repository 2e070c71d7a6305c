"""Seeded workload generators shared by the checks, and the bridge from reference names to the repo's enumerations."""
from __future__ import annotations

from datetime import date, datetime, time, timedelta

from dateutil.relativedelta import relativedelta

from . import oracle as O

from fixedIncome.src.scheduling_tools import schedule_enumerations as E
from fixedIncome.src.scheduling_tools.holidays import Holiday, US_FEDERAL_HOLIDAYS
from fixedIncome.src.curves.curve_enumerations import (CurveIndex, EndBehavior, InterpolationMethod,
                                                       InterpolationSpace)
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair

DCC = {n: getattr(E.DayCountConvention, n) for n in O.DCCS}
SETTLE_NAMES = list(O.Cal.SETTLE) + ['T_MINUS_ZERO_BUSINESS']
METHODS = {'previous': InterpolationMethod.PREVIOUS, 'linear': InterpolationMethod.LINEAR,
           'quadratic': InterpolationMethod.QUADRATIC_SPLINE, 'cubic': InterpolationMethod.CUBIC_SPLINE}


def settle(name):
    return getattr(E.SettlementConvention, name)


def adj(name):
    return getattr(E.BusinessDayAdjustment, name)


def freq(name):
    return getattr(E.PaymentFrequency, name)


# ---------------------------------------------------------------------------------------------------------- dates

SPECIAL_MD = [(1, 1), (1, 2), (12, 31), (12, 30), (12, 29), (2, 28), (2, 29), (3, 1), (1, 31), (4, 30), (8, 31), (7, 4),
              (7, 3), (7, 5), (12, 24), (12, 25), (12, 26), (11, 11), (6, 19), (5, 30), (5, 31), (10, 31), (1, 30)]


def rdate(rng, lo=1990, hi=2060):
    """Random date with extra weight on month ends, leap days, year ends and holiday neighbourhoods."""
    u = rng.random()
    y = rng.randint(lo, hi)
    if u < 0.35:
        m, d = rng.choice(SPECIAL_MD)
        if (m, d) == (2, 29) and O.ylen(y) == 365:
            y -= y % 4
            if O.ylen(y) == 365:
                d = 28
        return date(y, m, d) + timedelta(days=rng.choice([0, 0, 0, 1, -1, 2]))
    if u < 0.5:   # around an observed holiday
        hs = sorted(O.us_holidays(y).values())
        return rng.choice(hs) + timedelta(days=rng.randint(-3, 3))
    return date(y, 1, 1) + timedelta(days=rng.randrange(O.ylen(y)))


def rtime(rng):
    return rng.choice([time(0), time(0, 0, 1), time(12), time(23, 59, 59),
                       time(rng.randrange(24), rng.randrange(60), rng.randrange(60))])


def rdatetime(rng, lo=1990, hi=2060):
    return datetime.combine(rdate(rng, lo, hi), rtime(rng))


# ------------------------------------------------------------------------------------------------------ calendars

def _weekday_on_after(wd):
    def f(d):
        return d + timedelta(days=(wd - d.weekday()) % 7)
    return f


def _same(d):
    return d


def _obs(d):
    return d - timedelta(days=1) if d.weekday() == 5 else d + timedelta(days=1) if d.weekday() == 6 else d


def _next_monday_if_weekend(d):
    return d + timedelta(days=(7 - d.weekday()) if d.weekday() >= 5 else 0)


def _shift_back_into_last_year(d):
    return d - timedelta(days=3)


ADJUSTERS = [('same', _same), ('observed', _obs), ('next-monday', _next_monday_if_weekend), ('back3', _shift_back_into_last_year),
             ('thursday', _weekday_on_after(3)), ('monday', _weekday_on_after(0))]


def rcalendar(rng, allow_custom=True):
    """(repo calendar, reference calendar)"""
    u = rng.random()
    if u < 0.6:
        return US_FEDERAL_HOLIDAYS, O.US
    if u < 0.72 or not allow_custom:
        return {}, O.NONE
    return custom_calendar(rng)


def _far(k):
    def f(d):
        return d + timedelta(days=k)
    f.__name__ = f'moved_by_{k}_days'
    return f


def custom_calendar(rng):
    repo, rules = {}, []
    n = rng.randint(1, 12)
    cluster = rng.random() < 0.5
    base = rdate(rng, 2000, 2000)
    for i in range(n):
        if cluster and rng.random() < 0.7:     # a run of holidays, e.g. a "golden week" around the new year
            dd = base + timedelta(days=i)
            m, d = dd.month, dd.day
        else:
            m, d = rng.randint(1, 12), rng.randint(1, 28)
        if (m, d) == (2, 29):
            d = 28
        name, f = rng.choice(ADJUSTERS)
        if rng.random() < 0.12:      # observed weeks or months away from the nominal date, often in another year
            f = _far(rng.choice([-1, 1]) * rng.randint(20, 300))
        month = list(E.Months)[m - 1] if rng.random() < 0.5 else m
        repo[f'h{i}'] = Holiday(month, d, f)
        rules.append((m, d, f))
    # The reference applies the user's own rule functions; which day they name is the user's definition.
    return repo, O.Cal(lambda y, rules=tuple(rules): [f(date(y, m, d)) for m, d, f in rules], f'custom{n}')


def long_closure(rng):
    """A calendar which closes for weeks on end once a year."""
    base, n = rdate(rng, 2001, 2001), rng.randint(15, 75)
    repo, rules = {}, []
    for i in range(n):
        dd = base + timedelta(days=i)
        if (dd.month, dd.day) == (2, 29):
            continue
        repo[f'h{i}'] = Holiday(dd.month, dd.day, _same)
        rules.append((dd.month, dd.day))
    return repo, O.Cal(lambda y, rules=tuple(rules): [date(y, m, d) for m, d in rules], f'closure{n}')


# --------------------------------------------------------------------------------------------------------- curves

def rknots(rng, ref, n, lo_days=1, hi_days=3650, values=None, first_at_ref=None):
    days = sorted(rng.sample(range(lo_days, hi_days), n))
    if first_at_ref is None:
        first_at_ref = rng.random() < 0.5
    if first_at_ref:
        days[0] = 0
    values = values or (lambda i: rng.uniform(-2, 5))
    return [(ref + timedelta(days=d), values(i)) for i, d in enumerate(days)]


def discount_pair(rng, ref, horizon_days, method=None, dcc=None, right='CONSTANT', left='ERROR', start=0):
    """A positive discount curve on [ref+start, ref+horizon] and its reference model."""
    if left == 'CONSTANT' and not start and rng.random() < 0.35:      # the first knot is later than the reference date
        start = rng.choice([1, 10, min(200, horizon_days // 3)])
    method = method or rng.choice(['linear', 'linear', 'previous', 'cubic', 'quadratic'])
    dcc = dcc or rng.choice(['ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_365_POINT_25', 'ACTUAL_OVER_ACTUAL'])
    n = rng.randint(4, 9)
    rate = rng.uniform(-0.01, 0.09)
    slope = rng.uniform(-0.003, 0.003)
    ds = sorted({start, horizon_days} | {rng.randint(start + 1, max(start + 2, horizon_days - 1)) for _ in range(n)})
    kn = []
    import math
    for d in ds:
        t = d / 365.0
        kn.append((ref + timedelta(days=d), math.exp(-(rate + slope * t) * t)))
    if method in ('cubic', 'quadratic') and len(kn) < 4:
        method = 'linear'
    order = kn[:]
    rng.shuffle(order)
    c = DiscountCurve([KnotValuePair(k, v) for k, v in order], interpolation_method=METHODS[method],
                      index=CurveIndex.NONE, interpolation_day_count_convention=DCC[dcc], reference_date=ref,
                      left_end_behavior=getattr(EndBehavior, left), right_end_behavior=getattr(EndBehavior, right))
    r = O.RefCurve(kn, method, dcc, ref, left, right)
    return c, r


# ---------------------------------------------------------------------------------------------------------- bonds

def bond_classes():
    from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
    from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
    return {'treasury': UsTreasuryBond, 'corporate': FixedRateBond}


def rbond_params(rng, max_years=12, coupon_bearing=False, purchase=None, simple_tenor=False):
    freq_name = rng.choice(['SEMI_ANNUAL', 'SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL'] + ([] if coupon_bearing else ['ZERO_COUPON']))
    if max_years > 40:
        years = rng.randint(25, max_years)
    else:
        years = rng.randint(1, max_years)
    if simple_tenor or rng.random() < 0.55:
        tenor = f'{years}Y'
    else:
        tenor = f'{rng.randint(2 if max_years <= 40 else 300, 12 * max_years)}M'
    months = O.tenor_months(tenor)
    if purchase is None:
        maturity = rdate(rng, 2000, 2055)
        dated = O.add_months(maturity, -months)
        span = (maturity - dated).days
        purchase = dated + timedelta(days=rng.randint(0, max(1, span - 12)))
        if rng.random() < 0.35:      # near a coupon date
            n = O.FREQ[freq_name] or 2
            k = rng.randint(0, max(0, months * n // 12 - 1))
            cand = O.add_months(maturity, -k * (12 // n)) + timedelta(days=rng.randint(-4, 3))
            if dated <= cand <= maturity - timedelta(days=12):
                purchase = cand
    else:
        purchase_ = purchase
        life = rng.randint(20, max(30, int(months * 30.4) - 2))
        maturity = purchase_ + timedelta(days=life)
        dated = O.add_months(maturity, -months)
        while dated > purchase_:
            maturity = maturity - timedelta(days=7)
            dated = O.add_months(maturity, -months)
    return dict(price=round(rng.uniform(70, 130), 4), coupon=rng.choice([0.125, 1.0, 2.5, 4.875, 6.0, 9.0, round(rng.uniform(0.1, 12), 3)]),
                principal=rng.choice([100, 100, 1000, 1_000_000, 250]), tenor=tenor, purchase=purchase, maturity=maturity,
                settle=rng.choice(SETTLE_NAMES[2:6] + ['T_PLUS_ONE_BUSINESS'] * 3), freq=freq_name,
                dcc=rng.choice(O.DCCS + ['ACTUAL_OVER_ACTUAL'] * 2),
                adj=rng.choice(['FOLLOWING', 'MODIFIED_FOLLOWING']))


def make_bond(kind, p, repo_cal, ref_cal):
    cls = bond_classes()[kind]
    b = cls(price=p['price'], coupon_rate=p['coupon'], principal=p['principal'], tenor=p['tenor'], purchase_date=p['purchase'],
            maturity_date=p['maturity'], settlement_convention=settle(p['settle']), payment_frequency=freq(p['freq']),
            day_count_convention=DCC[p['dcc']], business_day_adjustment=adj(p['adj']), holiday_calendar=repo_cal)
    r = O.RefBond(p['price'], p['coupon'], p['principal'], p['tenor'], p['purchase'], p['maturity'], p['settle'], p['freq'],
                  p['dcc'], p['adj'], ref_cal)
    return b, r
