"""S01: swap leg schedules against an independent backward generation with adjustment, day count, delay and fixing rules."""
from .. import gen as G, oracle as O, scenario, taps
from ..harness import Driver, Stop
from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import (InterestRateSwapDirection, OvernightIndexSwap,
                                                                           TermInterestRateSwap)
from fixedIncome.src.curves.curve_enumerations import CurveIndex

RULE = ('Random term and overnight swaps over tenors in months and years (whole, stub and month-end starts), frequencies, day counts, adjustments, '
        'delays, fixing conventions and calendars (US, none, custom); schedules, payment dates and observed fixing dates are compared with an '
        'independent reference; distinct by (start, tenor, frequency, adjustment, periods).')
ASSUMPTIONS = ['Calendars leave at least one business day in every month.', 'Purchase dates are whole days between 1995 and 2045.']
MONTHS = {'ANNUAL': 12, 'SEMI_ANNUAL': 6, 'QUARTERLY': 3}
CLASSES = {'term': TermInterestRateSwap, 'overnight': OvernightIndexSwap}


def params(c, max_months=180):
    rng = c.rng
    months = rng.choice([3, 6, 12, 24, 36, 60, 120, rng.randint(1, max_months), rng.randint(1, 40)])
    months = min(months, max_months)
    tenor = f'{months // 12}Y' if months % 12 == 0 and rng.random() < 0.6 else f'{months}M'
    return dict(kind=rng.choice(sorted(CLASSES)), direction=rng.choice(list(InterestRateSwapDirection)).name,
                rate=rng.choice([0.0, 0.05, -0.01, rng.uniform(0, 0.1)]), notional=rng.choice([1, 1_000_000, rng.randint(1, 10**8)]),
                purchase=G.rdate(rng, 1995, 2045), settle=rng.choice(G.SETTLE_NAMES + ['T_PLUS_TWO_BUSINESS'] * 3), tenor=tenor, months=months,
                ffreq=rng.choice(sorted(MONTHS)), xfreq=rng.choice(sorted(MONTHS)), fdcc=rng.choice(O.DCCS), xdcc=rng.choice(O.DCCS),
                fixing=rng.choice(G.SETTLE_NAMES + ['T_MINUS_TWO_BUSINESS'] * 3), delay=rng.choice(G.SETTLE_NAMES + ['T_PLUS_TWO_BUSINESS'] * 3),
                adj=rng.choice(['FOLLOWING', 'MODIFIED_FOLLOWING']))


def build(p, repo_cal, **over):
    p = dict(p, **over)
    return CLASSES[p['kind']](
        float_index=CurveIndex.SOFR, direction=InterestRateSwapDirection[p['direction']], fixed_rate=p['rate'], notional=p['notional'],
        purchase_date=p['purchase'], settlement_convention=G.settle(p['settle']), tenor=p['tenor'],
        floating_leg_payment_frequency=G.freq(p['ffreq']), fixed_leg_payment_frequency=G.freq(p['xfreq']),
        floating_leg_day_count_convention=G.DCC[p['fdcc']], fixed_leg_day_count_convention=G.DCC[p['xdcc']], holiday_calendar=repo_cal,
        fixing_date_for_accrual_period=G.settle(p['fixing']), payment_delay=G.settle(p['delay']), business_day_adjustment=G.adj(p['adj']))


class Ref:
    def __init__(self, p, cal):
        self.p, self.cal = p, cal
        self.start = cal.settle(p['purchase'], p['settle'])
        self.end = O.add_months(self.start, p['months'])
        self.floating = self.leg(p['ffreq'], p['fdcc'])
        self.fixed = self.leg(p['xfreq'], p['xdcc'])

    def leg(self, freq, dcc):
        out = []
        for a, b in O.leg_periods(self.start, self.end, MONTHS[freq], self.cal, self.p['adj']):
            out.append((a, b, O.frac(a, b, dcc), self.cal.settle(b, self.p['delay']), self.cal.settle(a, self.p['fixing'])))
        return out


def check_leg(c, name, got, exp, ref):
    c.same(name + '-periods', [(a.start_accrual, a.end_accrual) for a in got], [e[:2] for e in exp])
    if len(got) == len(exp):
        c.eqv(name + '-factors', [a.accrual_factor for a in got], [e[2] for e in exp], 1e-10, 1e-12)
    # Judged without the reference: tiling and business days.
    c.ok(name + '-no-gap', all(a.end_accrual == b.start_accrual for a, b in zip(got, got[1:])))
    if got:
        c.same(name + '-whole-term', (got[0].start_accrual, got[-1].end_accrual),
               (ref.cal.adjust(ref.start, ref.p['adj']), ref.cal.adjust(ref.end, ref.p['adj'])))
    c.ok(name + '-business-days', all(ref.cal.is_bd(x) for a in got for x in (a.start_accrual, a.end_accrual)))


def schedules(c):
    p = params(c)
    repo, cal = G.rcalendar(c.rng)
    ref = Ref(p, cal)
    c.note(**p, calendar=cal.name)
    sw = build(p, repo)
    c.same('term', (sw.start_accrual_date, sw.end_accrual_date), (ref.start, ref.end))
    c.same('knot', sw.to_knot_value_pair().knot, ref.end)
    c.eq('knot-value', sw.to_knot_value_pair().value, p['rate'])
    order = ['floating', 'fixed']
    c.rng.shuffle(order)
    for leg in order + order[:1]:
        if leg == 'floating':
            check_leg(c, leg, sw.generate_floating_leg_accrual_schedule(), ref.floating, ref)
        else:
            check_leg(c, leg, sw.generate_fixed_leg_accrual_schedule(), ref.fixed, ref)
    c.event('leg', 2)
    for leg, f in ((ref.floating, p['ffreq']), (ref.fixed, p['xfreq'])):
        if p['months'] % MONTHS[f]:
            c.event('front-stub')
        if ref.start.day > 28:
            c.event('month-end')
        c.seen(ref.start, p['tenor'], f, p['adj'], len(leg), cal.name)
    # Payment dates, and the fixing dates the floating leg actually asks for.
    c.same('fixed-payment-dates', [q.payment_date for q in sw.generate_fixed_leg_cashflow()], sorted(e[3] for e in ref.fixed))
    if p['kind'] == 'term':
        asked = []

        def rate(d):
            asked.append(d)
            return 0.03
        cf = sw.generate_floating_leg_cashflow(rate)
        c.same('fixing-dates', sorted(set(asked)), sorted({e[4] for e in ref.floating}))
        c.event('fixing', len(asked))
        c.same('floating-payment-dates', [q.payment_date for q in cf], sorted(e[3] for e in ref.floating))


def overnight_dates(c):
    """The overnight leg reads the index on exactly the business days of each period and pays with the delay."""
    p = dict(params(c, 24), kind='overnight')
    repo, cal = G.rcalendar(c.rng)
    ref = Ref(p, cal)
    c.note(**p, calendar=cal.name)
    if any(a >= b for a, b, *_ in ref.floating):
        raise Stop
    sw = build(p, repo)
    asked = []

    def rate(d):
        asked.append(d)
        return 0.02
    cf = sw.generate_floating_leg_cashflow(rate)
    exp = [d for a, b, *_ in ref.floating for d in cal.days(a, b)[:-1]]
    c.same('index-dates', sorted(set(asked)), exp, n=len(exp))
    c.same('floating-payment-dates', [q.payment_date for q in cf], sorted(e[3] for e in ref.floating))
    c.event('overnight')
    c.seen(ref.start, p['tenor'], p['ffreq'], cal.name, len(exp))


def refused(c):
    rng = c.rng
    p = params(c, 60)
    repo, cal = G.rcalendar(rng)
    bad = rng.choice(['MONTHLY', 'ZERO_COUPON'])
    c.note(**p, bad=bad)
    sw = build(p, repo, ffreq=bad)
    c.raises('floating-frequency', ValueError, sw.generate_floating_leg_accrual_schedule)
    c.raises('floating-frequency-cashflow', ValueError, lambda: sw.generate_floating_leg_cashflow(lambda d: 0.0))
    sw = build(p, repo, xfreq=bad)
    c.raises('fixed-frequency', ValueError, sw.generate_fixed_leg_accrual_schedule)
    c.raises('fixed-frequency-cashflow', ValueError, sw.generate_fixed_leg_cashflow)
    c.raises('tenor-unit', ValueError, lambda: build(p, repo, tenor=f'{rng.randint(1, 20)}{rng.choice("DWQ")}'))
    c.event('refused', 5)
    c.seen(bad, p['tenor'], p['purchase'])


def in_situ(c):
    with taps.business_days(c), taps.shifts(c), taps.sequences(c), taps.day_counts(c):
        scenario.swap_desk(c)


DRIVERS = [Driver('schedules', schedules, 500, 12000, {'leg': 900, 'front-stub': 100, 'month-end': 60, 'fixing': 500}),
           Driver('overnight_dates', overnight_dates, 64, 1200, {'overnight': 50}),
           Driver('refused', refused, 40, 600, {'refused': 100}),
           Driver('in_situ', in_situ, 24, 300, {'swap-desk': 20})]
