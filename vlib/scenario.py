"""End-to-end workloads over the whole library (bond book -> curve -> risk, swaps, loans, simulated models).

They are driven under the taps: the point is to observe the shared building blocks where the system uses them."""
from __future__ import annotations

from datetime import date, datetime, timedelta

import numpy as np
from dateutil.relativedelta import relativedelta

from . import gen as G
from . import oracle as O

from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import (InterestRateSwapDirection, OvernightIndexSwap,
                                                                           TermInterestRateSwap)
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory
from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentTime
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel


def bond_book(c, n, kind='treasury', max_days=900, principals=(100,), freqs=('SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL')):
    rng = c.rng
    today = G.rdate(rng, 2005, 2040)
    out, used = [], set()
    days = 45
    for i in range(n):
        days += rng.randint(60, max(90, max_days // n))
        mat = today + timedelta(days=days)
        months = rng.choice([m for m in (6, 12, 18, 24, 36, 60) if O.add_months(mat, -m) <= today - timedelta(days=7)] or [120])
        p = dict(price=round(rng.uniform(92, 106), 3), coupon=round(rng.uniform(0.25, 8), 3), principal=rng.choice(principals), tenor=f'{months}M',
                 purchase=today, maturity=mat, settle='T_PLUS_ONE_BUSINESS', freq=rng.choice(freqs),
                 dcc='ACTUAL_OVER_ACTUAL', adj=rng.choice(['FOLLOWING', 'MODIFIED_FOLLOWING']))
        try:
            b, r = G.make_bond(kind, p, G.US_FEDERAL_HOLIDAYS, O.US)
        except ValueError:
            continue
        if r.knot() in used:
            continue
        used.add(r.knot())
        out.append((b, r))
    return today, out


def treasury_desk(c):
    today, book = bond_book(c, c.rng.randint(2, 4), max_days=500)
    bonds = [b for b, _ in book]
    factory = YieldCurveFactory()
    curve = factory.bootstrap_yield_curve(bonds, InterpolationMethod.LINEAR, today)
    for b in bonds:
        b.yield_to_maturity()
        b.convexity()
        curve.present_value(b)
    pf = Portfolio([PortfolioEntry(c.rng.randint(-5, 5), b) for b in bonds])
    curve.calculate_pv01_risk_ladder(pf, pf.to_key_rate_collection(G.DCC['ACTUAL_OVER_ACTUAL']))
    c.event('treasury-desk')


def swap_desk(c):
    rng = c.rng
    today = G.rdate(rng, 2005, 2040)
    disc, _ = G.discount_pair(rng, today, 365 * 12, method='linear')
    rate, _ = G.discount_pair(rng, today - timedelta(days=60), 365 * 12, method='linear', left='CONSTANT')
    cls = rng.choice([TermInterestRateSwap, OvernightIndexSwap])
    sw = cls(float_index=CurveIndex.SOFR, direction=rng.choice(list(InterestRateSwapDirection)), fixed_rate=0.03, notional=1_000_000,
             purchase_date=today, settlement_convention=G.settle('T_PLUS_TWO_BUSINESS'), tenor=rng.choice(['6M', '1Y', '17M', '2Y']),
             floating_leg_payment_frequency=G.freq('QUARTERLY'), fixed_leg_payment_frequency=G.freq('SEMI_ANNUAL'),
             floating_leg_day_count_convention=G.DCC['ACTUAL_OVER_360'], fixed_leg_day_count_convention=G.DCC['THIRTY_OVER_THREESIXTY'],
             holiday_calendar=G.US_FEDERAL_HOLIDAYS)
    sw.generate_fixed_leg_cashflow()
    sw.generate_floating_leg_cashflow(lambda d: 0.05 * float(rate(d)))
    sw.present_value(disc)
    sw.implied_rate(disc, lambda d: 0.05 * float(rate(d)))
    loan = Loan(principal=100_000, interest_rate=0.05, origination_date=today, term_length=relativedelta(years=rng.randint(1, 5)),
                day_count_convention=rng.choice(list(G.DCC.values())),
                payment_time=rng.choice([PaymentTime.END_OF_MONTH, PaymentTime.START_OF_MONTH]))
    loan.present_value(disc)
    c.event('swap-desk')


def model_desk(c):
    rng = c.rng
    start = G.rdatetime(rng, 2005, 2040)
    end = start + timedelta(days=rng.randint(40, 200))
    bm = BrownianMotion(start, end, dimension=1, day_count_convention=G.DCC[rng.choice(['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_365', 'ACTUAL_OVER_360'])])
    vm = VasicekModel(0.04, 0.3, 0.02, bm, dt=relativedelta(days=rng.choice([1, 3])))
    vm.generate_path(0.03, seed=rng.randrange(1000))
    dc = vm.create_discount_curve()
    for _ in range(5):
        t = start + (end - start) * rng.random() * 0.9
        vm(t), dc(t), vm.expected_short_rate(t)
    vm.accrual_curve()
    vm.zero_coupon_bond_price(end)
    c.event('model-desk')


ALL = [treasury_desk, swap_desk, model_desk]
