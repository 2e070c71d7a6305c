"""Q01: every answer is the one a fresh process gives, whatever else was asked, built or changed before."""
import gc
import os
import pickle
import random
import signal
import traceback
from datetime import date, datetime, timedelta

import numpy as np
from dateutil.relativedelta import relativedelta

from .. import gen as G, oracle as O, scenario
from ..harness import Driver, Stop, close
from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowKeys, Payment, ZeroCoupon
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationSpace
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve, YieldCurveFactory
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools import holidays as H
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import ImmMonths, PaymentTime, Weekdays
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType, VasicekModel
from . import d04, s01
from .models import DoublyMeanRevertingVasicek, Multi

RULE = ('Random worlds of objects from every part of the library, each with near-twins which differ in one attribute; the answer of every query in '
        'a shuffled, repeated, interleaved session (with other objects built, altered and thrown away in between) is compared with the answer of '
        'a fresh process which builds only what the query needs; distinct by (family, query, answer).')
ASSUMPTIONS = ['Simulation is compared for given seeds; iteration with next() is a stated cursor and is judged elsewhere (P01, K02, K03).',
               'Two models may share one Brownian motion, whose own current path is then the last one generated; it is not queried.']


class Ctx:
    def __init__(self, key):
        self.rng = random.Random(key)

    def np_rng(self):
        return np.random.default_rng(self.rng.getrandbits(64))


# ---------------------------------------------------------------------------------------------------------- answers

def plain(v):
    """A picklable, comparable form of an answer."""
    if v is None or isinstance(v, (bool, str, date, datetime)):
        return v
    if isinstance(v, (int, float, np.floating, np.integer)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()] if v.dtype != object else [plain(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return f'{type(v).__name__}'


def agree(a, b, rtol):
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b, rtol, rtol)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        nums = [abs(x) for x in a if isinstance(x, float)]
        if nums and len(nums) == len(a) and all(isinstance(x, float) for x in b):     # a vector: judged on its own scale
            s = max(1.0, max((x for x in nums if x == x), default=1.0))
            return all(close(x, y, rtol, rtol * s) for x, y in zip(a, b))
        return all(agree(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k], rtol) for k in a)
    return a == b


def ask(fn, world):
    try:
        return plain(fn(world))
    except Exception as e:
        return f'raises {type(e).__name__}'


def in_child(fn, limit=60):
    """fn() evaluated in a forked copy of this process, so that nothing it does can influence any other answer."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(3 * limit)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, limit)
            try:
                out = pickle.dumps(('answer', fn()))
            except Exception:
                out = pickle.dumps(('failed', traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    what, out = pickle.loads(data) if data else ('failed', 'killed, or out of time')
    if what == 'failed':
        raise RuntimeError(out)
    return out


# ------------------------------------------------------------------------------------------------------------ worlds

class World:
    """Objects are built on demand, each from its own description."""

    def __init__(self, specs):
        self.specs, self.objects = specs, {}

    def get(self, name):
        if name not in self.objects:
            self.objects[name] = FAMILIES[name.split(':')[0]].build(self, self.specs[name])
        return self.objects[name]

    def fresh(self, name):
        """Another object with the same description, not shared with anybody."""
        return FAMILIES[name.split(':')[0]].build(self, self.specs[name])


class Family:
    """spec(ctx) -> description; twin(ctx, description) -> description changed in one attribute; build(world, description) -> object;
    queries(rng, name, description, names) -> [(label, fn(world))]; alter(rng, object, description): changes an object nobody else holds."""
    tol = 1e-9

    def alter(self, rng, obj, p):
        pass


def cal_of(p):
    return dict(p['cal'])


def changed(p, **kw):
    return dict(p, **kw)


class Calendar(Family):
    def spec(self, c):
        repo, ref = G.rcalendar(c.rng) if c.rng.random() < 0.3 else G.custom_calendar(c.rng)
        around = G.rdate(c.rng, 2000, 2040)
        cal = dict(repo)
        if c.rng.random() < 0.5:                                # moved to a day of the week: a rule made anew for each calendar
            cal['week'] = H.Holiday(around.month, min(around.day, 28), G._weekday_on_after(c.rng.randrange(5)))
        return dict(cal=cal, around=around)

    def twin(self, c, p):
        cal = dict(p['cal'])
        d = p['around'] + timedelta(days=c.rng.randint(0, 20))
        d = d.replace(day=min(d.day, 28))
        k = c.rng.choice(sorted(cal)) if cal else 'extra'
        if 'week' in cal and c.rng.random() < 0.6:             # the same holiday, moved by another rule of the same name
            cal['week'] = H.Holiday(cal['week'].Month, cal['week'].Day, G._weekday_on_after(c.rng.randrange(5)))
            return changed(p, cal=cal)
        cal[k] = H.Holiday(d.month, d.day, G._same)            # the same names, another date
        return changed(p, cal=cal)

    def build(self, w, p):
        return cal_of(p)

    def queries(self, rng, name, p, names):
        out = []
        for _ in range(3):
            d = p['around'] + timedelta(days=rng.randint(-10, 30))
            n = rng.randint(-12, 12)
            conv = rng.choice(G.SETTLE_NAMES)
            span = rng.randint(0, 40)
            y = d.year
            out += [('business-day', lambda w, d=d: Scheduler.is_business_day(d, w.get(name))),
                    ('business-day-new-calendar', lambda w, d=d: Scheduler.is_business_day(d, w.fresh(name))),
                    ('shift', lambda w, d=d, n=n: Scheduler.add_business_days(d, n, w.get(name))),
                    ('shift-new-calendar', lambda w, d=d, n=n: Scheduler.add_business_days(d, n, w.fresh(name))),
                    ('following', lambda w, d=d: [Scheduler.following_date_adjustment(d, w.get(name)), Scheduler.modified_following_date_adjustment(d, w.get(name))]),
                    ('settlement', lambda w, d=d, conv=conv: Scheduler.calculate_settlement_date(d, G.settle(conv), w.get(name))),
                    ('business-days', lambda w, d=d, span=span: Scheduler.generate_business_days(d, d + timedelta(days=span), w.get(name))),
                    ('holidays', lambda w, y=y: H.generate_all_holidays(y, y + 1, w.get(name)))]
        return out

    def alter(self, rng, obj, p):
        d = p['around'] + timedelta(days=rng.randint(0, 20))
        if rng.random() < 0.5:
            obj[f'more{rng.randint(0, 3)}'] = H.Holiday(d.month, min(d.day, 28), G._same)
        elif obj:
            obj.pop(sorted(obj)[0])
        Scheduler.add_business_days(d, 5, obj), Scheduler.is_business_day(d, obj)


class DayCount(Family):
    def spec(self, c):
        a = G.rdate(c.rng, 1995, 2040)
        return dict(a=a, b=a + timedelta(days=c.rng.choice([0, 1, 28, 365, c.rng.randint(1, 5000)])))

    def twin(self, c, p):
        return changed(p, b=p['b'] + timedelta(days=c.rng.choice([1, 365, 30])))

    def build(self, w, p):
        return p

    def queries(self, rng, name, p, names):
        a, b = p['a'], p['b']
        s = timedelta(seconds=rng.randint(0, 86399))
        A, B = datetime(a.year, a.month, a.day) + s, datetime(b.year, b.month, b.day) + timedelta(days=1)
        f = DayCountCalculator.compute_accrual_length
        out = [('fraction', lambda w, k=k: f(a, b, G.DCC[k])) for k in O.DCCS]
        out += [('fraction-timestamps', lambda w, k=k: f(A, B, G.DCC[k])) for k in O.DCCS[:4]]
        out += [('fraction-midnight', lambda w, k=k: f(datetime(a.year, a.month, a.day), B, G.DCC[k])) for k in O.DCCS[:4]]
        m = rng.randint(1, 4)
        out += [('sequence', lambda w: Scheduler.generate_dates_by_increments(a, a + timedelta(days=400), relativedelta(months=m))),
                ('sequence-back', lambda w: Scheduler.generate_dates_by_increments(a, a - timedelta(days=300), relativedelta(months=-m))),
                ('weekday', lambda w, wd=rng.choice(list(Weekdays)): Scheduler.get_next_weekday(a, wd))]
        return out


class Bond(Family):
    tol = 1e-6

    def spec(self, c):
        from .b03 import FORWARD
        for _ in range(100):
            repo, ref = G.rcalendar(c.rng)
            p = G.rbond_params(c.rng, max_years=c.rng.choice([2, 10]), coupon_bearing=True)
            p['settle'] = c.rng.choice(FORWARD)
            p['adj'] = c.rng.choice(['FOLLOWING', 'MODIFIED_FOLLOWING'])
            r = O.RefBond(100.0, p['coupon'], p['principal'], p['tenor'], p['purchase'], p['maturity'], p['settle'], p['freq'], p['dcc'], p['adj'], ref)
            a = r.accrued()
            if a is None or not r.received():
                continue
            p['price'] = round((r.value(c.rng.uniform(0, 0.1)) - a) * 100.0 / p['principal'], 6)
            if p['price'] > 5:
                return dict(p, kind=c.rng.choice(['treasury', 'corporate']), cal=dict(repo), default_cal=repo is G.US_FEDERAL_HOLIDAYS and c.rng.random() < 0.5)
        raise Stop

    def twin(self, c, p):
        k = c.rng.choice(['price', 'coupon', 'principal', 'dcc', 'adj', 'settle', 'cal', 'freq', 'kind', 'purchase'])
        if k == 'price':
            return changed(p, price=p['price'] + 1)
        if k == 'coupon':
            return changed(p, coupon=p['coupon'] + 0.5)
        if k == 'principal':
            return changed(p, principal=p['principal'] * 2)
        if k == 'dcc':
            return changed(p, dcc=c.rng.choice([d for d in O.DCCS if d != p['dcc']]))
        if k == 'adj':
            return changed(p, adj='FOLLOWING' if p['adj'] != 'FOLLOWING' else 'MODIFIED_FOLLOWING')
        if k == 'settle':
            return changed(p, settle='T_PLUS_THREE_BUSINESS' if p['settle'] != 'T_PLUS_THREE_BUSINESS' else 'T_PLUS_ONE_BUSINESS')
        if k == 'cal':
            return changed(p, cal=dict(G.custom_calendar(c.rng)[0]), default_cal=False)
        if k == 'freq':
            return changed(p, freq='QUARTERLY' if p['freq'] != 'QUARTERLY' else 'SEMI_ANNUAL')
        if k == 'kind':
            return changed(p, kind='treasury' if p['kind'] == 'corporate' else 'corporate')
        return changed(p, purchase=p['purchase'] - timedelta(days=3))

    def build(self, w, p):
        cls = G.bond_classes()[p['kind']]
        kw = {} if p['default_cal'] else dict(holiday_calendar=cal_of(p))
        return cls(price=p['price'], coupon_rate=p['coupon'], principal=p['principal'], tenor=p['tenor'], purchase_date=p['purchase'],
                   maturity_date=p['maturity'], settlement_convention=G.settle(p['settle']), payment_frequency=G.freq(p['freq']),
                   day_count_convention=G.DCC[p['dcc']], business_day_adjustment=G.adj(p['adj']), **kw)

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        out = []
        for _ in range(2):
            d = p['purchase'] + timedelta(days=rng.choice([0, 1, 7, rng.randint(0, max(1, (p['maturity'] - p['purchase']).days - 15))]))
            y = rng.uniform(0, 0.1)
            out += [('accrued-on', lambda w, d=d: g(w).calculate_accrued_interest(d)), ('full-price-on', lambda w, d=d: g(w).get_full_price(d)),
                    ('yield-on', lambda w, d=d: g(w).yield_to_maturity(d)), ('value-at-rate', lambda w, y=y, d=d: g(w).discount_cashflows_by_fixed_rate(y, d)),
                    ('received', lambda w, d=d: [g(w).is_payment_received(x, d) for x in g(w)[CashflowKeys.COUPON_PAYMENTS]])]
            if p['kind'] == 'corporate':
                out.append(('macaulay', lambda w, y=y, d=d: g(w).macaulay_duration(y, d)))
        flows = lambda w: [[(x.payment_date, x.payment, x.unadjusted_payment_date) for x in g(w)[k]] for k in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT)]
        curve = rng.choice(names['curve'])
        out += [('yield', lambda w: g(w).yield_to_maturity()), ('duration', lambda w: g(w).duration()), ('convexity', lambda w: g(w).convexity()),
                ('derivative', lambda w: g(w).pv_deriv()), ('prices', lambda w: [g(w).accrued_interest, g(w).full_price, g(w).price]), ('flows', flows),
                ('terms', lambda w: [g(w).dated_date, g(w).coupon_payment]), ('knot', lambda w: list(g(w).to_knot_value_pair())),
                ('value-on-curve', lambda w: g(w).present_value(w.get(curve))), ('value-by-curve', lambda w: w.get(curve).present_value(g(w)))]
        return out

    def alter(self, rng, obj, p):
        obj[CashflowKeys.COUPON_PAYMENTS].add_payment(Payment(p['maturity'], 1.0))
        obj.get_full_price(p['purchase'] + timedelta(days=2))


def series(rng, ref, n, hi, val, first=0):
    ds = sorted({first} | {rng.randint(1, hi) for _ in range(n)} | {hi})
    return [(ref + timedelta(days=d), val(d)) for d in ds]


class Discount(Family):
    def spec(self, c):
        rng = c.rng
        ref = date(1999, 6, 1)
        return dict(ref=ref, method=rng.choice(['linear', 'previous', 'cubic', 'quadratic']), dcc=rng.choice(O.DCCS[:4]),
                    knots=series(rng, ref, 6, 25000, lambda d: float(np.exp(-rng.uniform(0.0, 0.04) * d / 365))), left='ERROR', right='CONSTANT')

    def twin(self, c, p):
        k = c.rng.choice(['method', 'dcc', 'value', 'right', 'ref'])
        if k == 'method':
            return changed(p, method=c.rng.choice([m for m in G.METHODS if m != p['method']]))
        if k == 'dcc':
            return changed(p, dcc=c.rng.choice([d for d in O.DCCS[:4] if d != p['dcc']]))
        if k == 'value':
            i = c.rng.randrange(len(p['knots']))
            return changed(p, knots=[(d, v * 0.9 if j == i else v) for j, (d, v) in enumerate(p['knots'])])
        if k == 'right':
            return changed(p, right='ERROR')
        return changed(p, ref=p['ref'] - timedelta(days=400))

    def build(self, w, p):
        return DiscountCurve([KnotValuePair(*k) for k in p['knots']], interpolation_method=G.METHODS[p['method']], index=CurveIndex.NONE,
                             interpolation_day_count_convention=G.DCC[p['dcc']], reference_date=p['ref'],
                             left_end_behavior=getattr(EndBehavior, p['left']), right_end_behavior=getattr(EndBehavior, p['right']))

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        out = []
        lo, hi = p['knots'][0][0], p['knots'][-1][0]
        for _ in range(3):
            d = lo + timedelta(days=rng.randint(-2, (hi - lo).days + 100))
            a = rng.uniform(-0.02, 0.02)
            out += [('at', lambda w, d=d: g(w)(d)), ('at-adjusted', lambda w, d=d, a=a: g(w)(d, lambda x: a)),
                    ('axis', lambda w, d=d: g(w).date_to_interpolation_axis(max(d, p['ref'])))]
        pays = [(lo + timedelta(days=rng.randint(0, 20000)), rng.uniform(-5, 50)) for _ in range(4)]
        out += [('knots', lambda w: [list(k) for k in g(w).interpolation_values]), ('reference', lambda w: g(w).reference_date),
                ('value', lambda w: Cashflow(Payment(*x) for x in pays).present_value(g(w))),
                ('value-zero-coupon', lambda w: ZeroCoupon(pays[0][0], 0.9).present_value(g(w)))]
        return out

    def alter(self, rng, obj, p):
        if rng.random() < 0.5:
            obj.reset_interpolation_values([KnotValuePair(k, v * 0.8) for k, v in p['knots']])
        else:
            obj.reset_interpolation_value(KnotValuePair(p['knots'][1][0], 0.5), 1)
        obj(p['knots'][2][0])


class Yields(Family):
    def spec(self, c):
        rng = c.rng
        ref = G.rdate(rng, 2010, 2030)
        return dict(ref=ref, method=rng.choice(['linear', 'linear', 'previous', 'cubic']), dcc=rng.choice(O.DCCS[:4]), space=rng.choice(['yield', 'yield', 'factor']),
                    knots=series(rng, ref, 5, rng.randint(60, 300), lambda d: rng.uniform(0.0, 0.08)))

    def twin(self, c, p):
        k = c.rng.choice(['method', 'dcc', 'value', 'space'])
        if k == 'method':
            return changed(p, method='linear' if p['method'] != 'linear' else 'previous')
        if k == 'dcc':
            return changed(p, dcc=c.rng.choice([d for d in O.DCCS[:4] if d != p['dcc']]))
        if k == 'space':
            return changed(p, space='factor' if p['space'] == 'yield' else 'yield')
        i = c.rng.randrange(len(p['knots']))
        return changed(p, knots=[(d, v + 0.01 if j == i else v) for j, (d, v) in enumerate(p['knots'])])

    def build(self, w, p):
        f = (lambda v: v) if p['space'] == 'yield' else (lambda v: 1 - v)
        return YieldCurve(instruments=[ZeroCoupon(k, f(v)) for k, v in p['knots']], quote_adjustments=None, interpolation_method=G.METHODS[p['method']],
                          interpolation_day_count_convention=G.DCC[p['dcc']], reference_date=p['ref'],
                          interpolation_space=InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD if p['space'] == 'yield' else InterpolationSpace.DISCOUNT_FACTOR,
                          left_end_behavior=EndBehavior.CONSTANT, right_end_behavior=EndBehavior.CONSTANT)

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        last = p['knots'][-1][0]
        day = lambda: p['ref'] + timedelta(days=rng.randint(0, (last - p['ref']).days))
        pays = [(day(), rng.uniform(1, 50)) for _ in range(4)]
        asset = lambda: Cashflow(Payment(*x) for x in pays)
        ds = [day() for _ in range(5)]
        k = rng.uniform(-0.01, 0.01)
        keys = [q[0] for q in p['knots'][1:4]]
        dcc = rng.choice(O.DCCS[:4])
        kr = lambda: KeyRate(G.DCC[dcc], keys[1], keys[0], keys[2] if len(keys) > 2 else None)
        col = lambda: KeyRateCollection([KeyRate(G.DCC[dcc], q) for q in keys])
        return [('at', lambda w: [g(w)(d) for d in ds]), ('at-adjusted', lambda w: [g(w)(d, lambda x: k) for d in ds]),
                ('discount-factors', lambda w: [g(w).to_discount_curve()(d) for d in ds]),
                ('discount-factors-adjusted', lambda w: [g(w).to_discount_curve(lambda x: k)(d) for d in ds]),
                ('discount-factors-key-rate', lambda w: [g(w).to_discount_curve(kr())(d) for d in ds]),
                ('value', lambda w: g(w).present_value(asset())), ('value-adjusted', lambda w: g(w).present_value(asset(), lambda x: k)),
                ('key-rate-derivative', lambda w: g(w).calculate_key_rate_deriv(asset(), kr())),
                ('risk', lambda w: g(w).calculate_pv01_risk(asset(), kr()).pv01),
                ('ladder', lambda w: [(r.key_rate_date, r.pv01) for r in g(w).calculate_pv01_risk_ladder(asset(), col())]),
                ('knots', lambda w: [list(q) for q in g(w).interpolation_values])]

    def alter(self, rng, obj, p):
        obj.to_discount_curve()
        obj.reset_interpolation_value(KnotValuePair(p['knots'][1][0], 0.5), 1)
        obj.to_discount_curve(lambda d: 0.01).reset_interpolation_values([KnotValuePair(p['ref'], 1.0), KnotValuePair(p['knots'][-1][0], 0.1)])


class Book(Family):
    """A bond book and what is calibrated from it with one shared factory."""
    tol = 2e-6

    def spec(self, c):
        for _ in range(50):
            c.note = lambda **kw: None
            key = c.rng.getrandbits(60)
            today, pairs = scenario.bond_book(Ctx(key), 3, max_days=400)
            if len(pairs) >= 3 and all(min(x[1] for x in r.received(today)) > today for _, r in pairs):
                return dict(key=key, today=today, scale=1.0, knots=[r.knot() for _, r in pairs])
        raise Stop

    def twin(self, c, p):
        return changed(p, scale=1.01)

    def build(self, w, p):
        out = []
        for b, r in scenario.bond_book(Ctx(p['key']), 3, max_days=400)[1]:
            out.append(type(b)(price=r.price * p['scale'], coupon_rate=r.coupon, principal=100, tenor=r.tenor, purchase_date=p['today'], maturity_date=r.maturity,
                               settlement_convention=b.settlement_convention, payment_frequency=b.payment_frequency,
                               day_count_convention=b.day_count_convention, business_day_adjustment=b.business_day_adjustment))
        return out

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        f = lambda w: w.objects.setdefault('factory', YieldCurveFactory())
        knots = lambda cv: [list(k) for k in cv.interpolation_values]
        lin, prev = G.METHODS['linear'], G.METHODS['previous']
        q = [rng.choice([1, -2, 0.5]) for _ in range(8)]
        pf = lambda w: w.objects.setdefault('portfolio of ' + name, Portfolio([PortfolioEntry(a, b) for a, b in zip(q, g(w))], 5.0))
        dcc = G.DCC[rng.choice(O.DCCS[:4])]
        out = [('from-yields', lambda w: knots(f(w).construct_curve_from_yield_to_maturities(g(w), lin, p['today']))),
               ('from-yields-previous', lambda w: knots(f(w).construct_curve_from_yield_to_maturities(g(w), prev, p['today']))),
               ('bootstrapped', lambda w: knots(f(w).bootstrap_yield_curve(g(w), lin, p['today']))),
               ('bootstrapped-previous', lambda w: knots(f(w).bootstrap_yield_curve(g(w), prev, p['today']))),
               ('solved', lambda w: knots(f(w).construct_yield_curve(g(w), lin, p['today']))),
               ('value-of-book', lambda w: f(w).bootstrap_yield_curve(g(w), lin, p['today']).present_value(pf(w))),
               ('book-key-rates', lambda w: [(k.key_rate_date, k.prior_date, k.next_date, k(k.key_rate_date)) for k in pf(w).to_key_rate_collection(dcc)])]
        cv = rng.choice(names['curve'])
        out += [('book-value', lambda w: pf(w).present_value(w.get(cv))), ('book-positions', lambda w: [e.quantity for e in pf(w)]),
                ('book-prices', lambda w: [(b.price, b.full_price, b.accrued_interest) for b in g(w)])]
        return out if name.split(':')[2] == '0' else out[:1] + out[5:]

    def alter(self, rng, obj, p):
        f = YieldCurveFactory()
        cv = f.construct_curve_from_yield_to_maturities(obj, G.METHODS['linear'], p['today'])
        cv.reset_interpolation_value(KnotValuePair(p['knots'][0], 0.5), 0)
        col = Portfolio([PortfolioEntry(1, b) for b in obj]).to_key_rate_collection(G.DCC['ACTUAL_OVER_365'])
        col.set_bump_val(0.5)
        obj[0][CashflowKeys.COUPON_PAYMENTS].add_payment(Payment(p['today'], 3.0))
        obj.pop()


class Keys(Family):
    def spec(self, c):
        rng = c.rng
        ref = G.rdate(rng, 2010, 2030)
        return dict(dcc=rng.choice(O.DCCS[:4]), keys=[ref + timedelta(days=d) for d in sorted(rng.sample(range(1, 2000), rng.randint(2, 5)))], bump=None)

    def twin(self, c, p):
        return changed(p, bump=0.003) if c.rng.random() < 0.5 else changed(p, dcc=c.rng.choice([d for d in O.DCCS[:4] if d != p['dcc']]))

    def build(self, w, p):
        singles = [KeyRate(G.DCC[p['dcc']], k) for k in p['keys']]
        col = KeyRateCollection(singles)
        if p['bump'] is not None:
            col.set_bump_val(p['bump'])
        part = KeyRateCollection(singles[:-1])
        return dict(col=col, singles=singles, part=part)

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        ds = [p['keys'][0] + timedelta(days=rng.randint(-50, 2000)) for _ in range(6)]
        ks = lambda col: [(k.key_rate_date, k.prior_date, k.next_date, k.bump_val) for k in col]
        return [('shift', lambda w: [g(w)['col'](d) for d in ds]), ('shift-of-part', lambda w: [g(w)['part'](d) for d in ds]),
                ('members', lambda w: ks(g(w)['col'])), ('members-of-part', lambda w: ks(g(w)['part'])), ('singles', lambda w: ks(g(w)['singles'])),
                ('singles-at', lambda w: [k(d) for k in g(w)['singles'] for d in ds]), ('members-at', lambda w: [k(d) for k in g(w)['col'] for d in ds]),
                ('slice', lambda w: [g(w)['col'][0:1](d) for d in ds] + ks(g(w)['col'][:1])), ('sum', lambda w: ks(g(w)['part'] + g(w)['singles'][-1])),
                ('size', lambda w: [len(g(w)['col']), g(w)['singles'][0] in g(w)['col']])]

    def alter(self, rng, obj, p):
        obj['singles'][0].set_bump_val(0.9)
        obj['singles'][0].set_next_date(p['keys'][0] + timedelta(days=1))
        obj['col'].set_bump_val(0.7)
        del obj['part'][0]
        KeyRateCollection(obj['singles']).set_bump_val(0.1)


class Borrowing(Family):
    def spec(self, c):
        rng = c.rng
        return dict(principal=round(rng.uniform(1e3, 1e6), 2), rate=rng.uniform(0.001, 0.12), origination=G.rdate(rng, 2000, 2030), years=rng.choice([1, 2, 5, 10]),
                    dcc=rng.choice(O.DCCS), freq=rng.choice(['MONTHLY', 'QUARTERLY', 'SEMI_ANNUAL', 'ANNUAL']), time=rng.choice(['END_OF_MONTH', 'START_OF_MONTH']))

    def twin(self, c, p):
        k = c.rng.choice(['principal', 'rate', 'dcc', 'freq', 'time', 'years', 'origination'])
        new = dict(principal=p['principal'] * 2, rate=p['rate'] + 0.01, years=p['years'] + 1, origination=p['origination'] + timedelta(days=40),
                   dcc=c.rng.choice([d for d in O.DCCS if d != p['dcc']]), freq='ANNUAL' if p['freq'] != 'ANNUAL' else 'MONTHLY',
                   time='END_OF_MONTH' if p['time'] != 'END_OF_MONTH' else 'START_OF_MONTH')
        return changed(p, **{k: new[k]})

    def build(self, w, p):
        return Loan(p['principal'], p['rate'], p['origination'], relativedelta(years=p['years']), day_count_convention=G.DCC[p['dcc']],
                    payment_frequency=G.freq(p['freq']), payment_time=PaymentTime[p['time']])

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        pay = p['principal'] / 10
        rows = lambda s: [(q.payment_date, q.payment, q.principal_payment, q.interest_payment) for q in s]
        extras = [rng.uniform(0, pay) for _ in range(3)]
        cv = rng.choice(names['curve'])
        return [('payment', lambda w: g(w).calculate_fixed_payment_amount()), ('schedule', lambda w: rows(g(w).generate_payment_schedule(pay))),
                ('schedule-level', lambda w: rows(g(w).generate_payment_schedule(g(w).calculate_fixed_payment_amount()))),
                ('schedule-extra', lambda w: rows(g(w).generate_payment_schedule(pay, extras))),
                ('schedule-extra-each', lambda w: rows(g(w).generate_payment_schedule(pay, pay / 2))),
                ('value', lambda w: g(w).present_value(w.get(cv))), ('principal', lambda w: g(w).principal)]

    def alter(self, rng, obj, p):
        s = obj.generate_payment_schedule(p['principal'])
        s.clear()


class Swap(Family):
    def spec(self, c):
        for _ in range(100):
            p = s01.params(c, 30)
            repo, cal = G.rcalendar(c.rng)
            p['purchase'] = G.rdate(c.rng, 2005, 2030)
            if p['kind'] == 'overnight' and p['months'] > 12:
                p['kind'] = 'term'
            ref = s01.Ref(p, cal)
            if all(e[0] < e[1] for e in ref.floating + ref.fixed):
                return dict(p, cal=dict(repo), start=ref.start, end=ref.end, legs=c.rng.choice(['both', 'both', 'both', 'fixed', 'floating', 'none']))
        raise Stop

    def twin(self, c, p):
        k = c.rng.choice(['direction', 'rate', 'notional', 'fdcc', 'xdcc', 'delay', 'kind'])
        other = lambda v: c.rng.choice([d for d in O.DCCS if d != v])
        new = dict(direction='RECEIVER_FIXED' if p['direction'] == 'PAYER_FIXED' else 'PAYER_FIXED', rate=p['rate'] + 0.01, notional=p['notional'] * 3,
                   fdcc=other(p['fdcc']), xdcc=other(p['xdcc']), delay='T_PLUS_THREE_BUSINESS' if p['delay'] != 'T_PLUS_THREE_BUSINESS' else 'T_PLUS_ONE_BUSINESS',
                   kind=p['kind'] if p['months'] > 12 else ('term' if p['kind'] == 'overnight' else 'overnight'))
        return changed(p, **{k: new[k]})

    def build(self, w, p):
        sw = s01.build(p, cal_of(p))
        if p['legs'] in ('both', 'fixed'):
            sw.generate_fixed_leg_cashflow()
        if p['legs'] in ('both', 'floating'):
            sw.generate_floating_leg_cashflow(self.rate(p))
        return sw

    def rate(self, p):
        return lambda d: 0.02 + 0.00001 * ((d - date(2000, 1, 1)).days % 97)

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        cv = rng.choice(names['curve'])
        rate = self.rate(p)
        flows = lambda cf: None if cf is None else [(q.payment_date, q.payment) for q in cf]
        acc = lambda s: [(a.start_accrual, a.end_accrual, a.accrual_factor) for a in s]
        out = [('value', lambda w: g(w).present_value(w.get(cv))), ('fixed', lambda w: flows(g(w).fixed_leg)), ('floating', lambda w: flows(g(w).floating_leg)),
               ('unstored', lambda w: flows(g(w).generate_floating_leg_cashflow(lambda d: 0.05, set_cashflow=False))),
               ('unstored-fixed', lambda w: flows(g(w).generate_fixed_leg_cashflow(set_cashflow=False))),
               ('implied', lambda w: g(w).implied_rate(w.get(cv), rate)), ('implied-flat', lambda w: g(w).implied_rate(w.get(cv), lambda d: 0.05)),
               ('accruals', lambda w: [acc(g(w).generate_fixed_leg_accrual_schedule()), acc(g(w).generate_floating_leg_accrual_schedule())]),
               ('terms', lambda w: [g(w).start_accrual_date, g(w).end_accrual_date])]
        if p['kind'] == 'overnight':
            a = p['start']
            out.append(('annualised', lambda w: g(w).calculate_annualized_rate(rate, a, a + timedelta(days=30))))
        return out

    def alter(self, rng, obj, p):
        obj.generate_floating_leg_cashflow(lambda d: 0.3)
        obj.generate_fixed_leg_cashflow()
        obj.fixed_leg.add_payment(Payment(p['end'], 1e9))


class Cash(Family):
    def spec(self, c):
        ref = date(2005, 1, 1)
        return dict(pays=[(ref + timedelta(days=c.rng.randint(0, 4000)), c.rng.uniform(-10, 100)) for _ in range(c.rng.randint(1, 6))], cash=c.rng.choice([0.0, 10.0]))

    def twin(self, c, p):
        return changed(p, pays=p['pays'][:-1] + [(p['pays'][-1][0], p['pays'][-1][1] + 1)])

    def build(self, w, p):
        cf = Cashflow(Payment(*x) for x in p['pays'])
        return dict(cf=cf, pf=Portfolio([PortfolioEntry(2, cf), PortfolioEntry(-1, ZeroCoupon(p['pays'][0][0], 0.5))], p['cash']),
                    bare=Portfolio([PortfolioEntry(1, cf)]))

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        cv = rng.choice(names['curve'])
        return [('dates', lambda w: g(w)['cf'].get_payment_dates()), ('amounts', lambda w: g(w)['cf'].get_payment_amounts()),
                ('series', lambda w: [list(map(str, g(w)['cf'].to_series().index)), list(g(w)['cf'].to_series())]), ('size', lambda w: len(g(w)['cf'])),
                ('value', lambda w: g(w)['cf'].present_value(w.get(cv))), ('portfolio-value', lambda w: g(w)['pf'].present_value(w.get(cv))),
                ('portfolio-value-no-cash', lambda w: g(w)['bare'].present_value(w.get(cv))), ('first', lambda w: g(w)['cf'][0].payment),
                ('slice', lambda w: [q.payment for q in g(w)['cf'][1:]]), ('positions', lambda w: [e.quantity for e in g(w)['pf']])]

    def alter(self, rng, obj, p):
        obj['cf'].add_payment(Payment(p['pays'][0][0], 1e6))
        obj['cf'][1:]
        obj['pf'].assets.append(PortfolioEntry(5, obj['cf']))


class Optimiser(Family):
    tol = 1e-5

    def spec(self, c):
        r = c.np_rng()
        n = c.rng.randint(2, 4)
        a = r.normal(size=(n, n + 3)) * 0.1
        return dict(mean=np.linspace(0.02, 0.12, n) + r.uniform(0, 0.01, n), cov=a @ a.T + 0.01 * np.eye(n))

    def twin(self, c, p):
        return changed(p, mean=p['mean'][::-1].copy()) if c.rng.random() < 0.5 else changed(p, cov=p['cov'] + np.diag(np.linspace(0, 0.05, len(p['mean']))))

    def build(self, w, p):
        return PortfolioOptimizer(p['mean'].copy(), p['cov'].copy())

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        t = 0.04 + 0.04 * rng.random()
        s = rng.random() < 0.5
        return [('min-variance', lambda w: g(w).find_minimum_variance_portfolio(t, allow_short_positions=s)),
                ('min-variance-default', lambda w: g(w).find_minimum_variance_portfolio(t)),
                ('utility', lambda w: g(w).find_maximum_utility_portfolio(2.0, 3.0, allow_short_positions=s)),
                ('frontier', lambda w: list(g(w).calculate_efficient_frontier(return_increment=0.02, lower_return=0.04, upper_return=0.09))[:2]),
                ('inputs', lambda w: [g(w).mean_vector, g(w).covariance_matrix])]

    def alter(self, rng, obj, p):
        obj.calculate_efficient_frontier(return_increment=0.03, lower_return=0.04, upper_return=0.08, allow_short_positions=True)
        obj.mean_vector[0] = 9.0


def seeds(rng):
    return rng.choice([0, 1, 2, rng.randrange(10 ** 6)])


class Motion(Family):
    def spec(self, c):
        rng = c.rng
        start = G.rdatetime(rng, 2000, 2040)
        n = rng.choice([1, 2, 3])
        return dict(start=start, end=start + timedelta(days=rng.randint(20, 400)), n=n, rho=rng.uniform(-0.4, 0.9) if n > 1 else 0.0,
                    dcc=rng.choice(O.DCCS[:4]), step=rng.choice([1, 5, 11]), seed=seeds(rng))

    def twin(self, c, p):
        k = c.rng.choice(['rho', 'dcc', 'step', 'seed', 'end', 'start'])
        new = dict(rho=p['rho'] + 0.05 if p['n'] > 1 else 0.0, dcc=c.rng.choice([d for d in O.DCCS[:4] if d != p['dcc']]), step=p['step'] + 1, seed=p['seed'] + 1,
                   end=p['end'] + timedelta(days=2), start=p['start'] + timedelta(hours=5))
        return changed(p, **{k: new[k]})

    def motion(self, p):
        kw = {} if p['n'] == 1 else dict(correlation_matrix=(1 - p['rho']) * np.eye(p['n']) + p['rho'])
        return BrownianMotion(p['start'], p['end'], dimension=p['n'], day_count_convention=G.DCC[p['dcc']], **kw)

    def build(self, w, p):
        bm = self.motion(p)
        bm.generate_path(timedelta(days=p['step']), seed=p['seed'])
        return bm

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        ts = [p['start'] + (p['end'] - p['start']) * rng.random() for _ in range(4)] + [p['end']]
        dt, s = timedelta(days=rng.choice([2, 3, p['step']])), seeds(rng)
        return [('at', lambda w: [g(w)(t) for t in ts]), ('path', lambda w: g(w).path), ('unstored', lambda w: g(w).generate_path(dt, set_path=False, seed=s)),
                ('increments', lambda w: g(w).generate_increments(dt, seed=s)), ('outside', lambda w: g(w)(p['end'] + timedelta(days=1)))]

    def alter(self, rng, obj, p):
        obj.generate_path(timedelta(days=4), seed=77)
        obj.generate_path(timedelta(days=4))


class Diffusion(Motion):
    def spec(self, c):
        return dict(Motion.spec(self, c), level=c.rng.uniform(0, 1), x0=c.rng.uniform(-1, 1))

    def twin(self, c, p):
        k = c.rng.choice(['level', 'x0', 'motion'])
        return Motion.twin(self, c, p) if k == 'motion' else changed(p, **{k: p[k] + 0.25})

    def process(self, p):
        n, lv = p['n'], p['level']
        col = {f'x{i}': DriftDiffusionPair(lambda t, x, i=i: 0.5 * (lv - x[i]) + 0.1 * t, lambda t, x, i=i: np.full(n, 0.1 * (i + 1)) * (1 + 0.1 * x[0]))
               for i in range(n)}
        return DiffusionProcess(col, self.motion(p), dt=timedelta(days=p['step']))

    def build(self, w, p):
        proc = self.process(p)
        proc.generate_path(np.full(p['n'], p['x0']), seed=p['seed'])
        return proc

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        ts = [p['start'] + (p['end'] - p['start']) * rng.random() for _ in range(4)]
        s = seeds(rng)
        gbm = lambda w: w.objects.setdefault('gbm of ' + name, GeometricBrownianMotion(0.05, 0.2 + p['level'] / 10, p['start'], p['end'], dimension=1, dt=timedelta(days=p['step'])))
        return [('at', lambda w: [g(w)(t) for t in ts]), ('path', lambda w: g(w).path),
                ('unstored', lambda w: g(w).generate_path(np.full(p['n'], 0.2), set_path=False, seed=s)),
                ('geometric', lambda w: gbm(w).generate_path(100.0, set_path=False, seed=s)),
                ('geometric-other-start', lambda w: gbm(w).generate_path(50.0, set_path=False, seed=s + 1))]

    def alter(self, rng, obj, p):
        obj.generate_path(np.full(p['n'], 0.9), seed=5)
        obj.set_dt(timedelta(days=9))
        obj.generate_path(np.full(p['n'], 0.9))


class Rates(Motion):
    """One- and multi-factor models; one-factor models come in pairs on one Brownian motion."""

    def spec(self, c):
        rng = c.rng
        return dict(Motion.spec(self, c), level=rng.uniform(0, 0.08), speed=rng.uniform(0.05, 1.5), vol=rng.uniform(0.001, 0.03), x0=rng.uniform(0, 0.08),
                    kind=rng.choice(['one', 'one', 'many', 'doubly']))

    def twin(self, c, p):
        k = c.rng.choice(['level', 'speed', 'vol', 'x0', 'motion'])
        return Motion.twin(self, c, p) if k == 'motion' else changed(p, **{k: p[k] * 1.2})

    def build(self, w, p):
        dt = timedelta(days=p['step'])
        if p['kind'] == 'one':
            bm = self.motion(dict(p, n=1))
            m = VasicekModel(p['level'], p['speed'], p['vol'], bm, dt=dt)
            m.generate_path(p['x0'], seed=p['seed'])
            other = VasicekModel(p['level'] + 0.01, p['speed'] * 2, p['vol'], bm, dt=dt * 2)      # another user of the same motion
            other.generate_path(0.1, seed=p['seed'] + 5)
            return m
        if p['kind'] == 'doubly':
            m = DoublyMeanRevertingVasicek(short_rate_reversion_speed=p['speed'] + 0.3, short_rate_volatility=p['vol'], long_term_mean=p['level'],
                                           long_term_reversion_speed=p['speed'], long_term_volatility=0.01, short_rate_long_term_correlation=0.3,
                                           start_datetime=p['start'], end_datetime=p['end'], dt=dt)
            m.generate_path(np.array([p['level'], p['x0']]), seed=p['seed'])
            return m
        n = 2
        m = Multi(short_rate_intercept=0.01, short_rate_coefficients=np.array([1.0, 0.5]), reversion_level=np.full(n, p['level']),
                  reversion_matrix=np.array([[p['speed'], 0.0], [0.1, p['speed'] + 0.2]]), volatility_matrix=p['vol'] * np.array([[1.0, 0.0], [0.3, 0.8]]),
                  brownian_motion=self.motion(dict(p, n=n)), dt=dt)
        m.generate_path(np.full(n, p['x0']), seed=p['seed'])
        return m

    def queries(self, rng, name, p, names):
        g = lambda w: w.get(name)
        span = p['end'] - p['start']
        out = []
        for _ in range(2):
            t = p['start'] + span * (rng.random() * 0.9)
            T = t + timedelta(days=rng.choice([30, 365, 3650, rng.randint(1, 4000)]))
            T2 = T + timedelta(days=200)
            out += [('rate', lambda w, t=t: g(w)(t)), ('price', lambda w, t=t, T=T: g(w).zero_coupon_bond_price(T, t)),
                    ('yield', lambda w, t=t, T=T: g(w).zero_coupon_bond_yield(T, t)), ('forward', lambda w, t=t, T=T: g(w).instantaneous_forward_rate(T, t)),
                    ('yield-volatility', lambda w, t=t, T=T: g(w).yield_volatility(T, t)), ('expected', lambda w, t=t, T=T: g(w).expected_short_rate(T, t)),
                    ('average', lambda w, t=t, T=T: g(w).average_expected_short_rate(T, t)), ('variance', lambda w, t=t, T=T: g(w).short_rate_variance(T, t)),
                    ('convexities', lambda w, t=t, T=T, T2=T2: g(w).price_convexities([T, T2], t)), ('yield-convexity', lambda w, t=t, T=T: g(w).yield_convexity(T, t))]
            if p['kind'] != 'one':
                out += [('covariance', lambda w, t=t, T=T, T2=T2: g(w).yield_covariance_matrix([T, T2], t)),
                        ('forward-covariance', lambda w, t=t, T=T, T2=T2: g(w).instantaneous_forward_rate_covariance([T, T2], t)),
                        ('hedge', lambda w, t=t: g(w).weights_for_riskless_portfolio([t + timedelta(days=365 * k) for k in (1, 5, 12)], t))]
        t = p['start'] + span * rng.random()
        grid = [p['start'], p['start'] + span / 3, p['start'] + span / 2]
        out += [('price-from-start', lambda w: g(w).zero_coupon_bond_price(p['end'])), ('discount-curve', lambda w: g(w).create_discount_curve()(p['start'] + span * 0.4)),
                ('discount-curve-own-grid', lambda w: g(w).create_discount_curve(grid)(grid[1])), ('accrual-curve', lambda w: g(w).accrual_curve()(p['start'] + span * 0.4)),
                ('integral', lambda w: g(w).generate_integrated_path()), ('integral-own-grid', lambda w: g(w).generate_integrated_path(grid)),
                ('path', lambda w: g(w).path)]
        s = seeds(rng)
        x0 = p['x0'] if p['kind'] == 'one' else np.full(2, p['x0'])
        out += [('unstored', lambda w: g(w).generate_path(x0, set_path=False, seed=s))]
        return out

    def alter(self, rng, obj, p):
        obj.create_discount_curve()
        obj.generate_path(0.05 if p['kind'] == 'one' else np.full(2, 0.05), seed=3)
        obj.generate_path(0.05 if p['kind'] == 'one' else np.full(2, 0.05))
        if p['kind'] == 'one':
            obj.parameter_calibration_dict[CalibrationParamterType.VOLATILITY] = [0.5, 2.0]
            obj.set_volatiltiy_parameters_from_dict()
            obj.parameter_calibration_dict[CalibrationParamterType.SHAPE] = [0.5]
            obj.set_shape_parameters_from_dict()
        obj.set_dt(timedelta(days=3))


class Futures(Family):
    def spec(self, c):
        return dict(purchase=G.rdate(c.rng, 2005, 2035), days=c.rng.randint(1, 60), cal=dict(G.rcalendar(c.rng)[0]))

    def twin(self, c, p):
        return changed(p, cal=dict(G.custom_calendar(c.rng)[0])) if c.rng.random() < 0.5 else changed(p, days=p['days'] + 2)

    def build(self, w, p):
        return d04.Future(deliverables_basket={}, conversion_factors={}, tenor='10Y', maturity_date=p['purchase'] + timedelta(days=p['days']),
                          delivery_month=ImmMonths.MARCH, purchase_date=p['purchase'], holiday_calendar=cal_of(p))

    def queries(self, rng, name, p, names):
        return [('marks', lambda w: w.get(name)[CashflowKeys.MARK_TO_MARKET].get_payment_dates()), ('settles', lambda w: w.get(name).settlement_date)]

    def alter(self, rng, obj, p):
        obj[CashflowKeys.MARK_TO_MARKET].add_payment(Payment(p['purchase'], 1.0))


class Defaults(Family):
    def spec(self, c):
        return dict(h=c.rng.uniform(0.05, 1), dt=c.rng.choice([0.1, 0.25]), T=c.rng.choice([1.05, 3.05]), n=5, seed=c.rng.randrange(1000))

    def twin(self, c, p):
        return changed(p, **{k: p[k] * 2 for k in [c.rng.choice(['h', 'dt', 'T'])]})

    def build(self, w, p):
        return p

    def queries(self, rng, name, p, names):
        def q(w):
            np.random.seed(p['seed'])
            return default_bernoulli_paths(lambda t: p['h'] * np.ones_like(t), p['dt'], p['T'], p['n'])
        return [('times', q)]


FAMILIES = {'calendar': Calendar(), 'daycount': DayCount(), 'bond': Bond(), 'curve': Discount(), 'yields': Yields(), 'book': Book(), 'keys': Keys(),
            'loan': Borrowing(), 'swap': Swap(), 'cash': Cash(), 'optimiser': Optimiser(), 'motion': Motion(), 'diffusion': Diffusion(), 'rates': Rates(),
            'future': Futures(), 'defaults': Defaults()}


def session(c, chosen, rounds):
    rng = c.rng
    key = rng.getrandbits(60)
    specs, names = {}, {}
    for fam in FAMILIES:
        count = (2 if fam in chosen else 1 if fam == 'curve' else 0)
        for k in range(count):
            base = FAMILIES[fam].spec(Ctx(f'{key}|{fam}|{k}'))
            specs[f'{fam}:{k}:0'] = base
            for j in (1, 2):
                specs[f'{fam}:{k}:{j}'] = FAMILIES[fam].twin(Ctx(f'{key}|{fam}|{k}|{j}'), base)
        names[fam] = [n for n in specs if n.startswith(fam + ':')]
    queries = []
    for n, p in specs.items():
        if n.split(':')[0] in chosen:
            fam = FAMILIES[n.split(':')[0]]
            # the same questions, in the same words, to an object and to its twins
            qs = fam.queries(random.Random(f'{key}|q|{n.rsplit(":", 1)[0]}'), n, p, names)
            queries += [(n, label, fn, fam.tol) for label, fn in qs]
    rng.shuffle(queries)
    queries = queries[:rng.choice([30, 60, 120])]
    us = dict(G.US_FEDERAL_HOLIDAYS)
    alone = [in_child(lambda: ask(fn, World(specs))) for _, _, fn, _ in queries]
    order = [i for _ in range(rounds) for i in rng.sample(range(len(queries)), len(queries))]
    if rng.random() < 0.5:           # immediate repetitions
        order = [i for i in order for _ in range(rng.choice([1, 1, 2]))]
    lives = sorted(specs)
    seed = rng.getrandbits(60)

    def together():
        r = random.Random(seed)
        w = World(specs)
        if r.random() < 0.5:
            for n in r.sample(lives, len(lives)):
                try:
                    w.get(n)
                except Exception:          # what cannot be built is refused again when it is asked for
                    pass
        out = []
        for i in order:
            if r.random() < 0.25:
                n = r.choice(lives)
                try:
                    obj = w.fresh(n)
                    if r.random() < 0.8:
                        FAMILIES[n.split(':')[0]].alter(r, obj, specs[n])
                except Exception:
                    pass
                del obj
                if r.random() < 0.2:
                    gc.collect()
            out.append(ask(queries[i][2], w))
        return out, {k: tuple(v) for k, v in G.US_FEDERAL_HOLIDAYS.items()} == {k: tuple(v) for k, v in us.items()}

    c.note(families=sorted(chosen), queries=len(queries))
    got, kept = in_child(together, 90)
    c.ok('default-calendar-kept', kept)
    for pos, i in enumerate(order):
        n, label, _, tol = queries[i]
        exp = alone[i]
        c.ok('same-answer-as-alone', agree(got[pos], exp, tol), object=n, description=repr(specs[n])[:600], query=label, answer=got[pos], alone=exp,
             position=pos, before=[f'{queries[k][0]} {queries[k][1]}' for k in order[max(0, pos - 4):pos]])
        c.event(n.split(':')[0])
        c.event('answer')
        if isinstance(exp, str) and exp.startswith('raises'):
            c.event('refusal')
    for i, (n, label, _, _) in enumerate(queries):
        c.seen(n.split(':')[0], label, repr(alone[i])[:200])
    c.event('session')


def focused(c):
    """One part of the library at a time, with all its twins."""
    fams = sorted(FAMILIES)
    session(c, {fams[c.index % len(fams)]}, 2)


def mixed(c):
    session(c, set(c.rng.sample(sorted(FAMILIES), c.rng.randint(2, 6))), 2)


QUICK_SCALE = 1
DRIVERS = [Driver('focused', focused, 96, 1600, {'session': 80, 'answer': 4000, 'refusal': 10}),
           Driver('mixed', mixed, 32, 600, {'session': 25, 'answer': 2000})]
