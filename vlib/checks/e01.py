"""E01: an operation which is refused, or fails half-way, leaves everything as it was."""
import random
from datetime import datetime, timedelta

import numpy as np

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from . import q01
from .q01 import Ctx, FAMILIES, World, agree, ask
from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowKeys, Payment, ZeroCoupon
from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools import holidays as H
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.stochastics.base_processes import DriftDiffusionPair

RULE = ('Two equal worlds of objects from every part of the library. In one of them operations are made to fail: callbacks, instruments, curves and '
        'iterables handed to the library raise at their k-th use, or arguments are refused (dates out of range or order, wrong shapes, invalid parameters). After each failure both worlds are asked the same '
        'questions; successful operations are carried out in both. Distinct by (family, operation, failure, state).')
ASSUMPTIONS = ['The failure reaches the caller; what an operation did to objects it created itself is not judged.',
               'extend() of a key rate collection adds one key rate after the other, as that of a list does.']


class Fault(Exception):
    pass


class Fuse:
    """Callbacks guarded by the fuse work until it blows, at their k-th use."""

    def __init__(self, k):
        self.left, self.kept = k, []

    def tick(self):
        if self.left <= 0:
            raise Fault('injected')
        self.left -= 1

    def guard(self, fn):
        def guarded(*args):
            self.tick()
            return fn(*args)
        return guarded

    def iterate(self, items):
        for x in items:
            self.tick()
            yield x
        self.tick()

    def keep(self, value):
        """An argument which has to stay as it is."""
        self.kept.append((value, list(value)))
        return value


class FusedCurve:
    """A discount curve which fails at its k-th query."""

    def __init__(self, fuse, reference_date):
        self.fuse, self.reference_date = fuse, reference_date

    def __call__(self, d, adjustment=None):
        self.fuse.tick()
        return 0.9

    def present_value(self, instrument):
        return instrument.present_value(self)


class FusedAsset:
    """An instrument whose valuation fails at its k-th use."""

    def __init__(self, fuse, like):
        self.fuse, self.like = fuse, like

    def __getattr__(self, name):
        return getattr(self.like, name)

    def present_value(self, curve, *args):
        self.fuse.tick()
        return self.like.present_value(curve, *args)


# ---------------------------------------------------------------------- operations: (name, fn(rng, world, name, description, fuse))
# every function makes the same choices for the same rng, so that it can be carried out again in the other world

def bond(rng, w, name, p, fuse):
    b = w.get(name)
    which = rng.choice(['value', 'value', 'before', 'after', 'missing'])
    d = p['purchase'] + timedelta(days=rng.randint(0, 400))
    early = b.dated_date - timedelta(days=rng.randint(10, 900))
    late = p['maturity'] + timedelta(days=rng.randint(5, 900))
    if which == 'value':
        b.present_value(FusedCurve(fuse, p['purchase'] - timedelta(days=30)))
    elif which in ('before', 'after'):
        on = dict(before=early, after=late)[which]
        rng.choice([b.calculate_accrued_interest, b.get_full_price, b.yield_to_maturity])(on)
    else:
        b[CashflowKeys.PREMIUM_LEG]


def calendar(rng, w, name, p, fuse):
    cal = w.get(name)
    d = p['around'] + timedelta(days=rng.randint(-10, 30))
    broken = dict(cal, boom=H.Holiday(rng.randint(1, 12), 15, fuse.guard(G._same)))
    which = rng.choice(['day', 'shift', 'adjust', 'settle', 'days', 'holidays'])
    if which == 'day':
        Scheduler.is_business_day(d, broken)
    elif which == 'shift':
        Scheduler.add_business_days(d, rng.randint(-9, 9), broken)
    elif which == 'adjust':
        rng.choice([Scheduler.following_date_adjustment, Scheduler.modified_following_date_adjustment])(d, broken)
    elif which == 'settle':
        Scheduler.calculate_settlement_date(d, G.settle(rng.choice(G.SETTLE_NAMES)), broken)
    elif which == 'days':
        Scheduler.generate_business_days(d, d + timedelta(days=20), broken)
    else:
        H.generate_all_holidays(d.year, d.year + 2, broken)


def daycount(rng, w, name, p, fuse):
    a, b = p['a'], p['b']
    DayCountCalculator.compute_accrual_length(b + timedelta(days=1), a, G.DCC[rng.choice(O.DCCS)])      # refused


def moved(rng, p, k):
    return [KnotValuePair(d, v * k) for d, v in p['knots']]


def knots_that_do_not_fit(rng, p, fuse):
    good = moved(rng, p, rng.uniform(0.5, 1.5))
    if rng.random() < 0.4:
        return fuse.iterate(good)
    i = rng.randrange(len(good))
    good[i] = KnotValuePair(p['ref'] - timedelta(days=rng.randint(1, 900)), 0.5)      # before the reference date
    return good


def reset(rng, curve, p, fuse):
    which = rng.choice(['many', 'many', 'one', 'good', 'good-one'])
    if which == 'many':
        new = knots_that_do_not_fit(rng, p, fuse)
        curve.reset_interpolation_values(fuse.keep(new) if isinstance(new, list) else new)
    elif which == 'one':
        i = rng.randrange(len(p['knots']))
        new, at = rng.choice([(KnotValuePair(p['ref'] - timedelta(days=3), 0.5), i), (KnotValuePair(p['knots'][i][0], 0.5), len(p['knots']) + 1)])
        curve.reset_interpolation_value(new, at)
    elif which == 'good':
        curve.reset_interpolation_values(fuse.keep(moved(rng, p, rng.uniform(0.5, 1.5))))
    else:
        i = rng.randrange(len(p['knots']))
        curve.reset_interpolation_value(KnotValuePair(p['knots'][i][0], rng.uniform(0.01, 0.9)), i)


def curve(rng, w, name, p, fuse):
    cv = w.get(name)
    d = p['knots'][0][0] + timedelta(days=rng.randint(0, 9000))
    which = rng.choice(['reset', 'reset', 'reset', 'adjusted', 'outside', 'value'])
    if which == 'reset':
        reset(rng, cv, p, fuse)
    elif which == 'adjusted':
        cv(d, fuse.guard(lambda x: 0.01))
    elif which == 'outside':
        cv(rng.choice([p['knots'][0][0] - timedelta(days=1), p['knots'][-1][0] + timedelta(days=1)]))
    else:
        cv.present_value(FusedAsset(fuse, ZeroCoupon(d, 0.9)))


def rates_of(w, name, p):
    """Key rates and a collection of them which live along with a curve."""
    def make():
        keys = [q[0] for q in p['knots'][1:4]]
        one = KeyRate(G.DCC['ACTUAL_OVER_365'], keys[1], keys[0])
        one.set_bump_val(0.0007)
        col = KeyRateCollection([KeyRate(G.DCC['ACTUAL_OVER_365'], k) for k in keys])
        col.set_bump_val(0.0003)
        return one, col
    key = 'key rates of ' + name
    if key not in w.objects:
        w.objects[key] = make()
    return w.objects[key]


def yields(rng, w, name, p, fuse):
    cv = w.get(name)
    one, col = rates_of(w, name, p)
    last = p['knots'][-1][0]
    day = lambda: p['ref'] + timedelta(days=rng.randint(0, (last - p['ref']).days))
    flows = Cashflow(Payment(day(), 10.0) for _ in range(3))
    bad = rng.choice([FusedAsset(fuse, flows), FusedAsset(fuse, flows), Cashflow([Payment(day(), 1.0), Payment(last + timedelta(days=90), 1.0)])])
    which = rng.choice(['reset', 'reset', 'discount', 'value', 'adjusted', 'derivative', 'derivative', 'risk', 'ladder', 'ladder'])
    if which == 'reset':
        reset(rng, cv, p, fuse)
    elif which == 'discount':
        cv.to_discount_curve(fuse.guard(lambda x: 0.01))
    elif which == 'value':
        cv.present_value(bad)
    elif which == 'adjusted':
        cv.present_value(flows, fuse.guard(lambda x: 0.01))
    elif which == 'derivative':
        cv.calculate_key_rate_deriv(bad, one)
    elif which == 'risk':
        cv.calculate_pv01_risk(bad, rng.choice([one, col[1]]))
    else:
        cv.calculate_pv01_risk_ladder(bad, rng.choice([col, col, fuse.iterate(col)]))


def book(rng, w, name, p, fuse):
    bonds = w.get(name)
    given = list(bonds)
    i = rng.randrange(len(given))
    given[i] = FusedAsset(fuse, given[i])
    how = rng.choice(['list', 'iterator'])
    f = w.objects.setdefault('factory', YieldCurveFactory())
    which = rng.choice(['solve', 'bootstrap', 'bootstrap', 'yields', 'portfolio', 'key-rates', 'future'])
    lin = G.METHODS['linear']
    if which in ('solve', 'bootstrap'):
        build = f.construct_yield_curve if which == 'solve' else f.bootstrap_yield_curve
        build(fuse.keep(given) if how == 'list' else iter(given), lin, p['today'])
    elif which == 'yields':
        f.construct_curve_from_yield_to_maturities(fuse.iterate(bonds), lin, p['today'])
    elif which == 'portfolio':
        Portfolio([PortfolioEntry(2, b) for b in given], 5.0).present_value(FusedCurve(fuse, p['today']))
    elif which == 'key-rates':
        Portfolio(fuse.iterate([PortfolioEntry(2, b) for b in bonds])).to_key_rate_collection(G.DCC['ACTUAL_OVER_365'])
    else:                      # a reference date behind some of the bonds
        f.bootstrap_yield_curve(fuse.keep(list(bonds)), lin, p['knots'][0] + timedelta(days=5))


def keys(rng, w, name, p, fuse):
    obj = w.get(name)
    col = rng.choice([obj['col'], obj['col'], obj['part']])
    single = rng.choice(obj['singles'])
    dcc = G.DCC[p['dcc']]
    other = G.DCC[rng.choice([d for d in O.DCCS[:4] if d != p['dcc']])]
    new = lambda: KeyRate(dcc, p['keys'][0] + timedelta(days=rng.randint(2100, 2500)))
    d = rng.choice(p['keys'])
    which = rng.choice(['iterable', 'other-count', 'set', 'bad-set', 'delete', 'clear', 'index', 'dates', 'good', 'good', 'good-bump', 'good-delete', 'query', 'remove', 'build'])
    if which == 'iterable':
        col += fuse.iterate([new(), new(), new()])
    elif which == 'other-count':
        what = rng.choice([[new(), KeyRate(other, col[0].key_rate_date), new()], [KeyRate(other, col[-1].key_rate_date)]])
        col += fuse.keep(what)
    elif which in ('set', 'bad-set'):
        i = rng.randrange(len(col))
        lo, hi = col[i].prior_date, col[i].next_date
        if which == 'set' and (lo is None or hi is None or (hi - lo).days > 4):
            lo = lo or (hi or col[i].key_rate_date) - timedelta(days=50)
            col[i] = KeyRate(dcc, lo + timedelta(days=1))
        else:
            col[i] = rng.choice([None, KeyRate(dcc, (hi or col[-1].key_rate_date + timedelta(days=4000))) if hi else None, 5])
    elif which == 'delete':
        del col[rng.choice([slice(None), len(col) + 2])]
    elif which == 'clear':
        rng.choice([col.clear, lambda: col.pop(99), lambda: col.append(None)])()
    elif which == 'index':
        col[99]
    elif which == 'dates':
        k = rng.choice([single, col[rng.randrange(len(col))]])
        bad = k.key_rate_date + timedelta(days=rng.choice([0, 1, 30]))
        rng.choice([lambda: k.set_prior_date(bad), lambda: k.set_next_date(bad - timedelta(days=60))])()
    elif which == 'good':
        col += new()
    elif which == 'good-bump':
        col.set_bump_val(rng.uniform(-0.01, 0.01))
    elif which == 'good-delete':
        del col[rng.randrange(len(col))]
    elif which == 'query':
        col(None)
    elif which == 'remove':
        col.remove(KeyRate(dcc, p['keys'][-1] + timedelta(days=9999)))
    else:
        KeyRateCollection(fuse.keep(list(obj['singles']) + [KeyRate(other, d)]))


def loan(rng, w, name, p, fuse):
    ln = w.get(name)
    pay = p['principal'] / 10
    which = rng.choice(['extras', 'extras', 'value'])
    if which == 'extras':
        ln.generate_payment_schedule(pay, fuse.iterate([1.0, 2.0, 3.0]))
    else:
        ln.present_value(FusedCurve(fuse, p['origination']))


def swap(rng, w, name, p, fuse):
    sw = w.get(name)
    r = rng.uniform(0, 0.1)
    which = rng.choice(['floating', 'floating', 'unstored', 'value', 'implied', 'implied-curve', 'good', 'good-unstored'])
    rate = fuse.guard(lambda d: r)
    if which in ('floating', 'unstored'):
        sw.generate_floating_leg_cashflow(rate, set_cashflow=which == 'floating')
    elif which == 'value':
        sw.present_value(FusedCurve(fuse, p['purchase'] - timedelta(days=30)))
    elif which == 'implied':
        sw.implied_rate(w.get(next(n for n in w.specs if n.startswith('curve:'))), rate)
    elif which == 'implied-curve':
        sw.implied_rate(FusedCurve(fuse, p['purchase'] - timedelta(days=30)), lambda d: r)
    else:
        sw.generate_floating_leg_cashflow(lambda d: r, set_cashflow=which == 'good')


def cash(rng, w, name, p, fuse):
    obj = w.get(name)
    ref = p['pays'][0][0]
    which = rng.choice(['value', 'portfolio', 'build', 'index', 'lengths', 'good'])
    if which == 'value':
        obj['cf'].present_value(FusedCurve(fuse, ref))
    elif which == 'portfolio':
        rng.choice([obj['pf'], obj['bare']]).present_value(FusedCurve(fuse, ref))
    elif which == 'build':
        Cashflow(fuse.iterate(obj['cf']))
    elif which == 'index':
        obj['cf'][len(p['pays']) + 50]
    elif which == 'lengths':
        Cashflow.create_from_date_and_float_iterables(fuse.keep([ref, ref]), fuse.keep([1.0]))
    else:
        obj['cf'].add_payment(Payment(ref + timedelta(days=rng.randint(0, 900)), rng.uniform(1, 9)))


def outside(rng, p):
    return rng.choice([p['start'] - timedelta(seconds=1), p['end'] + timedelta(seconds=1), p['end'] + timedelta(days=300)])


def motion(rng, w, name, p, fuse):
    bm = w.get(name)
    which = rng.choice(['outside', 'good', 'seed'])
    if which == 'outside':
        bm(outside(rng, p))
    elif which == 'seed':
        bm.generate_path(timedelta(days=p['step']), seed=-1)
    else:
        bm.generate_path(timedelta(days=rng.choice([2, 3, 7])), seed=rng.randrange(1000))


def broken_pair(rng, proc, fuse):
    """Temporarily lets the drift or the volatility of one coordinate fail at its k-th use; returns what puts it right again."""
    pairs = proc.drift_diffusion_collection
    key = rng.choice(sorted(pairs))
    was = pairs[key]
    pairs[key] = DriftDiffusionPair(fuse.guard(was.drift), was.diffusion) if rng.random() < 0.5 else DriftDiffusionPair(was.drift, fuse.guard(was.diffusion))

    def repair():
        pairs[key] = was
    return repair


def gbm_of(w, name, p):
    key = 'gbm of ' + name
    if key not in w.objects:
        w.objects[key] = q01.GeometricBrownianMotion(0.05, 0.2 + p['level'] / 10, p['start'], p['end'], dimension=1, dt=timedelta(days=p['step']))
        w.objects[key].generate_path(10.0, seed=3)
    return w.objects[key]


def diffusion(rng, w, name, p, fuse):
    proc, n = w.get(name), p['n']
    which = rng.choice(['callback', 'callback', 'callback', 'shape', 'outside', 'good', 'good-step', 'geometric', 'geometric'])
    s = rng.randrange(1000)
    if which == 'callback':
        repair = broken_pair(rng, proc, fuse)
        try:
            proc.generate_path(np.full(n, 0.3), set_path=rng.random() < 0.8, seed=s)
        finally:
            repair()
    elif which == 'shape':
        proc.generate_path(np.zeros(n + 2), seed=s)
    elif which == 'outside':
        proc(outside(rng, p))
    elif which == 'good':
        proc.generate_path(np.full(n, rng.random()), seed=s)
    elif which == 'good-step':
        proc.set_dt(timedelta(days=rng.choice([2, 3, 6])))
        if rng.random() < 0.7:
            proc.generate_path(np.full(n, rng.random()), seed=s)
    else:
        g = gbm_of(w, name, p)
        was = g.drift_diffusion_pair
        bad = rng.choice(['drift', 'shape', 'good'])
        if bad == 'drift':
            g.drift_diffusion_pair = DriftDiffusionPair(fuse.guard(was.drift), was.diffusion)
        try:
            g.generate_path(np.zeros(4) if bad == 'shape' else 5.0 + rng.random(), seed=s)
        finally:
            g.drift_diffusion_pair = was


def parameters(rng, m, p, which):
    """New parameters from the calibration dictionary, which keeps its own lists afterwards."""
    kind = q01.CalibrationParamterType
    group = rng.choice([kind.VOLATILITY, kind.VOLATILITY, kind.SHAPE, kind.STATE_VARIABLES])
    take = {kind.VOLATILITY: m.set_volatiltiy_parameters_from_dict, kind.SHAPE: m.set_shape_parameters_from_dict, kind.STATE_VARIABLES: m.set_state_variables_from_dict}[group]
    one = p['kind'] == 'one'
    u = lambda lo, hi: round(rng.uniform(lo, hi), 4)
    new = {kind.VOLATILITY: [u(0.001, 0.02), u(0.1, 0.9)] if one else [u(0.02, 0.09), u(0.001, 0.02), u(0.2, 0.9), u(0.001, 0.02), u(-0.8, 0.8)],
           kind.SHAPE: [u(0, 0.1)], kind.STATE_VARIABLES: [u(0, 0.1)] * (1 if one else 2)}[group]
    if which == 'parameters':
        how = rng.choice(['short'] + ['correlation'] * (3 if len(new) == 5 else 0))
        if how == 'short':
            new = new[:-1] if group != kind.STATE_VARIABLES or one else new + [0.01]
        else:
            new[-1] = rng.choice([1.5, -2.0])
    d = m.parameter_calibration_dict
    was = d[group]
    d[group] = new
    try:
        take()
    finally:
        d[group] = was


def rates(rng, w, name, p, fuse):
    m = w.get(name)
    x0 = (lambda: rng.uniform(0, 0.1)) if p['kind'] == 'one' else (lambda: np.array([rng.uniform(0, 0.1), rng.uniform(0, 0.1)]))
    which = rng.choice(['callback', 'transformation', 'transformation', 'shape', 'outside', 'grid', 'grid', 'price', 'good', 'good', 'good-step', 'good-curve', 'integral', 'parameters', 'parameters',
                        'good-parameters'])
    s = rng.randrange(1000)
    span = p['end'] - p['start']
    if which == 'callback':
        repair = broken_pair(rng, m.state_variables_diffusion_process, fuse)
        try:
            m.generate_path(x0(), set_path=rng.random() < 0.8, seed=s)
        finally:
            repair()
    elif which in ('transformation', 'integral'):
        was = m.short_rate_transformation
        m.short_rate_transformation = fuse.guard(was)
        try:
            if which == 'transformation':
                m.generate_path(x0(), set_path=rng.random() < 0.8, seed=s)
            else:
                rng.choice([m.generate_integrated_path, m.create_discount_curve, m.accrual_curve])()
        finally:
            m.short_rate_transformation = was
    elif which == 'shape':
        m.generate_path(np.zeros(5), seed=s)
    elif which == 'outside':
        m(outside(rng, p))
    elif which == 'grid':
        t = p['start'] + span * 0.3
        grid = rng.choice([[p['start'], t, p['end'] + timedelta(days=20)], [p['start'] - timedelta(days=20), t]])
        rng.choice([m.generate_integrated_path, m.create_discount_curve, m.accrual_curve])(fuse.keep(grid))
    elif which == 'price':
        t = p['start'] + span * 0.5
        rng.choice([m.zero_coupon_bond_price, m.zero_coupon_bond_yield, m.instantaneous_forward_rate, m.yield_volatility])(t - timedelta(days=3), t)
    elif which == 'good':
        m.generate_path(x0(), seed=s)
    elif which == 'good-step':
        m.set_dt(timedelta(days=rng.choice([2, 3, 6])))
        m.generate_path(x0(), seed=s)
    elif which.endswith('parameters') and p['kind'] != 'many':
        parameters(rng, m, p, which)
    else:
        rng.choice([m.generate_integrated_path, m.create_discount_curve])(rng.choice([None, [p['start'], p['start'] + span * 0.2, p['start'] + span * 0.5]]))


OPS = dict(bond=bond, calendar=calendar, daycount=daycount, curve=curve, yields=yields, book=book, keys=keys, loan=loan, swap=swap, cash=cash,
           motion=motion, diffusion=diffusion, rates=rates)

TURNS = [f for k in range(3) for f in OPS if k == 0 or f not in ('book', 'yields') or (f, k) == ('yields', 1)]     # the slow ones less often


def stored(name, p):
    """What an object keeps of the operations carried out so far, read before anything else is asked."""
    fam = name.split(':')[0]
    g = lambda w: w.get(name)
    if fam in ('curve', 'yields'):
        out = [('knots', lambda w: [list(k) for k in g(w).interpolation_values]), ('at-knots', lambda w: [g(w)(k.knot) for k in g(w).interpolation_values]),
               ('at-given-knots', lambda w: [g(w)(d) for d, _ in p['knots']]),
               ('settings', lambda w: [g(w).reference_date, str(g(w).left_end_behavior), str(g(w).right_end_behavior), str(g(w).interpolation_method)])]
        if fam == 'yields':
            ks = lambda w: [rates_of(w, name, p)[0]] + list(rates_of(w, name, p)[1])
            out += [('key-rates', lambda w: [[k.prior_date, k.key_rate_date, k.next_date, k.bump_val, k(k.key_rate_date), k(k.key_rate_date + timedelta(days=9))] for k in ks(w)])]
        return out
    if fam == 'swap':
        flows = lambda cf: [(q.payment_date, q.payment) for q in cf]
        return [('legs', lambda w: [flows(g(w).fixed_leg), flows(g(w).floating_leg)]), ('keys', lambda w: sorted(str(k) for k, _ in g(w)))]
    if fam in ('bond', 'book'):
        bonds = lambda w: g(w) if fam == 'book' else [g(w)]
        said = ('price', 'coupon_rate', 'principal', 'tenor', 'purchase_date', 'maturity_date', 'settlement_date', 'dated_date')
        return [('terms', lambda w: [[getattr(b, a, None) for a in said] for b in bonds(w)]),
                ('accrued', lambda w: [[b.calculate_accrued_interest(), b.get_full_price()] for b in bonds(w)]),
                ('payments', lambda w: [[[(q.payment_date, q.payment) for q in cf] for _, cf in b] for b in bonds(w)])]
    if fam == 'calendar':
        return [('calendar', lambda w: sorted((k, int(getattr(h[0], 'value', h[0])), h[1]) for k, h in g(w).items()))]
    if fam == 'cash':
        flows = lambda cf: [(q.payment_date, q.payment) for q in cf]
        return [('payments', lambda w: flows(g(w)['cf']))]
    if fam == 'loan':
        return [('terms', lambda w: [g(w).principal, g(w).origination_date])]
    if fam == 'keys':
        return [('bumps', lambda w: [[k.bump_val for k in g(w)[x]] + [len(g(w)[x])] for x in ('col', 'part', 'singles')])]
    if fam in ('motion', 'diffusion', 'rates'):
        ts = [p['start'] + (p['end'] - p['start']) * f for f in (0.0, 0.21, 0.6, 1.0)]
        out = [('path', lambda w: g(w).path), ('at', lambda w: [g(w)(t) for t in ts])]
        if fam != 'motion':
            out.append(('step', lambda w: str(g(w).dt)))
        if fam == 'diffusion':
            out.append(('geometric', lambda w: gbm_of(w, name, p).path))
        if fam == 'rates':
            dc = lambda w: g(w).discount_curve
            said = ('long_term_mean', 'reversion_speed', 'volatility', 'calibrated_starting_short_rate', 'long_term_reversion_speed', 'long_term_volatility', 'short_rate_reversion_speed',
                    'short_rate_volatility', 'short_rate_long_term_correlation', 'variance_mat', 'reversion_level', 'reversion_matrix', 'volatility_matrix')
            out.append(('parameters', lambda w: [getattr(g(w), a, None) for a in said]))
            out += [('states', lambda w: g(w).state_variables_diffusion_process.path), ('states-at', lambda w: [g(w).state_variables_diffusion_process(t) for t in ts]),
                    ('short-rates', lambda w: g(w).short_rate_path), ('integral', lambda w: g(w).integrated_path),
                    ('discounts', lambda w: None if dc(w) is None else [list(k) for k in dc(w).interpolation_values])]
        return out
    return []


def failures(c):
    rng = c.rng
    fam = TURNS[c.index % len(TURNS)]
    specs, names = {}, {}
    key = rng.getrandbits(60)
    for f in ('curve', fam):
        if f not in names:
            specs[f'{f}:0:0'] = FAMILIES[f].spec(Ctx(f'{key}|{f}'))
        names[f] = [n for n in specs if n.startswith(f + ':')]
    name = f'{fam}:0:0'
    p = specs[name]
    w, twin = World(specs), World(specs)
    for x in (w, twin):
        x.get(name), x.get('curve:0:0')
    qs = FAMILIES[fam].queries(random.Random(f'{key}|q'), name, p, names)
    qs = [q for q in qs if 'geometric' not in q[0]]
    first = stored(name, p)
    tol = 1e-12
    hist = []
    c.note(family=fam, description=repr(p)[:700], history=hist)
    us = {k: tuple(v) for k, v in G.US_FEDERAL_HOLIDAYS.items()}
    for _ in range(rng.randint(4, 8)):
        seed, k = rng.getrandbits(60), rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 300)])
        fuse = Fuse(k)
        try:
            OPS[fam](random.Random(seed), w, name, p, fuse)
            failed = None
        except Stop:
            raise
        except Exception as e:
            failed = f'{type(e).__name__}: {e}'[:120]
        if failed is None:
            OPS[fam](random.Random(seed), twin, name, p, Fuse(10 ** 9))
            c.event('carried-out')
        else:
            c.event('failed')
            c.event('failed-' + fam)
            if failed.startswith('Fault'):
                c.event('fault-injected')
        hist.append((failed or 'carried out', k))
        for value, was in fuse.kept:
            c.ok('argument-kept', len(value) == len(was) and all(a is b for a, b in zip(value, was)), failure=failed)
        some = first + rng.sample(qs, min(len(qs), 3 if fam == 'book' else 8))
        for label, fn in some:
            a, b = ask(fn, w), ask(fn, twin)
            c.ok('as-it-was' if failed else 'same-after-success', agree(a, b, tol), query=label, answer=a, expected=b, failure=failed, fault_at=k)
        c.seen(fam, failed, repr([ask(fn, twin) for _, fn in first])[:300], seed)
    c.ok('default-calendar-kept', {k: tuple(v) for k, v in G.US_FEDERAL_HOLIDAYS.items()} == us)


QUICK_SCALE = 1
DRIVERS = [Driver('failures', failures, 640, 9000, dict({'failed': 600, 'fault-injected': 150, 'carried-out': 100}, **{'failed-' + f: 15 for f in OPS}))]
