"""G01: what plots draw: the data of every line is read back from the figure and compared with what the object answers when asked."""
import bisect
import math
from datetime import date, datetime, timedelta

import matplotlib.dates as mdates
import matplotlib.pyplot as plt
import numpy as np

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from . import l01, m01, r02, y02
from fixedIncome.src.curves.base_curve import KnotValuePair

plt.switch_backend('Agg')
RULE = ('Loans (schedules with extra payments), Brownian motions (steps that do and do not divide the horizon, several coordinates, new paths), one-factor '
        'models (paths, changed parameters) and yield curves (with and without adjustment, after knot changes) are plotted on a recording canvas; each line '
        'drawn is matched to the quantity it should show, point by point; distinct by (object, line, data).')
ASSUMPTIONS = ['Figures are observed through the artists on the figure (their data, legend entries and marker positions), not through pixels.',
               'How many points a smooth line is sampled at is not judged, only that it spans its range and each point is right.']


class Canvas:
    """Figures opened and shown while a plotting method runs."""
    def __enter__(self):
        plt.close('all')
        self.shown = 0
        self._show = plt.show

        def show(*a, **k):
            self.shown += 1

        plt.show = show
        return self

    def __exit__(self, *a):
        plt.show = self._show
        self.axes = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]
        self.lines = [l for ax in self.axes for l in ax.get_lines()]
        self.named = {}
        for ax in self.axes:
            leg = ax.get_legend()
            if leg is not None:
                handles = getattr(leg, 'legend_handles', None) or leg.legendHandles
                for t, h in zip(leg.get_texts(), handles):
                    same = [l for l in ax.get_lines() if (l.get_color(), l.get_linestyle()) == (h.get_color(), h.get_linestyle())]
                    if len(same) == 1:
                        self.named[t.get_text()] = same[0]
        return False


def xy(line):
    return list(line.get_xdata(orig=True)), np.asarray(line.get_ydata(orig=True), dtype=float)


def times(xs):
    """Line positions as timestamps, whether they were kept as dates or as plot units."""
    out = []
    for x in xs:
        if isinstance(x, np.datetime64):
            x = x.astype('datetime64[us]').item()
        if hasattr(x, 'to_pydatetime'):
            x = x.to_pydatetime()
        if isinstance(x, (int, float, np.floating)):
            x = mdates.num2date(x).replace(tzinfo=None)
        out.append(x if isinstance(x, datetime) else datetime(x.year, x.month, x.day))
    return out


def near(a, b, tol=timedelta(milliseconds=1)):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def done(c, what):
    plt.close('all')
    c.event(what)


def loans(c):
    rng = c.rng
    p = l01.params(c, 120)
    dates = l01.ref_dates(p)
    loan = l01.build(c, p)
    for _ in range(rng.choice([1, 2])):
        pay = l01.annuity(p) * rng.choice([1.0, rng.uniform(0.3, 2.5)])
        ek, given, extras = l01.rextras(rng, len(dates) - 1, p['principal'])
        c.note(**p, payment=pay, extras=ek)
        ref = loan.generate_payment_schedule(pay, list(extras))
        with Canvas() as fig:
            if given is None and rng.random() < 0.5:
                loan.plot_amortization_schedule(pay)
            else:
                loan.plot_amortization_schedule(payment_amount=pay, extra_payments=given)
        c.same('shown-once', fig.shown, 1)
        if not c.same('three-lines-named', sorted(fig.named), ['Interest', 'Payment', 'Principal']):
            raise Stop
        when = times([q.payment_date for q in ref])
        tol = 1e-9 * p['principal']
        for name, field in (('Payment', 'payment'), ('Principal', 'principal_payment'), ('Interest', 'interest_payment')):
            xs, ys = xy(fig.named[name])
            c.ok('drawn-against-payment-dates', near(times(xs), when), line=name, first=xs[:2], expected=when[:2])
            c.eqv('schedule-drawn', ys, [getattr(q, field) for q in ref], 1e-9, tol, line=name)
            c.seen(p['origination'], name, round(float(ys.sum()), 6))
        flat = lambda s: [(q.payment_date, q.payment, q.principal_payment, q.interest_payment) for q in s]
        c.same('schedule-unchanged', flat(loan.generate_payment_schedule(pay, list(extras))), flat(ref))
        done(c, 'loan-plotted')
        if any(extras):
            c.event('loan-extras')


def motions(c):
    rng = c.rng
    bm, st = brownian(c)
    for k in range(rng.choice([1, 2])):
        bm.generate_path(dt=st['dt'], set_path=True, seed=rng.randrange(10 ** 6))
        if k and rng.random() < 0.5:
            bm.generate_path(dt=st['dt'], set_path=False, seed=rng.randrange(10 ** 6))      # looked at, but not set
        path = np.array(bm.path)
        grid = m01.grid(st['start'], st['end'], st['dt'])
        with Canvas() as fig:
            bm.plot()
        c.same('shown-once', fig.shown, 1)
        if not c.same('one-line-per-coordinate', len(fig.lines), st['n']):
            raise Stop
        rest = list(range(st['n']))
        for line in fig.lines:
            xs, ys = xy(line)
            c.ok('drawn-at-the-path-times', near(times(xs), grid), first=times(xs)[-3:], expected=grid[-3:])
            hit = [i for i in rest if ys.shape == path[i].shape and np.allclose(ys, path[i], 0, 1e-12)]
            if c.ok('coordinate-drawn', hit, drawn=list(ys[:4]), path=path[:, :4].tolist()):
                rest.remove(hit[0])
            c.seen(st['start'], st['n'], round(float(ys[-1]), 9))
        c.eqv('path-unchanged', bm.path, path, 0, 0)
        c.eqv('evaluation-unchanged', bm(grid[-1]), path[:, -1], 1e-12, 1e-12)
        done(c, 'motion-plotted')
        if len(grid) > 2 and (grid[-1] - grid[-2]) < 0.9 * (grid[1] - grid[0]):
            c.event('short-last-step')


def brownian(c):
    rng = c.rng
    start, end, dt = m01.horizon(c, 120)
    n = rng.choice([1, 1, 2, 3])
    kind, corr = m01.correlation(c, n)
    c.note(start=start, end=end, step=str(dt), dimension=n, correlation=kind)
    bm = m01.BrownianMotion(start, end, n, corr)
    return bm, dict(start=start, end=end, dt=dt, n=n)


def rates(c):
    rng = c.rng
    p = r02.rparams(rng)
    vm, _, start, end, dt, _ = r02.build(c, p)
    vm.generate_path(rng.uniform(-0.02, 0.1), set_path=True, seed=rng.randrange(10 ** 6))
    for k in range(rng.choice([1, 2])):
        if k:
            if rng.random() < 0.5:
                p = r02.rparams(rng)
                vm.parameter_calibration_dict[r02.CalibrationParamterType.SHAPE] = [p['level']]
                vm.set_shape_parameters_from_dict()
            vm.generate_path(rng.uniform(-0.02, 0.1), set_path=True, seed=rng.randrange(10 ** 6))
            c.event('new-path')
        show = rng.choice([None, True, False])
        before = np.array(vm.path)
        with Canvas() as fig:
            vm.plot() if show is None else vm.plot(show_fig=show)
        c.same('shown-only-on-request', fig.shown, 1 if show else 0)
        if not c.same('lines-named', sorted(fig.named), ['Expected Short Rate', 'Reversion Level', 'Sample Short Rate Path']):
            raise Stop
        for name, want in (('Sample Short Rate Path', lambda t: vm(t) * 100), ('Expected Short Rate', lambda t: vm.expected_short_rate(t) * 100)):
            xs, ys = xy(fig.named[name])
            ts = times(xs)
            if not isinstance(start, datetime):
                c.same('days-drawn', all(t == O.midnight(t.date()) for t in ts), True)
                ts = [t.date() for t in ts]
            grid = m01.grid(start, end, dt)
            ok = near([O.midnight(t) for t in ts[:1]], [O.midnight(start)]) and all(start <= t <= end for t in ts) and all(a < b for a, b in zip(ts, ts[1:]))
            c.ok('drawn-from-start-to-end', ok and len(ts) >= len(grid) - 1 and ts[-1] >= grid[max(0, len(grid) - 2)], line=name, first=ts[:2], last=ts[-2:])
            c.eqv('rates-drawn-in-percent', ys, [float(want(t)) for t in ts], 1e-9, 1e-9, line=name)
            c.seen(name, start, round(float(ys[-1]), 9))
        _, ys = xy(fig.named['Reversion Level'])
        c.eqv('level-drawn', ys, [vm.long_term_mean * 100] * len(ys), 1e-12, 1e-12)
        c.eqv('path-unchanged', vm.path, before, 0, 0)
        done(c, 'model-plotted')


def curves(c):
    rng = c.rng
    cv, st = y02.make(c, 'yield')
    for k in range(rng.choice([1, 2])):
        if k:
            st = dict(st, knots=[(d, rng.uniform(-0.02, 0.12)) for d, _ in st['knots']])
            cv.reset_interpolation_values([KnotValuePair(*q) for q in st['knots']])
            c.event('knots-replaced')
        adj = y02.adjustments(rng, st['ref'])
        with Canvas() as fig:
            cv.plot() if adj is None and rng.random() < 0.5 else cv.plot(adj)
        c.same('shown-once', fig.shown, 1)
        last = st['knots'][-1][0]
        axis, d = {}, st['ref']
        while d <= last:
            axis.setdefault(O.frac(st['ref'], d, st['dcc']), []).append(d)
            d += timedelta(days=1)
        keys = sorted(axis)

        def dates_at(x):
            i = bisect.bisect_left(keys, x - 1e-9)
            return axis[keys[i]] if i < len(keys) and abs(keys[i] - x) < 1e-9 else []

        a = adj or (lambda d: 0.0)
        y = O.RefCurve(st['knots'], st['method'], st['dcc'], st['ref'], 'CONSTANT', 'CONSTANT')
        t = lambda d: O.frac(st['ref'], d, st['dcc'])
        kinds = {'yields': lambda d: 100 * y(d), 'factors': lambda d: math.exp(-y(d) * t(d))}
        if adj is not None:
            kinds.update({'adjusted yields': lambda d: 100 * (y(d) + a(d)), 'adjusted factors': lambda d: math.exp(-(y(d) + a(d)) * t(d))})
        tol = 1e-7 if st['method'] in ('linear', 'previous') else 1e-4
        knots = [k for k, _ in st['knots']]
        markers = 0
        missing = dict(kinds)
        for line in fig.lines:
            xs, ys = xy(line)
            ds = [dates_at(float(x)) for x in xs]
            if not c.ok('on-the-day-count-axis', all(ds), xs=[float(x) for x in xs[:4]]):
                raise Stop
            fits = lambda f: all(any(abs(f(d) - v) <= tol * (1 + abs(v)) for d in dd) for dd, v in zip(ds, ys))
            if line.get_marker() not in (None, 'None', '', ' '):
                c.same('knots-marked', sorted(round(float(x), 9) for x in xs), sorted(round(t(k), 9) for k in knots))
                c.ok('yields-marked', fits(kinds['yields']), drawn=list(ys[:5]), expected=[kinds['yields'](k) for k in knots])
                markers += 1
                continue
            hit = [n for n in missing if fits(missing[n])]
            if not c.ok('line-shows-a-quantity-of-the-curve', hit, drawn=[(float(x), float(v)) for x, v in list(zip(xs, ys))[:3] + list(zip(xs, ys))[-3:]],
                        missing=sorted(missing)):
                raise Stop
            missing.pop(hit[0])
            c.ok('spans-the-curve', abs(min(xs)) < 1e-9 and abs(max(xs) - t(last)) < 1e-9 and len(xs) >= len(knots), first=float(min(xs)), last=float(max(xs)), expected=t(last))
            c.ok('in-order', all(p <= q for p, q in zip(xs, xs[1:])))
            c.ok('through-the-knots', all(any(abs(float(x) - t(k)) < 1e-9 for x in xs) for k in knots), line=hit[0])
            c.seen(hit[0], st['ref'], round(float(ys[-1]), 9))
        c.same('everything-drawn', sorted(missing), [])
        c.same('markers', markers, 1)
        for k, v in st['knots']:
            c.eq('curve-unchanged', float(cv(k)), v, 1e-9, 1e-9)
        done(c, 'curve-plotted')
        if adj is not None:
            c.event('curve-adjusted')


DRIVERS = [Driver('loans', loans, 30, 500, {'loan-plotted': 10, 'loan-extras': 3}), Driver('motions', motions, 30, 500, {'motion-plotted': 10, 'short-last-step': 3}),
           Driver('rates', rates, 30, 500, {'model-plotted': 10}), Driver('curves', curves, 40, 600, {'curve-plotted': 12, 'curve-adjusted': 4, 'knots-replaced': 4})]
