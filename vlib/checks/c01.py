from datetime import date, timedelta

import numpy as np

from .. import gen as G
from ..harness import Driver
from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowCollection, CashflowKeys, Payment, ZeroCoupon

RULE = ('Random histories of constructions, additions, slices, key replacements and additions on cashflows and cashflow collections, '
        'with repeated dates, missing amounts and generator inputs; every view is compared with a model after every operation; '
        'distinct by (payment schedule) with at least two payments or (key order) with at least one edit.')
ASSUMPTIONS = ['Payments themselves are shared with the caller; only the containers are required to be independent.']


def views(c, cf, model):
    """Every public view of the cashflow against the model list of (date, amount)."""
    n = len(model)
    c.same('length', len(cf), n)
    c.same('iteration', [(p.payment_date, p.payment) for p in cf], model)
    c.same('iteration-again', [(p.payment_date, p.payment) for p in cf], model)
    c.same('schedule', [(p.payment_date, p.payment) for p in cf.schedule], model)
    c.same('dates', list(cf.get_payment_dates()), [d for d, _ in model])
    c.same('amounts', list(cf.get_payment_amounts()), [a for _, a in model])
    c.same('index', [(cf[i].payment_date, cf[i].payment) for i in range(-n, n)], model + model)
    if n:
        s = cf.to_series()
        c.same('series-dates', list(s.index), [d for d, _ in model])
        c.eqv('series-values', [np.nan if v is None else float(v) for v in s.tolist()], [np.nan if a is None else a for _, a in model], 0, 0)
        f = cf.to_dataframe()
        c.same('frame-dates', list(f['Payment Dates']), [d for d, _ in model])
        c.eqv('frame-values', [np.nan if v is None else float(v) for v in f['Payments']], [np.nan if a is None else a for _, a in model], 0, 0)
    c.raises('past-end', IndexError, lambda: cf[n])
    c.raises('before-start', IndexError, lambda: cf[-n - 1])
    c.event('view')
    if n > 1:
        c.seen(tuple(model))


def history(c):
    rng = c.rng
    stamp = rng.random() < 0.2
    base = G.rdatetime(rng, 2000, 2040) if stamp else G.rdate(rng, 2000, 2040)
    serial = [0]

    def pay():
        serial[0] += 1
        d = base + timedelta(days=rng.choice([0, 1, 2, 5, rng.randint(-400, 4000), rng.randint(0, 6)]))
        if rng.random() < 0.06:
            c.event('zero-amount')
            return d, rng.choice([0.0, 0])
        return d, (None if rng.random() < 0.12 else float(serial[0]) * rng.choice([1, -1]) + rng.random())

    def ordered(items):
        return sorted(items, key=lambda t: t[0])

    start = [pay() for _ in range(rng.choice([0, 1, 2, 5, 12, 12, 90, 300]))]
    how = rng.choice(['list', 'tuple', 'generator', 'columns', 'column-generators'])
    if how == 'columns':
        cf = Cashflow.create_from_date_and_float_iterables([d for d, _ in start], [a for _, a in start])
    elif how == 'column-generators':
        cf = Cashflow.create_from_date_and_float_iterables((d for d, _ in start), iter([a for _, a in start]))
    else:
        if start and rng.random() < 0.3:      # the same payment more than once
            start += rng.sample(start, rng.randint(1, len(start)))
        made = {}
        given = [made.setdefault(p, Payment(*p)) for p in start]
        original = list(given)
        cf = Cashflow(given if how == 'list' else tuple(given) if how == 'tuple' else (p for p in given))
    model = ordered(start)
    c.note(history=[('new', how, start)])
    views(c, cf, model)
    for _ in range(rng.randint(2, 9)):
        op = rng.choice(['add', 'add', 'add', 'add-same-date', 'slice', 'rebuild'])
        if op == 'add' or (op == 'add-same-date' and not model):
            d, a = pay()
        elif op == 'add-same-date':
            serial[0] += 1
            d, a = rng.choice(model)[0], float(serial[0])
            c.event('same-date-addition')
        if op.startswith('add'):
            c.notes['history'].append(('add', d, a))
            cf.add_payment(Payment(d, a))
            model = ordered(model + [(d, a)])
            c.event('addition')
        elif op == 'slice':
            sl = slice(*rng.choice([(None, None, None), (1, None, None), (None, -1, None), (None, None, 2), (2, 5, None), (-3, None, None), (5, 2, None),
                                      (None, None, -1), (5, 1, -1), (None, 2, -2), (0, 3, 1), (-4, -1, None)]))
            part = cf[sl]
            c.notes['history'].append(('slice', repr(sl)))
            c.ok('slice-type', isinstance(part, Cashflow))
            views(c, part, ordered(model[sl]))
            d, a = pay()
            part.add_payment(Payment(d, a))       # a slice is its own cashflow
            views(c, part, ordered(model[sl] + [(d, a)]))
            c.event('slice')
        else:
            cf2 = Cashflow(cf)                     # any iterable of payments will do, a cashflow included
            d, a = pay()
            cf2.add_payment(Payment(d, a))
            views(c, cf2, ordered(model + [(d, a)]))
        views(c, cf, model)
    if how == 'list':
        c.ok('input-list-unchanged', given == original and len(given) == len(original))
    n, m = rng.sample(range(0, 6), 2)
    c.raises('different-lengths', ValueError, lambda: Cashflow.create_from_date_and_float_iterables(
        iter([base + timedelta(days=i) for i in range(n)]), [1.0] * m), dates=n, amounts=m)
    c.event('length-mismatch')


KEYS = ('SINGLE_PAYMENT', 'COUPON_PAYMENTS', 'FIXED_LEG', 'FLOATING_LEG', 'PROTECTION_LEG', 'PREMIUM_LEG', 'MARK_TO_MARKET')


class Book(CashflowCollection):
    def to_knot_value_pair(self):
        raise NotImplementedError

    def present_value(self, discount_curve):
        raise NotImplementedError


def collection(c):
    rng = c.rng
    keys = [CashflowKeys[name] for name in KEYS]
    c.same('seven-keys', len({id(k) for k in keys}), 7)
    rng.shuffle(keys)
    n = rng.choice([0, 1, 2, 3, 4, 4, 7])

    def flow():
        return None if rng.random() < 0.15 else Cashflow([Payment(G.rdate(rng), rng.random()) for _ in range(rng.choice([0, 1, 1, 3]))])

    model = {k: flow() for k in keys[:n]}
    as_gen = rng.random() < 0.5
    b = Book(iter(list(model.values())) if as_gen else list(model.values()), iter(list(model)) if as_gen else list(model))
    if model and rng.random() < 0.25:          # a key given twice stands for the last cashflow given, as in any mapping
        twice, last = rng.choice(list(model)), flow()
        b = Book(list(model.values()) + [last], list(model) + [twice])
        model[twice] = last
        c.event('key-given-twice')
    hist = [('new', [k.name for k in model])]
    c.note(history=hist)

    def view():
        c.same('size', len(b), len(model))
        c.same('pairs', [(k, id(v)) for k, v in b], [(k, id(v)) for k, v in model.items()])
        c.same('pairs-again', [(k, id(v)) for k, v in b], [(k, id(v)) for k, v in model.items()])
        for k in CashflowKeys:
            c.same('membership', k in b, k in model, key_name=k.name)
            if k in model:
                c.ok('lookup', b[k] is model[k], key_name=k.name)
            else:
                c.raises('missing', KeyError, lambda: b[k], key_name=k.name)
        i1, i2 = iter(b), iter(b)          # two readers at the same time do not disturb each other
        for _ in model:
            c.ok('independent-iterators', next(i1) == next(i2))
        c.event('collection-view')
    view()
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(keys)
        v = flow()
        hist.append(('replace' if k in model else 'add', k.name))
        c.event('replace' if k in model else 'insert')
        b[k] = v
        model[k] = v
        view()
        c.seen(tuple(x.name for x in model), tuple(hist[-1]))


def instruments(c):
    """The instruments of the library are such collections."""
    rng = c.rng
    repo, ref = G.rcalendar(rng, False)
    p = G.rbond_params(rng)
    c.note(bond=p)
    b, r = G.make_bond(rng.choice(['treasury', 'corporate']), p, repo, ref)
    seen = dict(iter(b))
    c.same('bond-size', len(b), len(seen))
    total = [(q.payment_date, q.payment) for _, cf in b for q in cf]
    c.same('bond-payments', sorted(t for t, _ in total), sorted(q[1] for q in r.payments()))
    for k in seen:
        c.ok('bond-lookup', b[k] is seen[k] and k in b)
    z = ZeroCoupon(p['maturity'], 0.9)
    c.same('zero-coupon', [(k, len(cf), cf[0].payment_date, cf[0].payment) for k, cf in z],
           [(CashflowKeys.SINGLE_PAYMENT, 1, p['maturity'], 1.0)])
    c.event('instrument')
    c.seen(tuple(total))


DRIVERS = [Driver('history', history, 400, 12000, {'same-date-addition': 100, 'slice': 100, 'view': 2000, 'length-mismatch': 100}),
           Driver('collection', collection, 300, 8000, {'replace': 100, 'insert': 100}),
           Driver('instruments', instruments, 80, 1500, {'instrument': 50})]
