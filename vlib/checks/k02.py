import copy
from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection

RULE = ('Random histories of constructions, additions (single, iterable, in place, reversed), insertions, replacements, removals, slices and '
        're-bumps on key-rate collections, with an ordered map from dates to bumps as the model, read at random dates after every step; '
        'distinct by (key dates, bumps) with at least two key rates.')
ASSUMPTIONS = ['One day count per collection.',
               'A collection is never empty (an empty one is refused); one at a date already present, whatever its bump, changes nothing (the set union keeps the member).',
               'Under 30/360 key dates lie at least three days apart.']


class Model:
    def __init__(self, dcc, bumps):
        self.dcc, self.bumps = dcc, dict(bumps)

    def dates(self):
        return sorted(self.bumps)

    def near(self, i):
        ds = self.dates()
        return ds[i - 1] if i else None, ds[i], ds[i + 1] if i + 1 < len(ds) else None

    def total(self, d):
        return sum(O.tent(d, *self.near(i), self.dcc, self.bumps[k]) for i, k in enumerate(self.dates()))


def probe(c, col, m, n=8):
    rng = c.rng
    ds = m.dates()
    c.same('size', len(col), len(ds))
    c.ok('truthy', bool(col))
    c.same('dates', [k.key_rate_date for k in col], ds)
    c.same('dates-again', [k.key_rate_date for k in col], ds)
    c.same('neighbours', [(k.prior_date, k.key_rate_date, k.next_date) for k in col], [m.near(i) for i in range(len(ds))])
    c.same('bumps', [k.bump_val for k in col], [m.bumps[d] for d in ds])
    c.same('indexing', [col[i].key_rate_date for i in range(-len(ds), len(ds))], ds + ds)
    lo, hi = ds[0] - timedelta(days=400), ds[-1] + timedelta(days=400)
    level = set(m.bumps.values())
    scale = max(abs(b) for b in level) + 1e-6
    for d in [rng.choice(ds), rng.choice(ds) + timedelta(days=rng.choice([-1, 1]))] + \
            [lo + timedelta(days=rng.randint(0, (hi - lo).days)) for _ in range(n)]:
        exp = m.total(d)
        c.eq('sum', col(d), exp, 1e-9, 1e-10 * scale, date=d)
        if len(level) == 1:
            if m.dcc != 'THIRTY_OVER_THREESIXTY':       # (30/360 does not split periods exactly)
                c.eq('parallel-shift', col(d), next(iter(level)), 1e-9, 1e-10 * scale, date=d)
                c.event('parallel')
        i = rng.randrange(len(ds))
        c.eq('member', col[i](d), O.tent(d, *m.near(i), m.dcc, m.bumps[ds[i]]), 1e-9, 1e-10 * scale, date=d, member=i)
    k = rng.choice(ds)
    c.ok('contains', KeyRate(G.DCC[m.dcc], k) in col, date=k)
    c.same('index-of', col.index(KeyRate(G.DCC[m.dcc], k)), ds.index(k))
    c.ok('equal', col == KeyRateCollection([KeyRate(G.DCC[m.dcc], d) for d in reversed(ds)]))
    other = list(ds)
    i = rng.randrange(len(ds))
    other[i] = rng.choice([d for k in (1, 2, 3, 4, 5) for d in (ds[i] - timedelta(days=k), ds[i] + timedelta(days=k)) if d not in ds] + [hi])
    c.ok('not-equal', not col == KeyRateCollection(KeyRate(G.DCC[m.dcc], d) for d in other) and col != KeyRateCollection(KeyRate(G.DCC[m.dcc], d) for d in ds + [hi]))
    c.ok('does-not-contain', KeyRate(G.DCC[m.dcc], hi) not in col)
    c.event('state')
    if len(ds) > 1:
        c.seen(m.dcc, tuple(m.bumps.items()))


def snapshot(krs):
    return [(k.prior_date, k.key_rate_date, k.next_date, k.bump_val, k(k.key_rate_date), k(k.key_rate_date + timedelta(days=40)),
             k(k.key_rate_date - timedelta(days=40))) for k in krs]


def histories(c):
    rng = c.rng
    dcc = rng.choice(O.DCCS)
    base = G.rdate(rng, 2000, 2040)
    pool = [base + timedelta(days=d) for d in sorted(rng.sample(range(0, rng.choice([200, 6000]), 3), 30))]
    made = []        # key rates of the caller, with what they looked like when made

    def key(d, bump=None):
        k = KeyRate(G.DCC[dcc], d)
        if rng.random() < 0.3:
            k.set_prior_date(d - timedelta(days=77))
            k.set_next_date(d + timedelta(days=rng.randint(3, 90)))
        if bump is not None:
            k.set_bump_val(bump)
        made.append((k, snapshot([k])))
        return k

    def bump():
        return rng.choice([None, None, 0.0002, -0.003, 0.0])

    def val(b):
        return 0.0001 if b is None else b

    def sample(k):
        free = [d for d in pool if all(abs((d - e).days) >= 3 for e in m.bumps)]
        free += [pool[-1] + timedelta(days=1000 + 40 * j) for j in range(20) if pool[-1] + timedelta(days=1000 + 40 * j) not in m.bumps] if len(free) < k else []
        return rng.sample(free, k)

    m = Model(dcc, {})
    first = rng.sample(pool, rng.choice([1, 1, 2, 3, 6]))
    b0 = bump()
    krs = [key(d, b0) for d in first]
    col = KeyRateCollection(krs if rng.random() < 0.6 else iter(krs))
    m.bumps.update({d: val(b0) for d in first})
    hist = [('new', first, b0)]
    c.note(dcc=dcc, history=hist)
    probe(c, col, m)
    others = []
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(['add', 'radd', 'iadd', 'iadd-list', 'iadd-collection', 'append', 'insert', 'extend', 'set', 'set', 'bad-set', 'del', 'del-slice', 'pop', 'remove',
                         'slice', 'bump', 'member-bump', 'known', 'empty', 'other-count'])
        ds = m.dates()
        if op in ('add', 'radd', 'iadd', 'append', 'insert'):
            (d,), b = sample(1), bump()
            if rng.random() < 0.2:                       # one which is there already changes nothing
                d = rng.choice(ds)
                b = m.bumps[d] if rng.random() < 0.4 else bump()
                c.event('already-there')
            held = m.bumps.get(d)
            k = key(d, b)
            hist.append((op, d, b))
            if op in ('add', 'radd'):
                new = col + k if op == 'add' else k + col
                others.append((col, Model(dcc, m.bumps)))
                col = new
            elif op == 'iadd':
                same = col
                col += k
                c.ok('in-place', col is same)
            elif op == 'append':
                col.append(k)
            else:
                col.insert(rng.randint(-2, 5), k)
            m.bumps[d] = val(b) if held is None else held
            c.event('added')
        elif op in ('iadd-list', 'iadd-collection', 'extend'):
            new, b = sample(rng.randint(1, 4)), bump()
            if rng.random() < 0.5:                       # one which is already there
                d = rng.choice(ds)
                more = [key(d, m.bumps[d] if rng.random() < 0.4 else bump())]
                c.event('already-there')
            else:
                more = []
            ks = [key(d, b) for d in new] + more
            rng.shuffle(ks)
            hist.append((op, new, b))
            if op == 'iadd-list':
                col += ks if rng.random() < 0.5 else iter(ks)
            elif op == 'extend':
                col.extend(ks)
            else:
                other = KeyRateCollection(ks)
                om = Model(dcc, {k.key_rate_date: k.bump_val for k in ks})
                if rng.random() < 0.5:
                    col += other
                else:
                    others.append((col, Model(dcc, m.bumps)))
                    col = col + other
                others.append((other, om))
            m.bumps.update({d: val(b) for d in new})
            c.event('added')
        elif op == 'set':
            i = rng.randrange(len(ds))
            lo, _, hi = m.near(i)
            lo, hi = lo or ds[0] - timedelta(days=90), hi or ds[-1] + timedelta(days=90)
            span = (hi - lo).days
            if span < 7:
                continue
            d, b = lo + timedelta(days=rng.randint(3, span - 3)), bump()
            k = key(d, b)
            hist.append((op, i, d, b))
            col[i if rng.random() < 0.6 else i - len(ds)] = k
            del m.bumps[ds[i]]
            m.bumps[d] = val(b)
            c.event('replaced')
        elif op == 'bad-set' and len(ds) > 1:
            i = rng.randrange(len(ds))
            lo, _, hi = m.near(i)
            bad = [d for d in ([lo, lo - timedelta(days=5)] if lo else []) + ([hi, hi + timedelta(days=5)] if hi else [])]
            d = rng.choice(bad)
            hist.append((op, i, d))

            def put(i=i, d=d):
                col[i] = key(d)
            c.raises('outside-its-neighbours', ValueError, put, index=i, date=d)
            c.event('refused')
        elif op == 'del-slice' and len(ds) > 1:
            a = rng.randrange(len(ds))
            s = slice(*rng.choice([(a, rng.randint(a, len(ds) + 1)), (a, None), (None, a), (a - len(ds), None, 2), (None, None, -2), (None, None, 2), (a, a + 1)]))
            left = list(ds)
            del left[s]
            if not left:
                continue
            hist.append((op, str(s)))
            del col[s]
            m.bumps = {d: m.bumps[d] for d in left}
            c.event('slice-removed')
        elif op in ('del', 'pop', 'remove') and len(ds) > 1:
            i = rng.randrange(len(ds))
            hist.append((op, i))
            if op == 'del':
                del col[i if rng.random() < 0.7 else i - len(ds)]
            elif op == 'pop':
                c.same('popped', col.pop(i).key_rate_date, ds[i])
            else:
                col.remove(KeyRate(G.DCC[dcc], ds[i]))
            del m.bumps[ds[i]]
            c.event('removed')
        elif op == 'slice':
            a = rng.randrange(len(ds))
            s = slice(a, rng.randint(a + 1, len(ds)), rng.choice([None, None, 1, 2, 3]))
            if rng.random() < 0.2:
                s = slice(None, None, rng.choice([2, -1, -2]))
            hist.append((op, repr(s)))
            part = col[s]
            probe(c, part, Model(dcc, {d: m.bumps[d] for d in ds[s]}), 3)
            part.set_bump_val(0.007)
            probe(c, part, Model(dcc, {d: 0.007 for d in ds[s]}), 3)
            c.event('sliced')
        elif op == 'bump':
            b = rng.choice([0.0, 0.0001, -0.0001, rng.uniform(-0.1, 0.1)])
            hist.append((op, b))
            col.set_bump_val(b)
            m.bumps = {d: b for d in m.bumps}
            c.event('re-bumped')
        elif op == 'member-bump':
            i, b = rng.randrange(len(ds)), rng.uniform(-0.01, 0.01)
            hist.append((op, i, b))
            col[i].set_bump_val(b)
            m.bumps[ds[i]] = b
        elif op == 'empty':      # a collection is never empty: refused, and everything stays
            how = rng.choice(['slice', 'last'])
            hist.append((op, how))
            if how == 'slice':
                s = rng.choice([slice(None), slice(0, len(ds) + 3), slice(None, None, -1), slice(-len(ds), None)])

                def clear(s=s):
                    del col[s]
                c.raises('emptied', ValueError, clear)
                probe(c, col, m, 2)
                c.raises('cleared', ValueError, col.clear)
            elif len(ds) == 1:
                def drop():
                    del col[rng.choice([0, -1])]
                for fn in (drop, col.pop, lambda: col.pop(0), lambda: col.remove(KeyRate(G.DCC[dcc], ds[0]))):
                    c.raises('last-one-removed', ValueError, fn)
                    probe(c, col, m, 2)
            c.raises('removed-unknown', ValueError, lambda: col.remove(KeyRate(G.DCC[dcc], ds[-1] + timedelta(days=999))))

            def beyond():
                del col[len(ds)]
            c.raises('removed-beyond', IndexError, beyond)
            c.event('not-emptied')
        elif op == 'other-count':    # a second key rate for a date, on another axis, is refused and everything stays
            d = rng.choice(ds)
            other = KeyRate(G.DCC[rng.choice([x for x in O.DCCS if x != dcc])], d)
            more = [key(x) for x in sample(rng.randint(0, 2))]
            hist.append((op, d, len(more)))

            def inplace():
                nonlocal col
                col += [other] + more
            for fn in (lambda: col.append(other), lambda: col.insert(0, other), inplace, lambda: col + other, lambda: other + col):
                c.raises('two-axes-for-a-date', ValueError, fn, date=d)
                probe(c, col, m, 2)
            if more:
                c.raises('not-a-key-rate', (TypeError, AttributeError), lambda: col.append(d))
                c.raises('not-key-rates', (TypeError, AttributeError), lambda: col.__iadd__(more + [d]))
            c.event('other-count-refused')
        elif op == 'known':
            c.raises('duplicate-dates', ValueError, lambda: KeyRateCollection([key(ds[0]), key(ds[0])]))
            c.raises('empty', ValueError, lambda: KeyRateCollection([]))
            c.ok('equal-to-a-rebuilt-one', col == KeyRateCollection([KeyRate(G.DCC[dcc], d) for d in reversed(ds)]))
            c.ok('different-from-another', not (col == KeyRateCollection([KeyRate(G.DCC[dcc], d) for d in ds] + [KeyRate(G.DCC[dcc], ds[-1] + timedelta(days=999))])))
        probe(c, col, m)
    for other, om in others:       # collections which took part in a sum are what they were
        probe(c, other, om, 3)
        c.event('operand-re-read')
    for k, was in made:
        c.same('caller-key-rate-kept', snapshot([k]), was)
        c.event('caller-key-rate')


def copies(c):
    """Deep copies follow their own edits; a shallow copy made before no edit reads as the original does."""
    rng = c.rng
    dcc = rng.choice(O.DCCS[:4])
    base = G.rdate(rng, 2000, 2040)
    ds = [base + timedelta(days=d) for d in rng.sample(range(0, 2000, 3), rng.randint(1, 6))]
    bumps = {d: rng.choice([0.0001, rng.uniform(-0.01, 0.01)]) for d in ds}
    krs = [KeyRate(G.DCC[dcc], d) for d in ds]
    for k in krs:
        k.set_bump_val(bumps[k.key_rate_date])
    all_ = [(KeyRateCollection(krs), Model(dcc, bumps))]
    probe(c, copy.copy(all_[0][0]), all_[0][1], 3)
    hist = []
    c.note(dcc=dcc, bumps=bumps, history=hist)
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(all_))
        col, m = all_[i]
        op = rng.choice(['deepcopy', 'deepcopy', 'bump', 'member', 'add', 'del'])
        hist.append((op, i))
        now = m.dates()
        if op == 'deepcopy':
            all_.append((copy.deepcopy(col), Model(dcc, m.bumps)))
            c.event('copied')
        elif op == 'bump':
            b = rng.uniform(-0.01, 0.01)
            col.set_bump_val(b)
            m.bumps = {d: b for d in m.bumps}
        elif op == 'member':
            j, b = rng.randrange(len(now)), rng.uniform(-0.01, 0.01)
            col[j].set_bump_val(b)
            m.bumps[now[j]] = b
        elif op == 'add':
            d = base + timedelta(days=3 * rng.randint(700, 2000))
            if d not in m.bumps:
                col += KeyRate(G.DCC[dcc], d)
                m.bumps[d] = 0.0001
        elif len(now) > 1:
            j = rng.randrange(len(now))
            del col[j]
            del m.bumps[now[j]]
        for col, m in all_:
            probe(c, col, m, 2)


def stepping(c):
    """next() walks the collection in order, stops, and starts over."""
    rng = c.rng
    base = G.rdate(rng, 2000, 2040)
    ds = [base + timedelta(days=d) for d in rng.sample(range(0, 900, 3), rng.randint(1, 6))]
    col = KeyRateCollection(KeyRate(G.DCC['ACTUAL_OVER_365'], d) for d in ds)
    c.note(dates=ds)
    for _ in range(2):
        c.same('walk', [next(col).key_rate_date for _ in ds], sorted(ds))
        c.raises('end', StopIteration, lambda: next(col))
    first = [next(col).key_rate_date for _ in range(rng.randint(1, len(ds)))]     # reading it in between does not move the step
    list(col), len(col), bool(col), KeyRate(G.DCC['ACTUAL_OVER_365'], ds[0]) in col, col(base), col == col, col[0], col[:1]
    c.same('walk-on', first + [next(col).key_rate_date for _ in range(len(ds) - len(first))], sorted(ds))
    c.raises('end', StopIteration, lambda: next(col))
    i1, i2 = iter(col), iter(col)
    c.same('two-readers', [(next(i1).key_rate_date, next(i2).key_rate_date) for _ in ds], [(d, d) for d in sorted(ds)])
    c.event('walk')
    c.seen(tuple(ds))


def large(c):
    """Many key rates at once, and many more later: none is lost and the shift stays parallel."""
    rng = c.rng
    dcc = rng.choice(O.DCCS[:4])
    base = G.rdate(rng, 2000, 2030)
    n = rng.choice([40, 70, 130, 260, 400])
    ds = [base + timedelta(days=7 * d) for d in rng.sample(range(1200), n + 30)]
    first, later = ds[:n], ds[n:]
    c.note(dcc=dcc, size=n)
    col = KeyRateCollection(KeyRate(G.DCC[dcc], d) for d in first)
    m = Model(dcc, {d: 0.0001 for d in first})
    for _ in range(2):
        c.same('walk', [next(col).key_rate_date for _ in first], sorted(first))
        c.raises('end', StopIteration, lambda: next(col))
    probe(c, col, m, 3)
    for d in rng.sample(first, 4):      # dates the collection has already, from all over it, change nothing
        col += KeyRate(G.DCC[dcc], d)
        col.append(KeyRate(G.DCC[dcc], d))
        col += [KeyRate(G.DCC[dcc], d), KeyRate(G.DCC[dcc], first[0])]
    c.same('held-already', [k.key_rate_date for k in col], sorted(first))
    how = rng.choice(['one', 'many', 'sum'])
    if how == 'one':
        for d in later:
            col += KeyRate(G.DCC[dcc], d)
    elif how == 'many':
        col += [KeyRate(G.DCC[dcc], d) for d in later]
    else:
        col = col + KeyRateCollection(KeyRate(G.DCC[dcc], d) for d in later)
    m.bumps.update({d: 0.0001 for d in later})
    probe(c, col, m, 3)
    a = rng.randrange(1, n // 2)
    del col[a:-a]
    keep = m.dates()
    del keep[a:-a]
    m.bumps = {d: 0.0001 for d in keep}
    probe(c, col, m, 3)
    c.event('large')


DRIVERS = [Driver('histories', histories, 400, 10000, {'added': 300, 'replaced': 100, 'removed': 100, 're-bumped': 50, 'sliced': 50, 'slice-removed': 40, 'parallel': 2000,
                                                       'refused': 30, 'not-emptied': 50, 'operand-re-read': 100}),
           Driver('copies', copies, 80, 1500, {'copied': 80}),
           Driver('large', large, 24, 200, {'large': 20}),
           Driver('stepping', stepping, 60, 800, {'walk': 60})]
