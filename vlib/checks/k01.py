import copy
from datetime import timedelta

from .. import gen as G, oracle as O
from ..harness import Driver
from fixedIncome.src.risk.key_rate import KeyRate

RULE = ('Random key rates (both, one or no neighbour, spacings from days to years, every day count) through random histories of bump and '
        'neighbour changes, read at the key date, the neighbours, one day around them, in between and far away; distinct by '
        '(neighbours, key date, day count, bump, date) strictly between neighbours.')
ASSUMPTIONS = ['Under 30/360 neighbours lie at least three days apart (closer dates can coincide on that axis).']


def probe(c, kr, st, n=10):
    rng = c.rng
    prev, key, nxt, dcc, bump = st
    marks = [d for d in (prev, key, nxt) if d is not None]
    lo, hi = min(marks) - timedelta(days=40), max(marks) + timedelta(days=40)
    dates = list(marks) + [d + timedelta(days=s) for d in marks for s in (-1, 1)] + [lo - timedelta(days=3000), hi + timedelta(days=3000)]
    dates += [lo + timedelta(days=rng.randint(0, (hi - lo).days)) for _ in range(n)]
    for d in dates:
        exp = O.tent(d, prev, key, nxt, dcc, bump)
        c.eq('tent', kr(d), exp, 1e-9, 1e-13 + 1e-11 * abs(bump), date=d, prior=prev, key_date=key, next=nxt, dcc=dcc, bump=bump)
        c.eq('tent-function', kr.adjustment_fxcn(d), exp, 1e-9, 1e-13 + 1e-11 * abs(bump), date=d)
        c.event('read')
        if (prev is None or d > prev) and (nxt is None or d < nxt) and d != key:
            c.seen(prev, key, nxt, dcc, bump, d)
    c.eq('full-at-key-date', kr(key), bump, 1e-14, 0)
    for d in (prev, nxt):
        if d is not None:
            c.same('zero-at-neighbour', kr(d), 0.0)
    c.same('attributes', (kr.prior_date, kr.key_rate_date, kr.next_date, kr.day_count_convention.name, kr.bump_val), (prev, key, nxt, dcc, bump))
    c.event(('both' if prev and nxt else 'first' if nxt else 'last' if prev else 'alone'))


def histories(c):
    rng = c.rng
    key = G.rdate(rng, 2000, 2040)
    dcc = rng.choice(O.DCCS)
    gap = lambda: timedelta(days=rng.choice([rng.randint(3, 9), rng.randint(3, 400), rng.randint(300, 4000)]))
    prev = key - gap() if rng.random() < 0.6 else None
    nxt = key + gap() if rng.random() < 0.6 else None
    st = [prev, key, nxt, dcc, 0.0001]
    kr = KeyRate(G.DCC[dcc], key, prior_date=prev, next_date=nxt) if rng.random() < 0.7 else KeyRate(G.DCC[dcc], key, prev, nxt)
    other = KeyRate(G.DCC[dcc], key, prev, nxt)
    hist = []
    c.note(state=list(st), history=hist)
    probe(c, kr, st)
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(['bump', 'prior', 'next', 'bad-prior', 'bad-next', 'rebuild'])
        if op == 'bump':
            st[4] = rng.choice([0.0, 0.0001, -0.0001, 0.01, rng.uniform(-1, 1)])
            kr.set_bump_val(st[4])
        elif op == 'prior':
            st[0] = key - gap() if rng.random() < 0.75 else None
            kr.set_prior_date(st[0])
        elif op == 'next':
            st[2] = key + gap() if rng.random() < 0.75 else None
            kr.set_next_date(st[2])
        elif op == 'bad-prior':
            bad = key + timedelta(days=rng.choice([0, 0, 1, 50]))
            c.raises('prior-not-before-key-date', ValueError, lambda: kr.set_prior_date(bad), prior=bad, key_date=key)
            c.event('refused')
        elif op == 'bad-next':
            bad = key - timedelta(days=rng.choice([0, 0, 1, 50]))
            c.raises('next-not-after-key-date', ValueError, lambda: kr.set_next_date(bad), next=bad, key_date=key)
            c.event('refused')
        else:
            kr.create_adjustment_function()
        hist.append((op, list(st)))
        probe(c, kr, st)
    probe(c, other, [prev, key, nxt, dcc, 0.0001], 3)     # another key rate of the same date is not affected


def copies(c):
    """A copy is a key rate of its own: each follows its own bump and dates, through any changes of the other."""
    rng = c.rng
    key = G.rdate(rng, 2000, 2040)
    dcc = rng.choice(O.DCCS)
    gap = lambda: timedelta(days=rng.choice([rng.randint(3, 9), rng.randint(3, 400), rng.randint(300, 4000)]))
    st = [key - gap() if rng.random() < 0.6 else None, key, key + gap() if rng.random() < 0.6 else None, dcc, 0.0001]
    kr = KeyRate(G.DCC[dcc], key, st[0], st[2])
    if rng.random() < 0.5:
        st[4] = rng.uniform(-0.01, 0.01)
        kr.set_bump_val(st[4])
    pairs = [(kr, st)]
    hist = []
    c.note(state=list(st), history=hist)
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(pairs))
        k, s = pairs[i]
        op = rng.choice(['copy', 'deepcopy', 'bump', 'prior', 'next'])
        hist.append((op, i))
        if op in ('copy', 'deepcopy'):
            pairs.append((getattr(copy, op)(k), list(s)))
            c.event('copied')
        elif op == 'bump':
            s[4] = rng.uniform(-1, 1)
            k.set_bump_val(s[4])
        elif op == 'prior':
            s[0] = key - gap() if rng.random() < 0.7 else None
            k.set_prior_date(s[0])
        else:
            s[2] = key + gap() if rng.random() < 0.7 else None
            k.set_next_date(s[2])
        for k, s in pairs:
            probe(c, k, s, 2)
        c.same('equal-key-rates', all(k == kr and hash(k) == hash(kr) for k, _ in pairs), True)


def ordering(c):
    """Key rates compare by date, and are the same key rate when date and day count agree."""
    rng = c.rng
    a, b = G.rdate(rng, 2000, 2040), G.rdate(rng, 2000, 2040)
    if rng.random() < 0.3:
        b = a
    x, y = rng.choice(O.DCCS), rng.choice(O.DCCS)
    ka, kb = KeyRate(G.DCC[x], a), KeyRate(G.DCC[y], b, prior_date=b - timedelta(days=5), next_date=b + timedelta(days=9))
    kb.set_bump_val(rng.random())
    c.note(a=(a, x), b=(b, y))
    c.same('comparisons', (ka < kb, ka <= kb, ka > kb, ka >= kb), (a < b, a <= b, a > b, a >= b))
    c.same('equality', (ka == kb, ka != kb), ((a, x) == (b, y), (a, x) != (b, y)))
    if ka == kb:
        c.same('hash', hash(ka), hash(kb))
    c.same('singleton', [id(k) for k in ka], [id(ka)])
    c.event('compared')
    c.seen(a, b, x, y)


def shapes(c):
    """Linear in between: equal steps on the axis give equal steps of the bump; scaling the bump scales the shape."""
    rng = c.rng
    key = G.rdate(rng, 2000, 2040)
    n = rng.randint(4, 400)
    kr = KeyRate(G.DCC['ACTUAL_OVER_365'], key, key - timedelta(days=n), key + timedelta(days=2 * n))
    c.note(key=key, n=n)
    up = [kr(key + timedelta(days=k)) for k in range(-n, 2 * n + 1)]
    c.ok('rises-then-falls', all(p < q for p, q in zip(up[:n], up[1:n + 1])) and all(p > q for p, q in zip(up[n:-1], up[n + 1:])))
    c.eqv('even-steps', [q - p for p, q in zip(up[:n], up[1:n + 1])], [0.0001 / n] * n, 1e-7, 1e-15)
    c.eqv('even-steps-down', [p - q for p, q in zip(up[n:-1], up[n + 1:])], [0.00005 / n] * (2 * n), 1e-7, 1e-15)
    f = rng.uniform(-30, 30)
    kr.set_bump_val(0.0001 * f)
    c.eqv('rescaled', [kr(key + timedelta(days=k)) for k in range(-n, 2 * n + 1)], [f * v for v in up], 1e-9, 1e-16)
    c.event('shape')
    c.seen(key, n)


DRIVERS = [Driver('histories', histories, 300, 8000, {'both': 100, 'first': 100, 'last': 100, 'alone': 50, 'refused': 100}),
           Driver('copies', copies, 120, 2000, {'copied': 100}),
           Driver('ordering', ordering, 200, 3000, {'compared': 200}),
           Driver('shapes', shapes, 80, 1500, {'shape': 80})]
