"""L01: loan schedules: date rule, interest on the outstanding balance, conservation of principal, payoff cap, annuity."""
from datetime import date, timedelta

from dateutil.relativedelta import relativedelta

from .. import gen as G, oracle as O
from ..harness import Driver, Stop
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentTime

RULE = ('Random loans (principal, rate including zero, origination on ordinary and month-end days, term, frequency, day count, payment position) '
        'with level, small, large and irregular payments and extra payments (fixed, listed, too short, too long, as iterators); every schedule is '
        'replayed against an independent balance ledger; distinct by (origination, term, frequency, position, payment kind).')
ASSUMPTIONS = ['Terms are whole numbers of payment periods (others: any number of months or of days) where the exact payoff of the level payment is judged.',
               'Payments and extra payments are not negative.']
MONTHS = {'MONTHLY': 1, 'QUARTERLY': 3, 'SEMI_ANNUAL': 6, 'ANNUAL': 12}
PER_YEAR = {k: 12 // v for k, v in MONTHS.items()}


def eom(d):
    return O.add_months(d.replace(day=1), 1) - timedelta(days=1)


def term_end(p, d):
    """The date one term after d: calendar months, or days where the term is a number of days."""
    return d + timedelta(days=p['days']) if p.get('days') else O.add_months(d, p['months'])


def ref_dates(p):
    """Accrual start followed by the payment dates."""
    o = p['origination']
    if p['time'] == 'END_OF_MONTH':
        s = eom(o)
        pos = eom
    else:
        s = O.add_months(o.replace(day=1), 1)
        pos = lambda d: d
    end = pos(term_end(p, s))
    out, k = [], 0
    while True:
        d = pos(O.add_months(s, k * MONTHS[p['freq']]))
        if d > end:
            return out
        out.append(d)
        k += 1


def origination(rng):
    if rng.random() < 0.15:      # first and last days of months and years
        d = date(rng.randint(1995, 2045), rng.choice([1, 2, 3, 6, 11, 12, 12]), 1)
        return rng.choice([d, eom(d)])
    return G.rdate(rng, 1995, 2045)


def params(c, max_months=400):
    rng = c.rng
    freq = rng.choice(['MONTHLY', 'MONTHLY', 'QUARTERLY', 'SEMI_ANNUAL', 'ANNUAL'])
    months = rng.choice([12, 24, 60, 120, 360, MONTHS[freq] * rng.randint(1, max_months // MONTHS[freq]), rng.randint(1, 120)])
    months = min(months, max_months)
    days = rng.choice([months * 30, months * 31 + rng.randint(0, 30), rng.randint(31, 30 * months + 31)]) if rng.random() < 0.12 else 0
    if days and rng.random() < 0.3:
        days = 365 * max(1, days // 365)
    return dict(days=days, principal=rng.choice([100, 250_000.0, 558_750.0, round(rng.uniform(1, 1e6), 2)]),
                rate=rng.choice([0.0, 0.01, 0.06125, 0.2, rng.choice([1e-4, 1e-5, 5e-4]), rng.uniform(0.0001, 0.15), rng.uniform(0.0001, 0.15), -rng.uniform(0.0005, 0.01)]), origination=origination(rng),
                months=months, dcc=rng.choice(O.DCCS + ['THIRTY_OVER_THREESIXTY'] * 3), freq=freq, time=rng.choice(['END_OF_MONTH', 'START_OF_MONTH']))


def term_of(rng, months):
    if months % 12 == 0 and rng.random() < 0.6:
        return relativedelta(years=months // 12)
    if rng.random() < 0.3:
        return relativedelta(years=months // 12, months=months % 12)
    return relativedelta(months=months)


def build(c, p):
    term = timedelta(days=p['days']) if p['days'] else term_of(c.rng, p['months'])
    kw = {}
    if p['dcc'] != 'THIRTY_OVER_THREESIXTY' or c.rng.random() < 0.6:
        kw['day_count_convention'] = G.DCC[p['dcc']]
    if p['freq'] != 'MONTHLY' or c.rng.random() < 0.6:
        kw['payment_frequency'] = G.freq(p['freq'])
    if p['time'] != 'END_OF_MONTH' or c.rng.random() < 0.6:
        kw['payment_time'] = PaymentTime[p['time']]
    return Loan(p['principal'], p['rate'], p['origination'], term, **kw)


def annuity(p):
    years = O.frac(p['origination'], term_end(p, p['origination']), p['dcc'])
    n, i = years * PER_YEAR[p['freq']], p['rate'] / PER_YEAR[p['freq']]
    if p['rate'] == 0:
        return p['principal'] / n
    return p['principal'] * i / (1 - (1 + i) ** -n)


def ledger(c, p, schedule, pay, extras, dates):
    """Replays the schedule against the balance it should leave, payment by payment."""
    tol = 1e-9 * max(1.0, p['principal'])
    c.same('payment-dates', [q.payment_date for q in schedule], dates[1:])
    if len(schedule) != len(dates) - 1:
        raise Stop
    bal, done = p['principal'], False
    for k, q in enumerate(schedule):
        interest = bal * p['rate'] * O.frac(dates[k], dates[k + 1], p['dcc'])
        c.eq('interest-on-outstanding', q.interest_payment, interest, 1e-8, tol, k=k, balance=bal)
        want = pay - interest + extras[k]
        # the payment is interest plus principal, the extra payment coming on top of it until the loan is paid off
        extra = extras[k] if not done and want < bal else 0.0
        c.eq('split', q.interest_payment + q.principal_payment - extra, q.payment, 0, 10 * tol, k=k, extra=extra)
        c.ok('never-more-than-owed', q.principal_payment <= bal + tol, k=k, principal=q.principal_payment, balance=bal)
        if done:
            c.ok('nothing-follows-payoff', abs(q.payment) <= tol and abs(q.principal_payment) <= tol and abs(q.interest_payment) <= tol, k=k, payment=repr(q))
            c.event('after-payoff')
        else:
            c.eq('principal-part', q.principal_payment, min(want, bal), 1e-8, 10 * tol, k=k)
            if want < bal - tol:
                c.eq('payment', q.payment, pay, 1e-9, tol, k=k)
        if not done and want >= bal - 1e-7 * p['principal']:
            c.event('payoff')
            done = abs(bal - q.principal_payment) <= 1e-6 * p['principal']
        bal -= q.principal_payment
        if done:
            bal = 0.0 if abs(bal) < 1e-6 * p['principal'] else bal
    c.eq('principal-conserved', sum(q.principal_payment for q in schedule), p['principal'] - bal, 1e-9, 100 * tol)
    c.event('payments', len(schedule))
    return bal


def rextras(rng, n, principal):
    kind = rng.choice(['none', 'none', 'float', 'int', 'list', 'short', 'long', 'iterator', 'spike'])
    amt = lambda: rng.choice([0.0, rng.uniform(0, principal * 0.05)])
    if kind == 'none':
        return kind, None, [0.0] * n
    if kind == 'float':
        x = float(amt())
        return kind, x, [x] * n
    if kind == 'int':
        x = int(amt())
        return kind, x, [x] * n
    m = n if kind in ('list', 'spike') else rng.randint(0, n) if kind == 'short' else n + rng.randint(1, 5) if kind == 'long' else rng.randint(0, n + 3)
    xs = [amt() for _ in range(m)]
    if kind == 'spike' and n:
        xs = [0.0] * n
        xs[rng.randrange(n)] = principal * rng.uniform(0.3, 1.5)
    exp = (xs + [0.0] * n)[:n]
    return kind, (iter(xs) if kind == 'iterator' else tuple(xs) if rng.random() < 0.3 else xs), exp


def schedules(c):
    rng = c.rng
    p = params(c)
    dates = ref_dates(p)
    loan = build(c, p)
    for _ in range(2):
        kind = rng.choice(['level', 'level', 'small', 'large', 'any'])
        level = annuity(p)
        pay = {'level': level, 'small': level * rng.uniform(0.2, 0.99), 'large': level * rng.uniform(1.0, 3), 'any': p['principal'] * rng.uniform(0, 0.6)}[kind]
        ek, given, extras = rextras(rng, len(dates) - 1, p['principal'])
        c.note(**p, payment=pay, kind=kind, extras=ek, extra_values=extras[:12])
        kept = list(given) if isinstance(given, list) else None
        if given is None and rng.random() < 0.5:
            sched = loan.generate_payment_schedule(pay)
        else:
            sched = loan.generate_payment_schedule(pay, given)
        ledger(c, p, sched, pay, extras, dates)
        if kept is not None:
            c.same('extras-untouched', given, kept)
        c.event('schedule')
        if p['days']:
            c.event('term-in-days')
        if any(extras):
            c.event('extra')
        c.seen(p['origination'], p['months'], p['freq'], p['time'], kind, ek)
    c.eq('principal-untouched', loan.principal, p['principal'], 0, 0)


def payoff(c):
    """The level payment is the annuity and, under 30/360, pays the loan off exactly on the last date."""
    rng = c.rng
    p = params(c)
    if p['days']:
        c.note(**p)
        c.eq('annuity', build(c, p).calculate_fixed_payment_amount(), annuity(p), 1e-9, 1e-9)
        c.event('term-in-days')
        p['days'] = 0
    p['months'] -= p['months'] % MONTHS[p['freq']]
    if not p['months']:
        p['months'] = MONTHS[p['freq']]
    c.note(**p)
    loan = build(c, p)
    level = loan.calculate_fixed_payment_amount()
    c.eq('annuity', level, annuity(p), 1e-9, 1e-9)
    c.event('annuity')
    if p['rate'] == 0:
        c.event('zero-rate')
    if p['dcc'] == 'THIRTY_OVER_THREESIXTY':
        sched = loan.generate_payment_schedule(level)
        o = p['origination']
        exact = O.frac(o, O.add_months(o, p['months']), p['dcc']) * 12
        if abs(exact - p['months']) < 1e-9:      # the term itself counts whole periods (30/360 clips some month ends)
            n = p['months'] // MONTHS[p['freq']]
            # each accrual period is exactly one period under 30/360 at the first of the month
            even = all(abs(O.frac(a, b, p['dcc']) * PER_YEAR[p['freq']] - 1) < 1e-12 for a, b in zip(ref_dates(p), ref_dates(p)[1:]))
            if even:
                c.same('number-of-payments', len(sched), n)
                c.eq('paid-off', sum(q.principal_payment for q in sched), p['principal'], 1e-9, 1e-6)
                for q in sched:
                    c.eq('every-payment-level', q.payment, level, 1e-6, 1e-6)
                c.ok('not-before-the-last', sum(q.principal_payment for q in sched[:-1]) < p['principal'] * (1 - 1e-9) or n == 1)
                c.event('exact-payoff')
    c.seen(p['origination'], p['months'], p['freq'], p['time'], p['rate'])


def values(c):
    rng = c.rng
    p = params(c, 120)
    dates = ref_dates(p)
    today = rng.choice([p['origination'], dates[0], p['origination'] - timedelta(days=30), rng.choice(dates), dates[0] + timedelta(days=rng.randint(0, 900))])
    disc, mod = G.discount_pair(rng, today, max(60, (dates[-1] - today).days + 10), right='CONSTANT')
    c.note(**p, reference=today)
    loan = build(c, p)
    level, bal, exp = annuity(p), p['principal'], 0.0
    total = 0.0
    for a, b in zip(dates, dates[1:]):
        i = bal * p['rate'] * O.frac(a, b, p['dcc'])
        prin = min(level - i, bal)
        pay = level if level - i < bal else prin + i
        if b >= today:
            exp += pay * mod(b)
        total += pay
        bal -= prin
        if bal <= 1e-9 * p['principal']:
            bal = 0.0
    c.eq('present-value', loan.present_value(disc), exp, 1e-8, 1e-8 * p['principal'])
    c.eq('present-value-by-curve', disc.present_value(loan), exp, 1e-8, 1e-8 * p['principal'])
    c.event('value')
    if today > dates[1] if len(dates) > 1 else False:
        c.event('past-payment')
    c.seen(p['origination'], p['months'], p['freq'], round(exp, 6))


def refused(c):
    rng = c.rng
    p = params(c, 60)
    for kw in (dict(payment_time=PaymentTime.FIXED_DATE), dict(payment_frequency=G.freq('ZERO_COUPON'))):
        loan = Loan(p['principal'], p['rate'], p['origination'], relativedelta(months=p['months']), **kw)
        c.raises('refused', ValueError, lambda: loan.generate_payment_schedule(10.0), kw=str(kw))
        c.event('refused')
    c.seen(p['origination'], p['months'])


DRIVERS = [Driver('schedules', schedules, 400, 8000, {'schedule': 700, 'payoff': 150, 'after-payoff': 500, 'extra': 150, 'payments': 10000, 'term-in-days': 40}),
           Driver('payoff', payoff, 300, 6000, {'annuity': 250, 'exact-payoff': 40, 'zero-rate': 10}),
           Driver('values', values, 160, 3000, {'value': 140, 'past-payment': 20}),
           Driver('refused', refused, 20, 300, {'refused': 30})]
