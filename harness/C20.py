"""C20: living expenses follow the chosen rule."""
from forecaster.accounts import Account
from forecaster.strategy import (
    LivingExpensesStrategy, LivingExpensesStrategySchedule)
from harness.common import person, inflation, YEAR

BOUNDS = ('every rule, with 1 to 3 people with symbolic gross and net '
          'incomes, 0 to 2 accounts each with symbolic balances, symbolic '
          'base amounts (also negative), rates and price indices, in the '
          'retirement year and up to 2 years after it; strategies used before for other people, years and settings; '
          'schedules of two '
          'symbolic rules around the retirement year, with and without a '
          'minimum.')
ASSUMPTIONS = ['exact real arithmetic']
AMT = 100000

RULES = {
    'Constant contribution': lambda v: v['net'] - v['base'] * v['adj'],
    'Constant living expenses': lambda v: v['base'] * v['adj'],
    'Percentage of net income': lambda v: v['rate'] * v['net'],
    'Percentage of gross income': lambda v: v['rate'] * v['gross'],
    'Percentage of earnings growth': lambda v: (
        v['base'] * v['adj'] + v['rate'] * (v['net'] - v['base'] * v['adj'])),
    'Percentage of principal at retirement': lambda v: (
        v['rate'] * v['principal'] * v['since']),
    'Percentage of net income at retirement': lambda v: (
        v['rate'] * v['net_then'] * v['since']),
    'Percentage of gross income at retirement': lambda v: (
        v['rate'] * v['gross_then'] * v['since']),
}


def world(ctx, people, accounts, after, spend=False):
    """People `after` years past the retirement year YEAR."""
    v = dict(gross=0, net=0, gross_then=0, net_then=0, principal=0)
    crowd = []
    for i in range(people):
        tax = ctx.real('tax%d' % i, 0, 1)
        p = person(name='P%d' % i, gross_income=ctx.real('g%d' % i, 0, AMT),
                   raise_rate={y: ctx.real('raise%d_%d' % (i, y), -1, 1)
                               for y in range(YEAR, YEAR + after + 1)},
                   tax_treatment=lambda x, y, tax=tax: x * tax)
        crowd.append(p)
        v['gross_then'] = v['gross_then'] + p.gross_income
        v['net_then'] = v['net_then'] + p.gross_income * (1 - tax)
        own = [Account(p, balance=ctx.real('b%d_%d' % (i, j), -AMT, AMT),
                       rate=ctx.real('r%d_%d' % (i, j), -.5, 1), nper=1)
               for j in range(accounts)]
        for a in own:
            v['principal'] = v['principal'] + a.balance
            if spend:           # what is done later makes no difference
                a.add_transaction(
                    ctx.real('spend%d' % i, -2 * AMT, 2 * AMT), 0)
        gross = p.gross_income
        for k in range(after):
            gross = gross * (1 + p.raise_rate_callable(YEAR + k + 1))
            p.next_year()
            for a in own:
                a.next_year()
        v['gross'] = v['gross'] + gross
        v['net'] = v['net'] + gross * (1 - tax)
    idx, adjust = inflation(ctx, range(YEAR, YEAR + after + 1))

    def inflation_adjust(target_year, base_year=None):
        if base_year is None:
            return idx[target_year]
        return adjust(target_year, base_year)
    v['adj'] = idx[YEAR + after]
    v['since'] = idx[YEAR + after] / idx[YEAR]
    v['base'] = ctx.real('base', -AMT, AMT)
    v['rate'] = ctx.real('rate', 0, 2)
    return crowd, v, inflation_adjust


def rule(ctx, name, people, accounts=1, after=1, infl=True, spend=False):
    crowd, v, adjust = world(ctx, people, accounts, after, spend)
    s = LivingExpensesStrategy(
        name, base_amount=v['base'], rate=v['rate'],
        inflation_adjust=adjust if infl else None)
    if not infl:
        v['adj'] = v['since'] = 1
    want = ctx.max(RULES[name](v), 0)
    if people > 1:
        # used before for others, with other settings
        s.base_amount, s.rate = ctx.num(3000), ctx.num(0.5)
        s(people={crowd[0]}, year=YEAR, retirement_year=YEAR)
        s.base_amount, s.rate = v['base'], v['rate']
    got = s(people=set(crowd), year=YEAR + after, retirement_year=YEAR)
    ctx.check(ctx.eq(got, want), 'amount')
    ctx.check(ctx.ge(got, 0), 'never negative')
    again = s(people=set(crowd), year=YEAR + after, retirement_year=YEAR)
    ctx.check(ctx.eq(got, again), 'same answer again')


def schedule(ctx, names, minimum, after, nested=False):
    """Working rule up to the retirement year, the other one after it."""
    crowd, v, adjust = world(ctx, 1, 1, 1)
    kw = [dict(base_amount=ctx.real('base%d' % i, 0, AMT),
               rate=ctx.real('rate%d' % i, 0, 1), inflation_adjust=adjust)
          for i in range(3)]
    s = [LivingExpensesStrategy(n, **k) for n, k in zip(names, kw)]
    floor = None
    if minimum:
        floor = LivingExpensesStrategy('Constant living expenses', **kw[2])
        if nested:
            floor = LivingExpensesStrategySchedule(floor, s[1])
    sched = LivingExpensesStrategySchedule(s[0], s[1], minimum=floor)
    year = YEAR + 1
    retire = year - after if after is not None else None
    if retire is not None and retire < YEAR:
        retire = YEAR
    args = dict(people=set(crowd), year=year, retirement_year=retire)
    got = sched(**args)
    retired = retire is not None and year > retire

    def amount(i):
        w = dict(v, base=kw[i]['base_amount'], rate=kw[i]['rate'])
        n = names[i] if i < 2 else 'Constant living expenses'
        return ctx.max(RULES[n](w), 0)
    want = amount(1 if retired else 0)
    if minimum:
        want = ctx.max(want, amount(1 if nested and retired else 2))
    ctx.check(ctx.eq(got, want), 'amount by the schedule')


def scale(ctx, name):
    """More income (or a higher base or rate) never means spending less,
    except that a higher fixed contribution leaves less."""
    crowd, v, adjust = world(ctx, 1, 1, 0)
    more = ctx.real('more', 0, AMT)
    p = crowd[0]
    a = LivingExpensesStrategy(name, base_amount=v['base'], rate=v['rate'],
                               inflation_adjust=adjust)
    ctx.assume(v['base'] >= 0)
    ctx.assume(v['rate'] <= 1)
    before = a(people={p}, year=YEAR, retirement_year=YEAR)
    a.base_amount = v['base'] + more
    after = a(people={p}, year=YEAR, retirement_year=YEAR)
    if name == 'Constant contribution':
        ctx.check(ctx.le(after, before), 'contributing more leaves less')
    else:
        ctx.check(ctx.ge(after, before), 'higher base')
    a.base_amount = v['base']
    net = p.net_income
    p.net_income = net + more
    richer = a(people={p}, year=YEAR, retirement_year=YEAR)
    ctx.check(ctx.ge(richer, before), 'more income')
    ctx.check(ctx.le(richer - before, more), 'not more than the raise')


def tasks(tier):
    full = tier == 'thorough'
    t = []
    for n in RULES:
        t += [(rule, dict(name=n, people=1)), (rule, dict(name=n, people=2)),
              (rule, dict(name=n, people=1, accounts=2, after=2)),
              (rule, dict(name=n, people=1, after=0)),
              (rule, dict(name=n, people=1, infl=False)),
              (rule, dict(name=n, people=1, spend=True)),
              (scale, dict(name=n))]
    W, R = 'Constant contribution', 'Percentage of principal at retirement'
    for after in (None, -1, 0, 1):
        for m in (False, True):
            t += [(schedule, dict(names=[W, R], minimum=m, after=after)),
                  (schedule, dict(names=['Percentage of gross income',
                                         'Constant living expenses'],
                                  minimum=m, after=after))]
        t += [(schedule, dict(names=[W, 'Percentage of net income'],
                              minimum=True, after=after, nested=True))]
    if full:
        for n in RULES:
            t += [(rule, dict(name=n, people=3, accounts=2, after=a))
                  for a in (0, 1, 2)]
            t += [(rule, dict(name=n, people=2, accounts=0, after=2))]
    return t
