"""C13: adjusted cost base and capital gains of a taxable account."""
from forecaster.canada.accounts import TaxableAccount, PrincipleResidence
from harness.common import person, growth, YEAR

BOUNDS = ('0 to 3 transactions a year at symbolic distinct or fixed timings '
          'in every insertion order, symbolic amounts, opening balance, cost '
          'base and rate in [-0.5, 1] (annual compounding); up to 3 '
          'consecutive years; withdrawals never exceed the balance.')
ASSUMPTIONS = ['exact real arithmetic; fractional powers abstracted',
               'the balance before every withdrawal is positive and covers '
               'it']
AMT = 100000


def account(ctx, acb=True, cls=TaxableAccount, lo=0, **kw):
    bal = ctx.real('balance', lo, AMT)
    rate = ctx.real('rate', -0.5, 1)
    c = ctx.real('acb', 0, AMT) if acb else bal
    a = cls(person(), balance=bal, rate=rate, nper=1,
            **(dict(acb=c) if acb else {}), **kw)
    return a, bal, rate, c


def model(ctx, bal, rate, acb, flows):
    """(capital gain, next cost base): flows sorted by distinct time."""
    gain = 0
    for i, (t, v) in enumerate(flows):
        if v >= 0:
            acb = acb + v
        else:
            before = bal * growth(ctx, rate, 1, t)
            for s, w in flows[:i]:
                before = before + w * growth(ctx, rate, 1, t - s)
            ctx.assume(before >= 1)
            ctx.assume(before >= -v)
            gain = gain + -v * (1 - acb / before)
            acb = acb * (1 - (-v / before))
    return gain, acb


def amounts(ctx, n, kinds, prefix='v'):
    vs = []
    for i in range(n):
        v = ctx.real('%s%d' % (prefix, i), 0, AMT)
        vs.append(-v if kinds[i] == '-' else v)
    return vs


def year(ctx, kinds, order, free=True, acb=True):
    """One year's gain and the next cost base follow the sequence of
    transactions in time order, whatever order they are added in."""
    n = len(kinds)
    a, bal, rate, c = account(ctx, acb)
    ts = [ctx.real('t%d' % i, 0, 1) for i in range(n)] if free else \
        [ctx.num(x) for x in (0, 0.5, 1)][:n]
    for i in range(n - 1):
        ctx.assume(ts[i] < ts[i + 1])
    vs = amounts(ctx, n, kinds)
    gain, nxt = model(ctx, bal, rate, c, list(zip(ts, vs)))
    ctx.check(ctx.eq(a.acb, c), 'cost base at the start')
    for i in order:
        a.add_transaction(vs[i], ts[i])
    ctx.check(ctx.eq(a.capital_gain, gain), 'capital gain')
    ctx.check(ctx.eq(a.taxable_income, gain / 2), 'half the gain is taxable')
    ctx.check(ctx.eq(a.acb, c), 'this year starts with the same cost base')
    a.next_year()
    ctx.check(ctx.eq(a.acb, nxt), 'next cost base')
    ctx.check(ctx.eq(a.capital_gain_history[YEAR], gain), 'gain is kept')
    ctx.check(ctx.eq(a.taxable_income_history[YEAR], gain / 2),
              'taxable income is kept')
    ctx.check(ctx.eq(a.acb_history[YEAR], c), 'cost base is kept')
    ctx.check(ctx.eq(a.capital_gain, 0), 'no gain without withdrawals')


def proceeds(ctx, kinds):
    """Whatever the path: gain = proceeds minus the cost base given up, and
    the cost base stays between 0 and what was paid in."""
    n = len(kinds)
    a, bal, rate, c = account(ctx, lo=1)
    vs = amounts(ctx, n, kinds)
    ts = [ctx.num(x) for x in (0, 0.5, 1)][:n]
    model(ctx, bal, rate, c, list(zip(ts, vs)))    # domain only
    for t, v in zip(ts, vs):
        a.add_transaction(v, t)
    gain = a.capital_gain
    paid = ctx.sum([v for v, k in zip(vs, kinds) if k == '+'])
    out = ctx.sum([-v for v, k in zip(vs, kinds) if k == '-'])
    a.next_year()
    ctx.check(ctx.eq(gain, out - (c + paid - a.acb)), 'proceeds minus cost')
    ctx.check(ctx.ge(a.acb, 0), 'cost base is not negative')
    ctx.check(ctx.le(a.acb, c + paid), 'cost base only grows by payments')


def sell_all(ctx):
    """Selling everything realizes the whole gain and leaves no cost base."""
    a, bal, rate, c = account(ctx, lo=1)
    t = ctx.real('t', 0, 1)
    now = a.balance_at_time(t)
    a.add_transaction(-now, t)
    ctx.check(ctx.eq(a.capital_gain, now - c), 'whole gain')
    ctx.check(ctx.eq(a.balance_at_time(t), 0), 'no money left')
    a.next_year()
    ctx.check(ctx.eq(a.acb, 0), 'no cost base left')


def changed(ctx, how):
    """The gain follows the transactions even after it has been read."""
    a, bal, rate, c = account(ctx, lo=1)
    vs = amounts(ctx, 2, '+-')
    ts = [ctx.num(0), ctx.num(1)]
    none = model(ctx, bal, rate, c, [])
    one = model(ctx, bal, rate, c, [(ts[1], vs[1])])
    both = model(ctx, bal, rate, c, list(zip(ts, vs)))
    ctx.check(ctx.eq(a.capital_gain, none[0]), 'gain before')
    a.add_transaction(vs[1], ts[1])
    ctx.check(ctx.eq(a.capital_gain, one[0]), 'gain after one')
    ctx.check(ctx.eq(a.taxable_income, one[0] / 2), 'income after one')
    want = both
    if how == 'add':
        a.add_transaction(vs[0], ts[0])
    elif how == 'set':
        a.add_transaction(-vs[1], ts[0])
        a.capital_gain
        a[ts[0]] = vs[0]
    elif how == 'del':
        a.add_transaction(vs[0], ts[0])
        a.capital_gain
        del a[ts[0]]
        want = one
    elif how == 'clear':
        a.clear()
        want = none
    ctx.check(ctx.eq(a.capital_gain, want[0]), 'gain after the change')
    a.next_year()
    ctx.check(ctx.eq(a.acb, want[1]), 'cost base after the change')
    ctx.check(ctx.eq(a.capital_gain_history[YEAR], want[0]), 'kept')


def years(ctx, plan, read):
    """Cost base carries over from year to year, read or not."""
    a, bal, rate, c = account(ctx, acb=False, lo=1)
    for k, kinds in enumerate(plan):
        vs = amounts(ctx, len(kinds), kinds, 'v%d_' % k)
        ts = [ctx.num(x) for x in (0, 0.5)][:len(kinds)]
        gain, nxt = model(ctx, bal, rate, c, list(zip(ts, vs)))
        for t, v in zip(ts, vs):
            a.add_transaction(v, t)
            if read:
                a.capital_gain
        a.next_year()
        ctx.check(ctx.eq(a.capital_gain_history[YEAR + k], gain), 'gain')
        ctx.check(ctx.eq(a.acb, nxt), 'cost base')
        bal, c = a.balance, nxt


def given(ctx, what):
    """Inputs for a year replace the computed values and nothing else."""
    x = ctx.real('input', 0, AMT)
    a, bal, rate, c = account(ctx, lo=1, inputs={what: {YEAR + 1: x}})
    for k in range(2):
        v = -ctx.real('v%d' % k, 0, AMT)
        gain, nxt = model(ctx, a.balance, rate, c, [(ctx.num(0), v)])
        a.capital_gain
        a.add_transaction(v, 0)
        if k == 1 and what == 'capital_gain':
            gain = x
        ctx.check(ctx.eq(a.capital_gain, gain), 'gain')
        a.next_year()
        c = x if what == 'acb' and k == 0 else nxt
        ctx.check(ctx.eq(a.acb, c), 'cost base')
        ctx.check(ctx.eq(a.capital_gain_history[YEAR + k], gain), 'kept')


def home(ctx):
    """Gains on a principal residence are not taxed."""
    a = PrincipleResidence(person(), balance=ctx.real('balance', 1, AMT),
                           rate=ctx.real('rate', -.5, 1), nper=1)
    a.add_transaction(ctx.real('v', -AMT, AMT), ctx.real('t', 0, 1))
    ctx.check(ctx.eq(a.taxable_income, 0), 'no taxable income')
    a.next_year()
    ctx.check(ctx.eq(a.taxable_income_history[YEAR], 0), 'kept')


def tasks(tier):
    full = tier == 'thorough'
    t = [(year, dict(kinds='', order=[])), (year, dict(kinds='', order=[],
                                                      acb=False))]
    for k in ('+', '-'):
        t.append((year, dict(kinds=k, order=[0], acb=k == '-')))
    for k in ('++', '+-', '-+', '--'):
        t += [(year, dict(kinds=k, order=[0, 1])),
              (year, dict(kinds=k, order=[1, 0], free=full))]
        t.append((proceeds, dict(kinds=k)))
    for k in ('+-+', '-+-', '+--', '--+'):
        t.append((year, dict(kinds=k, order=[2, 0, 1], free=False)))
    t += [(sell_all, {}), (home, {})]
    t += [(changed, dict(how=h)) for h in ('add', 'set', 'del', 'clear')]
    t += [(years, dict(plan=['+-', '-', '+'], read=r)) for r in (False, True)]
    t += [(given, dict(what=w)) for w in ('acb', 'capital_gain')]
    if full:
        import itertools
        for k in itertools.product('+-', repeat=3):
            k = ''.join(k)
            for o in itertools.permutations(range(3)):
                t.append((year, dict(kinds=k, order=list(o), free=False)))
            t.append((year, dict(kinds=k, order=[1, 2, 0], free=True)))
            t.append((proceeds, dict(kinds=k)))
    return t
