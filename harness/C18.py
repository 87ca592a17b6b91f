"""C18: numbers of the chosen type throughout, object by object."""
from forecaster.accounts import Account, Debt, LinkedLimitAccount
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount
from forecaster.canada.tax import TaxCanada
from forecaster.strategy import AllocationStrategy, LivingExpensesStrategy
from forecaster.tax import Tax
from forecaster.utility import (
    Timing, HighPrecisionOptional, HighPrecisionOptionalProperty,
    HighPrecisionOptionalPropertyCached, when_conv)
from harness.common import person, YEAR
from harness.num import Hi, hi, plain, mixed

BOUNDS = ('attributes of 2 or 3 objects, each with or without its own '
          'converter (an arbitrary symbolic affine map), under every sequence '
          'of up to 4 operations out of {read, set value, set converter}; '
          'timings of 1 to 4 periods or 2 entries, accounts, debts, linked, '
          'taxable and registered accounts over 2 years with symbolic '
          'amounts, taxes and strategies, each run with ordinary numbers '
          'and with a number type that refuses to mix with float.')
ASSUMPTIONS = ['exact real arithmetic', 'annual compounding']
AMT = 1000


def isolated(ctx, cached, objects, ops, kinds):
    """An object reports its own value, through its own converter."""
    class Thing(HighPrecisionOptional):
        """ Two such attributes. """
        attr = (HighPrecisionOptionalPropertyCached if cached
                else HighPrecisionOptionalProperty)()
        other = (HighPrecisionOptionalPropertyCached if cached
                 else HighPrecisionOptionalProperty)()

    def conv(name):
        k, c = ctx.real(name + 'k', -3, 3), ctx.real(name + 'c', -AMT, AMT)
        return lambda x: x * k + c

    def make(i, kind):
        t = Thing(high_precision=conv('f%d' % i) if kind == 1 else None)
        t.attr = ctx.real('a%d' % i, -AMT, AMT)
        t.other = ctx.real('b%d' % i, -AMT, AMT)
        return t, [t.high_precision, t._attr, t._other]
    things = [make(i, kinds[i]) for i in range(objects)]
    if kinds[1] == 2:           # the same converter as the first
        t, m = things[1]
        t.high_precision = m[0] = things[0][1][0]
    for k in range(ops):
        t, m = things[ctx.pick('which%d' % k, range(objects))]
        op = ctx.pick('op%d' % k, ('read', 'set', 'convert', 'plain'))
        if op == 'set':
            m[1] = t.attr = ctx.real('v%d' % k, -AMT, AMT)
        elif op == 'convert':
            m[0] = t.high_precision = conv('g%d' % k)
        elif op == 'plain':
            m[0] = t.high_precision = None
        for t, m in (things if op != 'read' else [(t, m)]):
            f = m[0] or (lambda x: x)
            ctx.check(ctx.eq(t.attr, f(m[1])), 'own value, own converter')
            ctx.check(ctx.eq(t.other, f(m[2])), 'other attribute')


def compare(ctx, a, b, label):
    """Same values, of the right type."""
    if isinstance(a, dict):
        ctx.check(len(a) == len(b), label + ': same size')
        ka, kb = sorted(a), sorted(b, key=lambda k: k)
        for x, y in zip(ka, kb):
            ctx.check(ctx.eq(x, plain(y)), label + ': times')
            ctx.check(not mixed(y), label + ': type of times')
            ctx.check(ctx.eq(a[x], plain(b[y])), label)
            ctx.check(not mixed(b[y]), label + ': type')
    else:
        ctx.check(ctx.eq(a, plain(b)), label)
        ctx.check(not mixed(b), label + ': type')


def both(ctx, build):
    """Runs `build(c, hp)` with ordinary numbers and with Hi."""
    a = build(ctx.num, None)
    b = build(hi, hi)
    ctx.check([k for k, _ in a] == [k for k, _ in b], 'same outputs')
    for (k, x), (_, y) in zip(a, b):
        compare(ctx, x, y, k)


def timings(ctx, frequency, kind):
    w = ctx.real('when', 0, 1)
    vs = [ctx.real('v%d' % i, -AMT, AMT) for i in range(2)]
    amount = ctx.real('amount', -AMT, AMT)

    def build(c, hp):
        kw = dict(high_precision=hp)
        if kind == 'code':
            t = Timing(frequency, **kw)
        elif kind == 'default':
            t = Timing(**kw)
        elif kind == 'when':
            t = Timing(c(w), frequency, **kw)
        elif kind == 'str':
            t = Timing('start', frequency, **kw)
        else:
            t = Timing({c(0.25): c(vs[0]), c(0.75): c(vs[1])}, **kw)
        out = [('timing', dict(t))]
        if t and kind != 'dict':
            out += [('normalized', dict(t.normalized())),
                    ('spread', t.time_series(c(amount)))]
        return out
    both(ctx, build)


def account_outputs(a, c, x, t):
    """What a forecast reads from an account."""
    out = [('balance', a.balance), ('rate', a.rate),
           ('at time', a.balance_at_time(c(t))),
           ('returns', a.returns),
           ('inflows', a.inflows()), ('outflows', a.outflows()),
           ('income', a.taxable_income), ('withheld', a.tax_withheld),
           ('deduction', a.tax_deduction), ('credit', a.tax_credit),
           ('max outflows', a.max_outflows()),
           ('min outflows', a.min_outflows()),
           ('min inflows', a.min_inflows({c(t): c(1)})),
           ('max inflows', a.max_inflows(transaction_limit=c(x)))]
    return out


def accounts(ctx, kind, years=2, plain_raise=False):
    bal, rate = ctx.real('balance', 1, AMT), 0.05
    tx = [[ctx.real('tx%d_%d' % (y, i), 0, AMT) for i in range(2)]
          for y in range(years)]
    for a, b in tx:
        ctx.assume(b <= a)
    x = ctx.real('limit', 0, AMT)
    room = ctx.real('room', 0, AMT)
    inc = ctx.real('income', 0, 10 * AMT)

    def build(c, hp):
        kw = dict(high_precision=hp)
        p = person(gross_income=c(inc), birth=1938 if kind == 'RRIF' else 1980,
                   raise_rate=0.02 if plain_raise else c(0.02),
                   high_precision=hp)
        args = dict(balance=c(bal), rate=c(rate), **kw)
        if kind == 'Account':
            a = Account(p, **args)
        elif kind == 'Debt':
            a = Debt(p, minimum_payment=c(10), accelerated_payment=c(x), **args)
        elif kind == 'Linked':
            a = LinkedLimitAccount(
                p, max_inflow_link=(p, 'in'), max_inflow_limit=c(room),
                min_outflow_link=(p, 'out'), min_outflow_limit=c(-5), **args)
        elif kind == 'Taxable':
            a = TaxableAccount(p, acb=c(room), **args)
        elif kind in ('RRSP', 'RRIF'):
            a = RRSP(p, contribution_room=c(room),
                     inflation_adjust=lambda *_, **__: c(1), **args)
        else:
            a = TFSA(p, contribution_room=c(room),
                     inflation_adjust=lambda *_, **__: c(1), **args)
        out = []
        for y in range(years):
            a.add_transaction(c(tx[y][0]), 'start')
            a.add_transaction(c(-tx[y][1]) if kind != 'Debt'
                              else c(tx[y][1]), c(0.5))
            out += account_outputs(a, c, x, 0.75)
            out += [('person', p.gross_income), ('net', p.net_income),
                    ('person income', p.taxable_income)]
            if kind in ('RRSP', 'TFSA', 'RRIF'):
                out.append(('room', a.contribution_room))
            if kind == 'Taxable':
                out += [('gain', a.capital_gain), ('acb', a.acb)]
            a.next_year()
            p.next_year()
        out += [('final', a.balance), ('final income', p.gross_income),
                ('final net', p.net_income)]
        return out
    both(ctx, build)


def sparse(ctx, kind):
    """Whatever is not given has a default of the right type."""
    v = ctx.real('value', 0, AMT)

    def build(c, hp):
        p = person(high_precision=hp, gross_income=c(v) if hp else v,
                   raise_rate=None)
        q = person(high_precision=hp, gross_income=None, raise_rate=None,
                   payment_timing='Q')
        cls = {'Account': Account, 'Debt': Debt, 'Linked': LinkedLimitAccount,
               'Taxable': TaxableAccount, 'RRSP': RRSP, 'TFSA': TFSA}[kind]
        a = cls(p, high_precision=hp)
        out = [('paid', dict(r.payment_timing)) for r in (p, q)]
        out.append(('default timing', dict(a.default_timing)))
        for _ in range(2):
            a.add_transaction(c(-v) if kind == 'Debt' else c(v), c(0.5))
            out += [('balance', a.balance), ('returns', a.returns),
                    ('income', a.taxable_income), ('later', a.balance_at_time(
                        'end')), ('withheld', a.tax_withheld)]
            for r in (p, q):
                out += [('gross', r.gross_income), ('net', r.net_income),
                        ('withheld', r.tax_withheld),
                        ('taxable', r.taxable_income),
                        ('deduction', r.tax_deduction),
                        ('credit', r.tax_credit)]
            a.next_year()
            q.next_year()
        return out
    both(ctx, build)


def taxes(ctx, kind, year):
    inc = ctx.real('income', 0, 100 * AMT)
    th, r = ctx.real('threshold', 1, 100 * AMT), ctx.real('rate', 0, 1)
    pd = ctx.real('deduction', 0, 10 * AMT)
    infl = ctx.real('inflation', 0.5, 2)

    def build(c, hp):
        def adjust(target, base):
            return c(1) if target == base else c(infl)
        p = person(year=2018, gross_income=c(inc), high_precision=hp)
        if kind == 'Tax':
            tax = Tax({2018: {c(0): c(0.1), c(th): c(r)}},
                      personal_deduction={2018: c(pd)},
                      credit_rate={2018: c(0.15)}, inflation_adjust=adjust,
                      high_precision=hp)
        elif kind == 'defaults':
            tax = Tax({2018: {c(0): c(r)}}, high_precision=hp)
        else:
            tax = TaxCanada(adjust, high_precision=hp)
        out = [('amount', tax(c(inc), year))]
        if kind != 'Canada':
            out += [('deduction', tax.personal_deduction(year)),
                    ('credit rate', tax.credit_rate(year)),
                    ('marginal', tax.marginal_rate(c(inc), year))]
        if year == 2018:
            out += [('person', tax(p, year)), ('group', tax({p}, year)),
                    ('nobody', tax(set(), year))]
        return out
    both(ctx, build)


def strategies(ctx, kind, age=None):
    lo, hi_ = ctx.real('min', 0, .5), ctx.real('max', .5, 1)
    base, rate = ctx.real('base', 0, AMT), ctx.real('rate', 0, 1)
    inc = ctx.real('income', 0, AMT)

    def build(c, hp):
        if kind == 'expenses':
            out = []
            p = person(gross_income=c(inc), high_precision=hp)
            for s in sorted(LivingExpensesStrategy.strategies):
                if 'retirement' in s:
                    continue
                f = LivingExpensesStrategy(
                    s, base_amount=base, rate=rate,
                    inflation_adjust=lambda *_: c(2), high_precision=hp)
                out.append((s, f(people={p}, year=YEAR)))
            return out
        f = AllocationStrategy(
            kind, target=100 if kind == 'n-age' else rate,
            min_equity=lo, max_equity=hi_, high_precision=hp)
        a = f(age=c(age), retirement_age=65)
        return [('stocks', a.stocks), ('bonds', a.bonds)]
    both(ctx, build)


def shared(ctx, order):
    """Ordinary and high-precision objects side by side."""
    a, b = ctx.real('a', 0, 1), ctx.real('b', 0, 1)
    p = person(gross_income=ctx.real('income', 0, AMT))
    q = person(gross_income=hi(p.gross_income), high_precision=hi)

    def use(which):
        if which == 'plain':
            f = LivingExpensesStrategy('Percentage of net income', rate=a)
            v = f(people={p}, year=YEAR)
            ctx.check(ctx.eq(v, a * p.gross_income), 'ordinary numbers')
            ctx.check(not isinstance(v, Hi), 'ordinary type')
        else:
            f = LivingExpensesStrategy(
                'Percentage of net income', rate=b, high_precision=hi)
            v = f(people={q}, year=YEAR)
            ctx.check(ctx.eq(plain(v), b * p.gross_income), 'high precision')
            ctx.check(not mixed(v), 'type')
    for w in order:
        use(w)


def tasks(tier):
    full = tier == 'thorough'
    t = [(isolated, dict(cached=c, objects=2, ops=2, kinds=k))
         for c in (True, False) for k in ([0, 0], [1, 0], [1, 1], [1, 2])]
    t += [(timings, dict(frequency=f, kind='code')) for f in ('A', 'SA', 'Q')]
    t += [(timings, dict(frequency=1, kind=k))
          for k in ('default', 'when', 'str', 'dict')]
    t += [(timings, dict(frequency=3, kind=k)) for k in ('when', 'str')]
    t += [(accounts, dict(kind=k, years=1)) for k in (
        'Account', 'Debt', 'Linked', 'Taxable', 'RRSP', 'RRIF', 'TFSA')]
    t += [(accounts, dict(kind='Account', years=1, plain_raise=True))]
    t += [(sparse, dict(kind=k)) for k in (
        'Account', 'Debt', 'Linked', 'Taxable', 'RRSP', 'TFSA')]
    t += [(taxes, dict(kind=k, year=y))
          for k in ('Tax', 'defaults', 'Canada') for y in (2018, 2030)]
    t += [(strategies, dict(kind='expenses'))]
    t += [(strategies, dict(kind=k, age=a))
          for k in ('n-age', 'Transition to constant') for a in (0, 30, 50, 70)]
    t += [(shared, dict(order=o)) for o in (
        ['plain', 'hp', 'plain'], ['hp', 'plain', 'hp'])]
    if full:
        t += [(accounts, dict(kind=k, years=2)) for k in (
            'Account', 'Linked', 'Taxable', 'RRSP', 'TFSA')]
        t += [(isolated, dict(cached=c, objects=3, ops=3, kinds=k))
              for c in (True, False) for k in ([1, 0, 1], [1, 2, 1])]
        t += [(isolated, dict(cached=True, objects=2, ops=4, kinds=[1, 2]))]
    return t
