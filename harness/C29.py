"""C29: a forecast over several years."""
from forecaster.accounts import Account, Debt
from forecaster.forecast import (
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast,
    WithdrawalForecast, TaxForecast)
from forecaster.scenario import Scenario
from forecaster.strategy import (
    LivingExpensesStrategy, TransactionStrategy)
from forecaster.tax import Tax
from forecaster.utility import Timing
from harness.common import person, YEAR

BOUNDS = (
    'forecasts of up to 3 (thorough: 4) years for one person with a '
    'symbolic income or two people, symbolic living expenses, savings, debt '
    'payments and withdrawals of each year at 1 or 2 times, symbolic tax '
    'owing, 2 accounts and a debt, with and without growth (concrete rates '
    'compounded yearly, or a symbolic rate over 2 years); and with the '
    'real strategies and Tax over up to 2 (thorough: 3) years: symbolic '
    'income, expenses, opening balances and tax rate, up to 2 accounts.')
ASSUMPTIONS = [
    'exact real arithmetic',
    'strategies and taxes are stand-ins with symbolic results, except in '
    'the harness whole (strategies: C20-C23, taxes: C14-C17)']
AMT = 1000


def total(ctx, x):
    return ctx.sum(x.values())


def value(ctx, x, t):
    return ctx.sum(ctx.ite(ctx.eq(s, t), v, 0) for s, v in x.items())


def same(ctx, one, two, label):
    for t in list(one) + list(two):
        ctx.check(ctx.eq(value(ctx, one, t), value(ctx, two, t)), label)


class Plan:
    """A strategy with a given result for each year."""

    def __init__(self, plans, clock):
        self.plans, self.clock = plans, clock

    def __call__(self, available, accounts=None, **kw):
        return {a: dict(x)
                for a, x in self.plans[self.clock.this_year].items()}


class Treatment:
    """Taxes with given results."""

    def __init__(self, owing, refund, payment):
        self.owing = owing
        self.refund_timing, self.payment_timing = refund, payment

    def __call__(self, people, year, **kw):
        return self.owing[year]


class Taxes:
    """A tax forecast that doesn't know when taxes are due, or how much
    they are."""

    def __init__(self, adjustment=None):
        self.this_year = YEAR
        self.adjustments = adjustment

    def __call__(self, available):
        pass

    def next_year(self):
        self.this_year += 1

    @property
    def tax_owing(self):
        return 0

    @property
    def tax_adjustment(self):
        if self.adjustments is None:
            raise AttributeError('tax_adjustment')
        return self.adjustments[self.this_year]


def watch(cls, log):
    """A kind of subforecast that notes the money available."""
    class Watched(cls):
        """Notes the money available before and after."""

        def __call__(self, available):
            before = dict(available)
            super().__call__(available)
            log.setdefault(self.this_year, []).append(
                (before, dict(available)))
    return Watched


def years(ctx, n, people, growth=None, taxes='full', when=(0.5,),
          joint=False, rich=False):
    """What happens in each year, and what is carried over."""
    # (with enough income nothing needs to be delayed: there are fewer ways
    # a year can go)
    low, part = (2 * AMT, AMT / 4) if rich else (0, AMT)
    ys = list(range(YEAR, YEAR + n))
    ps, rate = [], {}
    for i in range(people):
        r = ctx.num([0.25, 0.125][i])
        p = person(
            name='P%d' % i, gross_income=ctx.real('g%d' % i, low, 3 * AMT)
            if people == 1 else ctx.num(2500 + 500 * i),
            raise_rate=0, retire=2030 + 5 * i,
            payment_timing=Timing({ctx.num(0.25): 1, ctx.num(1): 1})
            if i else ctx.num(0 if rich else 0.5), tax_treatment=lambda x, y, r=r: x * r)
        ps.append(p)
        rate[p] = r
    gr = {'sym': lambda: ctx.real('r', 0, 1), 'num': lambda: ctx.num(0.25),
          None: lambda: ctx.num(0)}[growth]()
    kw = dict(rate=gr, nper=1)
    a = Account(ps[0], balance=ctx.real('a', 0, AMT), **kw)
    b = Account(ps[-1], balance=ctx.num(100 * AMT), **kw)
    d = Account(ps[-1], balance=-ctx.real('d', 0, AMT), **kw)
    start = {x: x.balance for x in (a, b, d)}
    spend = {y: ctx.real('e%d' % y, 0, AMT) for y in ys + [YEAR + n]}
    owing = {y: ctx.real('o%d' % y, 0, AMT) for y in ys + [YEAR + n]}
    ts = [ctx.num(t) for t in when]

    def flows(name, y, sign=1):
        return {t: sign * ctx.real('%s%d_%d' % (name, y, k), 0, part)
                for k, t in enumerate(ts)}
    save = {y: {a: flows('s', y), d: flows('p', y)} for y in ys}
    take = {y: {b: flows('w', y, -1)} for y in ys}
    if joint:
        for y in ys:
            take[y][a] = flows('v', y, -1)
    money, ended = {}, {}
    f1 = watch(IncomeForecast, money)(YEAR, set(ps))
    f2 = LivingExpensesForecast(
        YEAR, set(ps), lambda year, people, retirement_year: spend[year])
    f3 = SavingForecast(YEAR, {a}, {d}, Plan(save, ps[0]))
    f4 = watch(WithdrawalForecast, ended)(
        YEAR, set(ps), {a, b}, Plan(take, ps[0]))
    refund, payment = (Timing({ctx.num(0.25): 1, ctx.num(0.75): 3}),
                       Timing({ctx.num(0.5): 1}))
    if taxes == 'full':
        f5 = TaxForecast(YEAR, set(ps), Treatment(owing, refund, payment))
    elif taxes == 'untimed':
        f5 = Taxes({y: ctx.real('adj%d' % y, -AMT, AMT) for y in ys})
    else:
        f5 = Taxes()
    f = Forecast(f1, f2, f3, f4, f5, Scenario(YEAR, n))
    last = ys[-1]
    for x in [f, f1, f2, f3, f4, f5, a, b, d] + ps:
        ctx.check(x.this_year == last, 'everything reaches the last year')

    held = dict(start)
    for y in ys:
        ctx.check(y in money and y in ended, 'every year is forecast')
        before, after = money[y][0][0], ended[y][-1][1]
        # what the year starts with
        if y == YEAR:
            ctx.check(ctx.eq(total(ctx, before), 0), 'starts with nothing')
        else:
            want = {ctx.num(0): total(ctx, ended[y - 1][-1][1])}
            if taxes == 'full':
                adj = ctx.sum(p.gross_income_history[y - 1] * rate[p]
                              for p in ps) - owing[y - 1]
                ctx.check(ctx.eq(f5.tax_adjustment_history[y - 1], adj),
                          'refund or payment')
                back = ctx.ite(adj > 0, adj, 0)
                for t, part in ((0.25, 0.25), (0.75, 0.75)):
                    want[ctx.num(t)] = back * part
                want[ctx.num(0.5)] = ctx.ite(adj < 0, adj, 0)
            elif taxes == 'untimed':
                want[ctx.num(0)] = want[ctx.num(0)] + f5.adjustments[y - 1]
            same(ctx, before, want, 'unused money and taxes are carried over')
        # what happens in it
        inc = ctx.sum(p.gross_income_history[y] * (1 - rate[p]) for p in ps)
        s = {x: total(ctx, save[y].get(x, {})) for x in (a, b, d)}
        w = {x: -total(ctx, take[y].get(x, {})) for x in (a, b, d)}
        out = ctx.sum(w.values())
        ctx.check(ctx.eq(
            total(ctx, after), total(ctx, before) + inc - spend[y]
            - ctx.sum(s.values()) + out), 'money is conserved')
        ctx.check(ctx.eq(f.income_history[y], inc), 'income')
        ctx.check(ctx.eq(f.living_expenses_history[y], spend[y]),
                  'living expenses')
        ctx.check(ctx.eq(f.savings_history[y],
                         ctx.max(inc - spend[y], 0)), 'savings')
        ctx.check(ctx.eq(f.withdrawals_history[y], out, 1e-3),
                  'withdrawals')
        ctx.check(ctx.eq(f.tax_history[y],
                         owing[y] if taxes == 'full' else 0), 'tax')
        ctx.check(ctx.eq(f.principal_history[y], held[a] + held[b]),
                  'principal')
        for x in (a, b, d):
            ctx.check(ctx.eq(x.balance_history[y], held[x]),
                      'accounts hold what was put there')
            new = held[x] * (1 + gr)
            for k, t in enumerate(ts):
                z = save[y].get(x, {}).get(t, 0) + take[y].get(x, {}).get(
                    t, 0)
                new = new + z * (1 + (gr if t == 0 else 0))
            held[x] = new
    ctx.check(ctx.eq(f.income, inc) and ctx.eq(f.tax, f.tax_history[last]),
              'this year')
    ctx.check(f.people == set(ps) and f.assets == {a, b} and
              f.debts == {d}, 'who and what is forecast')
    ctx.check(f.retirement_year == max(
        p.retirement_date.year for p in ps), 'retirement year')


def retired(ctx, n=3, years=(2030, 2040, 2050)):
    """The retirement year is that of the last one to retire."""
    ps = []
    for i in range(n):
        y = ctx.pick('retire%d' % i, list(years))
        ps.append(person(name='P%d' % i, retire=y, gross_income=0))
    f1 = IncomeForecast(YEAR, set(ps))
    f2 = LivingExpensesForecast(
        YEAR, set(ps), lambda year, people, retirement_year: 0)
    f3 = SavingForecast(YEAR, set(), set(), lambda available, accounts: {})
    f4 = WithdrawalForecast(
        YEAR, set(ps), set(), lambda available, accounts: {})
    f = Forecast(f1, f2, f3, f4, Taxes(), Scenario(YEAR, 1))
    ctx.check(f.retirement_year == max(
        p.retirement_date.year for p in ps), 'retirement year')


class First(Account):
    """Filled and emptied first."""


class Second(Account):
    """Filled and emptied next."""


def whole(ctx, n, accounts, debt, retire, order):
    """Real strategies and taxes: no money appears, nothing is overdrawn."""
    ys = list(range(YEAR, YEAR + n))
    rate = ctx.num(0.25)
    scenario = Scenario(YEAR, n)
    tax = Tax({YEAR: {ctx.num(0): rate}}, payment_timing=0.5)
    p = person(gross_income=ctx.real('g', 1, AMT), raise_rate=0,
               retire=YEAR + retire, tax_treatment=tax,
               payment_timing=ctx.num(0))
    spend = ctx.real('e', 1, AMT)
    acc = [(First, Second)[i](p, balance=ctx.real('b%d' % i, 0, AMT),
                              rate=ctx.num(0)) for i in range(accounts)]
    debts = [Debt(p, balance=-ctx.real('d', 1, AMT), rate=ctx.num(0),
                  minimum_payment=ctx.num(0))] if debt else []
    start = [x.balance for x in acc + debts]
    money, ended, taxed = {}, {}, {}
    f1 = watch(IncomeForecast, money)(YEAR, {p})
    f2 = LivingExpensesForecast(YEAR, {p}, LivingExpensesStrategy(
        'Constant living expenses',
        base_amount=spend))
    weights = {'First': 1, 'Second': 2, 'Debt': 3}
    f3 = SavingForecast(YEAR, set(acc), set(debts), TransactionStrategy(
        order, weights))
    f4 = watch(WithdrawalForecast, ended)(
        YEAR, {p}, set(acc), TransactionStrategy(order, weights))
    f5 = TaxForecast(YEAR, {p}, tax)
    f = Forecast(f1, f2, f3, f4, f5, scenario)
    for x in acc:
        ctx.check(ctx.ge(x.balance, 0, 1e-2), 'not overdrawn')
        for t in (0, 0.5, 1):
            ctx.check(ctx.ge(x.balance_at_time(ctx.num(t)), 0, 1e-2),
                      'not overdrawn')
    for x in debts:
        ctx.check(ctx.le(x.balance_at_time(ctx.num(1)), 0, 1e-2),
                  'debts are not overpaid')
    inc = ctx.sum(f.income_history[y] for y in ys)
    adj = ctx.sum(f5.tax_adjustment_history[y] for y in ys[:-1])
    end = ctx.sum(x.balance_at_time(ctx.num(1)) for x in acc + debts)
    cash = total(ctx, ended[ys[-1]][-1][1])
    ctx.check(ctx.eq(ctx.sum(start) + inc - spend * n + adj, end + cash,
                     1e-2), 'money is conserved')
    for y in ys:
        ctx.check(ctx.eq(f.tax_history[y],
                         p.gross_income_history[y] * rate), 'tax')


whole.opts = dict(fork=True)


def tasks(tier):
    more = tier == 'thorough'
    t = [(retired, {}), (retired, dict(n=1, years=(2000, 2010))),
         (retired, dict(n=2, years=(2000, 2005, 2010, 2030)))]
    for taxes in ('full', 'untimed', 'none'):
        t.append((years, dict(n=3, people=1, taxes=taxes, rich=True)))
        if more:
            t.append((years, dict(n=3, people=1, taxes=taxes)))
        t.append((years, dict(n=2, people=2, taxes=taxes, joint=True,
                             rich=True)))
    t.append((years, dict(n=1, people=2)))
    t.append((years, dict(n=2, people=1)))
    t.append((years, dict(n=3 if more else 2, people=1, growth='num',
                          when=(0, 1) if more else (0,), joint=True,
                          rich=True)))
    t.append((years, dict(n=2, people=1, growth='sym',
                          when=(0, 1) if more else (1,), taxes='none',
                          rich=True)))
    for order in ('Ordered', 'Weighted'):
        t.append((whole, dict(n=1, accounts=1, debt=True, retire=30,
                              order=order)))
        t.append((whole, dict(n=2, accounts=1, debt=False, retire=0,
                              order=order)))
        if more or order == 'Ordered':
            t.append((whole, dict(n=1, accounts=2, debt=False, retire=30,
                                  order=order)))
    if more:
        t.append((years, dict(n=4, people=2, growth='num', when=(0, 1),
                              joint=True)))
        t.append((whole, dict(n=3, accounts=2, debt=True, retire=1,
                              order='Ordered')))
    return t
