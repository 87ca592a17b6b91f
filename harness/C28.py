"""C28: income, expenses, saving, withdrawals and taxes of a year."""
from forecaster.accounts import Account
from forecaster.canada.accounts import RRSP
from forecaster.forecast import (
    IncomeForecast, LivingExpensesForecast, SavingForecast,
    WithdrawalForecast, TaxForecast)
from forecaster.utility import Timing
from harness.common import person, YEAR

BOUNDS = (
    'up to 3 people with symbolic incomes (also 0), tax rates and retirement '
    'years, paid at up to 3 times with symbolic weights; up to 3 savings '
    'accounts and 2 debts with any combination of them used, symbolic '
    'transactions at up to 2 times; accounts withholding a symbolic part of '
    'withdrawals; up to 3 years, each forecast called up to twice a year.')
ASSUMPTIONS = [
    'exact real arithmetic',
    'strategies (C20-C23) and taxes (C14-C17) are stand-ins returning '
    'symbolic results and keeping their arguments',
    'accounts without growth; money is there when needed (see C27)',
    'accounts report tax withheld with the sign the tests of '
    'WithdrawalForecast use, except in the harness rrsp']
AMT = 1000


def total(ctx, x):
    return ctx.sum(x.values())


def value(ctx, x, t):
    return ctx.sum(ctx.ite(ctx.eq(s, t), v, 0) for s, v in x.items())


def same(ctx, one, two, label):
    for t in list(one) + list(two):
        ctx.check(ctx.eq(value(ctx, one, t), value(ctx, two, t)), label)


def people(ctx, n, paid, zero=False, years=1):
    """People and what they earn each year (nothing, if zero is True; if
    it is a number, one of them earns nothing)."""
    out, info = [], {}
    for i in range(n):
        rate = ctx.real('tax%d' % i, 0, 0.9)
        w = {ctx.num(t): ctx.real('w%d_%d' % (i, k), 1, 10)
             if len(paid[i]) > 1 else ctx.num(1)
             for k, t in enumerate(paid[i])}
        p = person(
            name='P%d' % i, place=i if zero else n - i,
            gross_income=ctx.num(0)
            if zero is True or zero == i + 1 else ctx.real(
                'g%d' % i, 1, AMT), payment_timing=Timing(w),
            raise_rate=0, retire=2030 + ctx.pick('retire%d' % i, [0, 5]),
            tax_treatment=(lambda x, y, r=rate: x * r))
        out.append(p)
        info[p] = (rate, w)
    return out, info


def advance(ps, accts, *forecasts):
    for f in forecasts:
        f.next_year()
    for p in ps:
        p.next_year()
    for a in accts:
        a.next_year()


def stated(ctx, n):
    """What people say they earn and pay goes."""
    ps = []
    vals = {}
    for k in range(3):
        g = ctx.real('g%d' % k, 1, AMT)
        w = ctx.real('t%d' % k, 0, AMT)
        net = ctx.real('n%d' % k, 0, AMT)
        vals[k] = (g, w, net)
    for i in range(n):
        g, w, net = vals[i]
        ps.append(person(
            name='P%d' % i, raise_rate=0, tax_treatment=lambda x, y: 0,
            inputs={'gross_income': {YEAR: g}, 'tax_withheld': {YEAR: w},
                    'net_income': {YEAR: net}}))
    f = IncomeForecast(YEAR, set(ps))
    av = {}
    f(av)
    ctx.check(ctx.eq(f.gross_income, ctx.sum(
        vals[i][0] for i in range(n))), 'gross income')
    ctx.check(ctx.eq(f.tax_withheld, ctx.sum(
        vals[i][1] for i in range(n))), 'tax withheld')
    ctx.check(ctx.eq(f.net_income, ctx.sum(
        vals[i][2] for i in range(n))), 'net income')
    ctx.check(ctx.eq(total(ctx, av), ctx.sum(
        vals[i][2] for i in range(n))), 'income arrives')


def income(ctx, paid, years, calls):
    ps, info = people(ctx, len(paid), paid)
    f = IncomeForecast(YEAR, set(ps))
    facts = []
    for k in range(years):
        av = {ctx.num(0): ctx.real('c%d' % k, -AMT, AMT)}
        was = dict(av)
        for _ in range(calls):
            f(av)
        want = dict(was)
        for p in ps:
            net = p.gross_income * (1 - info[p][0])
            ws = ctx.sum(info[p][1].values())
            for t, w in info[p][1].items():
                want[t] = want.get(t, 0) + net * w / ws
        same(ctx, av, want, 'income arrives when people are paid')
        g = ctx.sum(p.gross_income for p in ps)
        tax = ctx.sum(p.gross_income * info[p][0] for p in ps)
        facts.append((was[ctx.num(0)], g, tax))
        ctx.check(ctx.eq(f.gross_income, g), 'gross income')
        ctx.check(ctx.eq(f.tax_withheld, tax), 'tax withheld')
        ctx.check(ctx.eq(f.net_income, g - tax), 'net income')
        ctx.check(ctx.eq(f.carryover, was[ctx.num(0)]), 'carryover')
        advance(ps, [], f)
    for k, (c, g, tax) in enumerate(facts):
        y = YEAR + k
        ctx.check(ctx.And(
            ctx.eq(f.carryover_history[y], c),
            ctx.eq(f.gross_income_history[y], g),
            ctx.eq(f.tax_withheld_history[y], tax),
            ctx.eq(f.net_income_history[y], g - tax)), 'history')


def expenses(ctx, paid, years, calls, zero=False):
    ps, info = people(ctx, len(paid), paid, zero)
    amounts = {YEAR + k: ctx.real('e%d' % k, 0, AMT)
               for k in range(years + 2)}
    asked = []

    def strategy(year, people, retirement_year):
        asked.append((year, set(people), retirement_year))
        return amounts[year]
    f = LivingExpensesForecast(YEAR, set(ps), strategy)
    for k in range(years):
        # enough to start with: nothing needs to be delayed
        av = {ctx.num(0): ctx.num(10 * AMT)}
        was = dict(av)
        for _ in range(calls):
            f(av)
        e = amounts[YEAR + k]
        ctx.check(ctx.eq(f.living_expenses, e), 'living expenses')
        ctx.check(ctx.eq(total(ctx, av), total(ctx, was) - e),
                  'living expenses are paid once')
        want = dict(was)
        net = {p: p.net_income for p in ps}
        s = ctx.sum(net.values())
        for p in ps:
            share = e / len(ps) if zero is True else e * (net[p] / s)
            ws = ctx.sum(info[p][1].values())
            for t, w in info[p][1].items():
                want[t] = want.get(t, 0) - share * (w / ws)
        same(ctx, av, want, 'spent as people are paid')
        advance(ps, [], f)
    for k in range(years):
        ctx.check(ctx.eq(f.living_expenses_history[YEAR + k],
                         amounts[YEAR + k]), 'history')
    first = min(p.retirement_date.year for p in ps)
    for y, who, retire in asked:
        ctx.check(who == set(ps) and retire == first and
                  y in amounts, 'strategy asked')


class Plan:
    """A strategy with given results."""

    def __init__(self):
        self.calls = []

    def __call__(self, available, accounts=None, **kw):
        self.calls.append((available, dict(available), set(accounts)))
        return self.result


def saving(ctx, savings, debts, times, years, calls):
    p = person()
    acc = [Account(p, balance=ctx.real('b%d' % i, 0, AMT), rate=ctx.num(0))
           for i in range(savings)]
    owe = [Account(p, balance=-ctx.real('d%d' % i, 0, AMT), rate=ctx.num(0))
           for i in range(debts)]
    plan = Plan()
    f = SavingForecast(YEAR, set(acc), set(owe), plan)
    facts = []
    for k in range(years):
        av = {ctx.num(0): ctx.num(100 * AMT)}
        was = dict(av)
        plan.result = {}
        for i, a in enumerate(acc + owe):
            if ctx.pick('use%d_%d' % (k, i), [True, False]):
                plan.result[a] = {
                    ctx.num(t): ctx.real('x%d_%d_%s' % (k, i, t), 0, AMT)
                    for t in times}
        given = {a: dict(x) for a, x in plan.result.items()}
        for _ in range(calls):
            f(av)
        used = {a: total(ctx, given.get(a, {})) for a in acc + owe}
        s, d = ctx.sum(used[a] for a in acc), ctx.sum(used[a] for a in owe)
        for a in acc + owe:
            same(ctx, a, given.get(a, {}), 'accounts get their share')
        ctx.check(ctx.eq(total(ctx, av), total(ctx, was) - s - d),
                  'it comes out of the money available')
        for _, seen, who in plan.calls:
            ctx.check(who == set(acc + owe), 'all accounts considered')
            same(ctx, seen, was, 'all money available considered')
        plan.calls = []
        ctx.check(ctx.eq(f.retirement_savings, s), 'retirement savings')
        ctx.check(ctx.eq(f.debt_repayment, d), 'debt repayment')
        ctx.check(ctx.eq(f.total, s + d), 'total')
        facts.append((s, d))
        advance([p], acc + owe, f)
    for k, (s, d) in enumerate(facts):
        y = YEAR + k
        ctx.check(ctx.eq(f.retirement_savings_history[y], s), 'history')
        ctx.check(ctx.eq(f.debt_repayment_history[y], d), 'history')
        ctx.check(ctx.eq(f.total_history[y], s + d), 'history')


class Withholding(Account):
    """Withholds part of every withdrawal."""
    part = 0

    @property
    def tax_withheld(self):
        return self.outflows() * self.part


def withdrawal(ctx, n, times, years, calls, before=False):
    p = person()
    acc = []
    for i in range(n):
        a = Withholding(p, balance=ctx.num(100 * AMT), rate=ctx.num(0))
        a.part = ctx.real('part%d' % i, 0, 0.9)
        acc.append(a)
    plan = Plan()
    f = WithdrawalForecast(YEAR, {p}, set(acc), plan)
    facts = []
    for k in range(years):
        short = ctx.real('short%d' % k, 0, AMT)
        av = {ctx.num(0.5): -short}
        if before:
            # withdrawn by somebody else
            acc[0][ctx.num(0)] = -ctx.real('before', 0, AMT)
        held = {a: dict(a) for a in acc}
        was = dict(av)
        plan.result = {}
        for i, a in enumerate(acc):
            if ctx.pick('use%d_%d' % (k, i), [True, False]):
                plan.result[a] = {
                    ctx.num(t): -ctx.real('x%d_%d_%s' % (k, i, t), 1, AMT)
                    for t in times}
        given = {a: dict(x) for a, x in plan.result.items()}
        for _ in range(calls):
            f(av)
        out = {a: -total(ctx, given.get(a, {})) for a in acc}
        g = ctx.sum(out.values())
        tax = ctx.sum(out[a] * a.part for a in acc)
        for a in acc:
            want = dict(held[a])
            for t, v in given.get(a, {}).items():
                want[t] = want.get(t, 0) + v
            same(ctx, a, want, 'accounts give their share')
        ctx.check(ctx.eq(total(ctx, av), total(ctx, was) + g - tax),
                  'the rest is available')
        for _, seen, who in plan.calls:
            ctx.check(who == set(acc), 'all accounts considered')
            same(ctx, seen, was, 'the whole shortfall considered')
        plan.calls = []
        # money within EPSILON of what is needed is not distinguished
        ctx.check(ctx.eq(f.gross_withdrawals, g, 1e-3), 'gross withdrawals')
        ctx.check(ctx.eq(f.tax_withheld, -tax), 'tax withheld')
        ctx.check(ctx.eq(f.net_withdrawals, g - tax, 1e-3),
                  'net withdrawals')
        facts.append((g, tax))
        advance([p], acc, f)
        ctx.check(f.tax_withheld == 0, 'a new year starts without tax')
    for k, (g, tax) in enumerate(facts):
        y = YEAR + k
        ctx.check(ctx.eq(f.gross_withdrawals_history[y], g, 1e-3), 'history')
        ctx.check(ctx.eq(f.net_withdrawals_history[y], g - tax, 1e-3),
                  'history')


def rrsp(ctx):
    """Tax withheld by an RRSP leaves the money available."""
    p = person(year=2018)
    a = RRSP(p, balance=ctx.num(100 * AMT), rate=ctx.num(0),
             contribution_room=ctx.num(0))
    plan = Plan()
    f = WithdrawalForecast(2018, {p}, {a}, plan)
    x = ctx.real('x', 1, AMT)
    av = {ctx.num(0.5): -x}
    plan.result = {a: {ctx.num(0.5): -x}}
    f(av)
    ctx.check(ctx.eq(total(ctx, av), -a.tax_withheld),
              'withheld tax is not available')
    ctx.check(ctx.eq(f.net_withdrawals, x - a.tax_withheld),
              'net withdrawals')


def taxes(ctx, n, accounts, years, joint):
    """Tax withheld, owing and due."""
    ps, info = people(ctx, n, [(0.5,)] * n)
    acc = []
    for i in range(accounts):
        a = Account(ps[i % n], balance=ctx.num(0))
        acc.append(a)
    if joint:
        ps[-1].accounts.add(acc[0])
    asked = []
    owing = {YEAR + k: ctx.real('owing%d' % k, 0, AMT)
             for k in range(years + 2)}

    class Treatment:
        refund_timing = Timing(0.5)
        payment_timing = Timing(1)

        def __call__(self, people, year, **kw):
            asked.append((set(people), year))
            return owing[year]
    f = TaxForecast(YEAR, set(ps), Treatment())
    facts = []
    for k in range(years):
        av = {ctx.num(0.5): ctx.real('c%d' % k, -AMT, AMT)}
        was = dict(av)
        f(av)
        held = 0
        for i, a in enumerate(acc):
            a.tax_withheld = ctx.real('h%d_%d' % (k, i), 0, AMT)
            held = held + a.tax_withheld
        held = held + ctx.sum(p.gross_income * info[p][0] for p in ps)
        what = ctx.pick('first%d' % k, ['held', 'adjust'])
        if what == 'held':
            ctx.check(ctx.eq(f.tax_withheld, held), 'withheld')
        ctx.check(ctx.eq(f.tax_adjustment, held - owing[YEAR + k]),
                  'refund or payment next year')
        ctx.check(ctx.eq(f.tax_owing, owing[YEAR + k]), 'owing')
        ctx.check(ctx.eq(f.tax_withheld, held), 'withheld')
        same(ctx, av, was, 'no effect this year')
        facts.append(held)
        advance(ps, acc, f)
    ctx.check(f.tax_refund_timing == Timing(0.5) and
              f.tax_payment_timing == Timing(1), 'timing')
    for k, held in enumerate(facts):
        y = YEAR + k
        ctx.check(ctx.eq(f.tax_withheld_history[y], held), 'history')
        ctx.check(ctx.eq(f.tax_owing_history[y], owing[y]), 'history')
        ctx.check(ctx.eq(f.tax_adjustment_history[y], held - owing[y]),
                  'history')
    for who, y in asked:
        ctx.check(who == set(ps) and y in owing, 'everyone is taxed')


def tasks(tier):
    more = tier == 'thorough'
    t = []
    for paid in ([(0.5,)], [(0.25, 1)], [(0.5,), (0, 0.5, 1)],
                 [(0.5,), (0.25, 0.75), (0.5, 1)]):
        for calls, years in ((1, 2), (2, 1)) + (((3, 3),) if more else ()):
            t.append((income, dict(paid=paid, years=years, calls=calls)))
            if len(paid) < 3 or more:
                t.append((expenses, dict(paid=paid, years=years,
                                         calls=calls)))
            t.append((expenses, dict(paid=paid, years=years, calls=calls,
                                     zero=True)))
            if len(paid) == 2:
                t += [(expenses, dict(paid=paid, years=years, calls=calls,
                                      zero=who)) for who in (1, 2)]
    for s, d in ((1, 0), (0, 1), (2, 1), (1, 2), (3, 0)):
        for calls, years in ((1, 2), (2, 1)) + (((3, 2),) if more else ()):
            if s + d == 3 and years > 1 and not more:
                continue
            t.append((saving, dict(savings=s, debts=d, times=(0.25, 1),
                                   years=years, calls=calls)))
    for n in (1, 2) + ((3,) if more else ()):
        for calls, years in ((1, 2), (2, 1), (3, 1)) + (
                ((2, 3),) if n == 1 or more and n == 2 else ()):
            t.append((withdrawal, dict(n=n, times=(0.5,), years=years,
                                       calls=calls)))
        t.append((withdrawal, dict(n=n, times=(0.25, 1), years=1, calls=1)))
        t.append((withdrawal, dict(n=n, times=(0.5,), years=1, calls=2,
                                   before=True)))
    t.append((rrsp, {}))
    t += [(stated, dict(n=n)) for n in (1, 2, 3)]
    for n, a, joint in ((1, 0, False), (1, 2, False), (2, 3, True),
                        (2, 2, False), (3, 3, True)):
        t.append((taxes, dict(n=n, accounts=a, years=2, joint=joint)))
    return t
