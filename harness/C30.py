"""C30: a Forecaster builds forecasts from settings, leaving inputs alone."""
from forecaster.accounts import Account, Debt
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount
from forecaster.canada.forecaster import ForecasterCanada
from forecaster.canada.settings import SettingsCanada
from forecaster.canada.tax import TaxCanada
from forecaster.forecaster import Forecaster
from forecaster.scenario import Scenario
from forecaster.settings import Settings
from forecaster.strategy import (
    AllocationStrategy, LivingExpensesStrategy, TransactionStrategy)
from forecaster.tax import Tax
from forecaster.utility import Timing
from harness.common import person, YEAR

BOUNDS = (
    'forecasts of 2 (thorough: 3) years for up to 2 people, 2 accounts and '
    'a debt with symbolic incomes, balances and payments, run twice with '
    'other settings or another forecast in between; every numeric setting '
    'symbolic, each parameter built in every way (from settings, with any '
    'one argument given by name, with leading arguments given by position, '
    'given as an object); every kind of account on its own with the default '
    'settings, with symbolic balances and amounts.')
ASSUMPTIONS = [
    'exact real arithmetic',
    'saving and withdrawal strategies are given and plan symbolic amounts, '
    'except in the harnesses real and kinds']
AMT = 1000
NAMES = ('scenario', 'living_expenses_strategy', 'saving_strategy',
         'withdrawal_strategy', 'tax_treatment')


def total(ctx, x):
    return ctx.sum(x.values())


def same(ctx, one, two, label):
    """Whether two histories (or things like that) are the same."""
    if isinstance(one, dict):
        ctx.check(set(one) == set(two), label)
        for k in one:
            same(ctx, one[k], two[k], label)
    else:
        ctx.check(ctx.eq(one, two), label)


class Plan:
    """A strategy moving a part of the accounts' opening balances."""

    def __init__(self, amounts, sign):
        self.amounts, self.sign = amounts, sign

    def __call__(self, available, accounts=None, **kw):
        return {a: {0.5: self.sign * self.amounts[type(a).__name__]}
                for a in accounts if type(a).__name__ in self.amounts}


class First(Account):
    """An account."""


class Second(Account):
    """Another one."""


def settings(ctx, n, cls=Settings, tag=''):
    """Settings with symbolic values."""
    s = cls()
    s.initial_year, s.num_years = YEAR, n
    s.inflation = ctx.real('inflation' + tag, -0.1, 0.2)
    s.stock_return = ctx.real('stock' + tag, -0.5, 0.5)
    s.bond_return = ctx.real('bond' + tag, -0.5, 0.5)
    s.other_return = ctx.real('other' + tag, -0.5, 0.5)
    s.management_fees = ctx.real('fees' + tag, 0, 0.1)
    s.living_expenses_base_amount = ctx.real('base' + tag, 1, AMT)
    s.living_expenses_rate = ctx.real('rate' + tag, 0, 1)
    s.saving_weights = {'First': 1, 'Second': 2, 'Debt': 3}
    s.withdrawal_weights = {'Second': 1, 'First': 2}
    s.allocation_min_equity = ctx.real('min' + tag, 0, 0.3)
    s.allocation_max_equity = ctx.real('max' + tag, 0.5, 1)
    s.allocation_target = ctx.real('target' + tag, 1, 200)
    s.allocation_std_retirement_age = 60
    s.allocation_risk_trans_period = 10
    s.allocation_adjust_retirement = False
    if cls is Settings:
        s.tax_brackets = {YEAR: {
            ctx.num(0): ctx.real('low' + tag, 0, 0.3),
            ctx.real('bracket' + tag, 1, AMT): ctx.real('high' + tag,
                                                        0.3, 0.9)}}
        s.tax_personal_deduction = {YEAR: ctx.real('pd' + tag, 0, AMT)}
        s.tax_credit_rate = {YEAR: ctx.real('credit' + tag, 0, 1)}
        s.tax_payment_timing = 0.25
    else:
        s.tax_province = 'ON'
    return s


# what is built, and from which settings: {argument: setting}
ARGS = {
    'scenario': (Scenario, [
        ('initial_year', 'initial_year'), ('num_years', 'num_years'),
        ('inflation', 'inflation'), ('stock_return', 'stock_return'),
        ('bond_return', 'bond_return'), ('other_return', 'other_return'),
        ('management_fees', 'management_fees')]),
    'living_expenses_strategy': (LivingExpensesStrategy, [
        ('strategy', 'living_expenses_strategy'),
        ('base_amount', 'living_expenses_base_amount'),
        ('rate', 'living_expenses_rate')]),
    'saving_strategy': (TransactionStrategy, [
        ('strategy', 'saving_strategy'), ('weights', 'saving_weights')]),
    'withdrawal_strategy': (TransactionStrategy, [
        ('strategy', 'withdrawal_strategy'),
        ('weights', 'withdrawal_weights')]),
    'allocation_strategy': (AllocationStrategy, [
        ('strategy', 'allocation_strategy'),
        ('target', 'allocation_target'),
        ('min_equity', 'allocation_min_equity'),
        ('max_equity', 'allocation_max_equity'),
        ('standard_retirement_age', 'allocation_std_retirement_age'),
        ('risk_transition_period', 'allocation_risk_trans_period'),
        ('adjust_for_retirement_plan', 'allocation_adjust_retirement')]),
    'tax_treatment': (Tax, [
        ('tax_brackets', 'tax_brackets'),
        ('personal_deduction', 'tax_personal_deduction'),
        ('credit_rate', 'tax_credit_rate')]),
}


def other(ctx, arg):
    """Some other value for an argument."""
    return {
        'max_equity': ctx.num(0.75), 'initial_year': 2001, 'num_years': 3, 'strategy': None,
        'weights': {'Account': 1}, 'standard_retirement_age': 62,
        'risk_transition_period': 7, 'adjust_for_retirement_plan': True,
        'tax_brackets': {YEAR: {ctx.num(0): ctx.num(0.5)}},
        'personal_deduction': {YEAR: ctx.num(3)},
        'credit_rate': {YEAR: ctx.num(0.75)},
    }.get(arg, ctx.num(0.125))


def reads(ctx, obj, arg, want, label):
    """The object was built with that value."""
    year = YEAR
    if isinstance(obj, Scenario):
        year = obj.initial_year
        if arg not in ('initial_year', 'num_years'):
            got = getattr(obj, arg)
            for y in range(year, year + obj.num_years):
                ctx.check(ctx.eq(got[y], want), label)
            return
    if isinstance(obj, Tax):
        got, want = getattr(obj, arg)(YEAR), want[YEAR]
    else:
        got = getattr(obj, arg)
    if isinstance(want, dict):
        ctx.check(len(want) == len(got), label)
        for (k, v), (k2, v2) in zip(want.items(), got.items()):
            ctx.check(ctx.And(k == k2 if isinstance(k, str) else
                              ctx.eq(k, k2), ctx.eq(v, v2)), label)
    elif isinstance(want, (str, bool, int)) or want is None:
        ctx.check(got == want, label)
    else:
        ctx.check(ctx.eq(got, want), label)


def parameters(ctx, name, way, hp=False):
    """Each parameter is built as asked, otherwise from the settings."""
    s = settings(ctx, 2)
    f = Forecaster(settings=s, high_precision=ctx.hp if hp else None)
    cls, args = ARGS[name]
    given = {}
    if way == 'named':
        arg, _ = args[ctx.pick('which', range(len(args)))]
        if arg == 'strategy':
            given = {arg: s.living_expenses_strategy
                     if cls is LivingExpensesStrategy else
                     s.allocation_strategy if cls is AllocationStrategy else
                     'Weighted'}
        else:
            given = {arg: other(ctx, arg)}
        made = f.build_param(name, **given)
    elif way == 'positions':
        k = ctx.pick('which', range(1, min(3, len(args)) + 1))
        vals = []
        for arg, st in args[:k]:
            v = getattr(s, st) if arg == 'strategy' else other(ctx, arg)
            given[arg] = v
            vals.append(v)
        made = f.build_param(name, *vals)
    elif way == 'set':
        f.set_param(name)
        made = getattr(f, name)
        ctx.check(made is not None and f.get_param(name) is made,
                  'what was set is used')
    elif way == 'special':
        given = {'target': other(ctx, 'target')} if ctx.pick(
            'given', [False, True]) else {}
        made = f.build_allocation_strategy(**given)
    else:
        made = f.get_param(name)
    ctx.check(isinstance(made, cls), 'type')
    for arg, st in args:
        reads(ctx, made, arg, given.get(arg, getattr(s, st)),
              'argument given' if arg in given else 'taken from settings')
    if hp and cls is not Scenario:
        ctx.check(made.high_precision is f.high_precision, 'precision')
    if cls in (LivingExpensesStrategy, Tax):
        # year YEAR + 1, in money of YEAR
        ctx.check(ctx.eq(made.inflation_adjust(YEAR + 1, YEAR),
                         1 + s.inflation), 'inflation as in the settings')
    if cls is Tax:
        ctx.check(made.payment_timing == Timing(0.25), 'payment timing')
    if way != 'set':
        ctx.check(getattr(f, name) is None, 'nothing is set')


def without(ctx, name):
    """No adjustment for inflation, if that is what is asked for."""
    s = settings(ctx, 2)
    f = Forecaster(settings=s)
    if ctx.pick('set', [False, True]):
        f.set_param(name, inflation_adjust=None)
        made = f.get_param(name)
    else:
        made = f.build_param(name, inflation_adjust=None)
    ctx.check(ctx.eq(made.inflation_adjust(YEAR + 1, YEAR), 1),
              'no inflation')


def taken(ctx, name):
    """Objects given are used as they are, and to build others."""
    n = 2
    s = settings(ctx, n)
    inflation = ctx.real('own', -0.1, 0.2)
    own = Scenario(YEAR, n, inflation=inflation)
    f = Forecaster(settings=s, scenario=own)
    ctx.check(f.get_param('scenario') is own, 'as given')
    made = f.get_param(name)
    ctx.check(ctx.eq(made.inflation_adjust(YEAR + 1, YEAR), 1 + inflation),
              'built from what was given')
    f.scenario = None
    ctx.check(ctx.eq(f.get_param(name).inflation_adjust(YEAR + 1, YEAR),
                     1 + s.inflation), 'no longer given')
    ctx.check(ctx.eq(own.inflation[YEAR], inflation), 'unchanged')


def household(ctx, n, couple, accounts, tag='', year=YEAR):
    """People, accounts and debts."""
    own = Tax({year: {ctx.num(0): ctx.num(0.25)}})
    p = person(year=year, gross_income=ctx.real('g' + tag, 2 * AMT, 3 * AMT),
               raise_rate=0, retire=2040, payment_timing=ctx.num(0),
               tax_treatment=own)
    people = {p}
    if couple:
        q = person(year=year, name='Q', gross_income=ctx.num(2000), raise_rate=0,
                   payment_timing=ctx.num(0), spouse=p, tax_treatment=own)
        people.add(q)
    rate = ctx.num(0.25)
    acc = [cls(p, balance=ctx.real(name + tag, AMT, 2 * AMT), rate=rate)
           for name, cls in (('a', First), ('b', Second))[:accounts]]
    debt = Debt(p, balance=-ctx.real('d' + tag, AMT, 2 * AMT),
                rate=rate, minimum_payment=ctx.num(0))
    return people, set(acc), {debt}


def registered(ctx, f, s):
    """A couple with registered accounts that share contribution room, and
    investments growing by allocation strategy."""
    s.initial_year = year = 2018
    # (concrete, or the solver takes too long)
    s.inflation, s.management_fees = ctx.num(0.125), ctx.num(0)
    s.stock_return, s.bond_return = ctx.num(0.25), ctx.num(0.0625)
    s.allocation_target = ctx.num(100)
    s.allocation_min_equity = ctx.num(0.25)
    s.allocation_max_equity = ctx.num(0.75)
    own = Tax({year: {ctx.num(0): ctx.num(0.25)}})
    p = person(year=year, gross_income=ctx.num(3000), raise_rate=0, payment_timing=ctx.num(0),
               tax_treatment=own)
    q = person(year=year, name='Q', gross_income=ctx.num(2000),
               raise_rate=0, payment_timing=ctx.num(0), spouse=p,
               tax_treatment=own)
    grow = f.build_allocation_strategy().rate_function(
        p, f.get_param('scenario'))
    room = ctx.real('room', 0, AMT)
    acc = {TFSA(p, balance=ctx.num(0), rate=grow, contribution_room=room),
           TFSA(p, balance=ctx.num(0), rate=ctx.num(0)),
           RRSP(q, contributor=p, balance=ctx.num(0), rate=ctx.num(0),
                contribution_room=ctx.real('rrsp', 0, AMT)),
           Second(q, balance=ctx.num(1000), rate=grow)}
    return {p, q}, acc, set()


def look(thing):
    """The state of a ledger, for comparison."""
    out = {}
    for name in ('balance', 'gross_income', 'net_income', 'this_year'):
        if hasattr(thing, name):
            out[name] = getattr(thing, name)
    for name in ('balance_history', 'gross_income_history',
                 'returns_history', 'contribution_room_history'):
        if hasattr(thing, name):
            out[name] = dict(getattr(thing, name))
    if isinstance(thing, Account):
        out['flows'] = dict(thing)
    return out


def results(f):
    """What a forecast says."""
    out = {name: dict(getattr(f, name + '_history')) for name in (
        'income', 'living_expenses', 'savings', 'principal', 'withdrawals',
        'tax')}
    for sub, names in (
            (f.income_forecast, ('carryover', 'gross_income')),
            (f.saving_forecast, ('retirement_savings', 'debt_repayment')),
            (f.withdrawal_forecast, ('gross_withdrawals',)),
            (f.tax_forecast, ('tax_withheld', 'tax_adjustment'))):
        for name in names:
            out[name] = dict(getattr(sub, name + '_history'))
    return out


def isolated(ctx, n, couple, between, accounts=2, real=False, reg=False):
    """Running a forecast leaves everything as it was, and can be repeated."""
    s = settings(ctx, n)
    s.tax_brackets = {YEAR: {ctx.num(0): ctx.num(0.25)}}
    if real or reg:
        # (concrete where it would take the solver too long)
        s.inflation = ctx.num(0)
        s.tax_personal_deduction = {YEAR: ctx.num(0)}
        s.tax_credit_rate = {YEAR: ctx.num(1)}
    if real:
        given = {}
    else:
        put = {x: ctx.real('put' + x, 0, 100) for x in (
            ('TFSA', 'RRSP') if reg else ('First', 'Debt'))}
        take = {x: ctx.real('take' + x, 0, 100) for x in ('Second',)}
        given = dict(saving_strategy=Plan(put, 1),
                     withdrawal_strategy=Plan(take, -1))
    f = Forecaster(settings=s, **given)
    people, accounts, debts = registered(ctx, f, s) if reg else household(
        ctx, n, couple, accounts)
    year = s.initial_year
    things = list(people) + list(accounts) + list(debts)
    before = [look(x) for x in things]
    owned = {p: set(p.accounts) for p in people}
    one = f.run_forecast(people, accounts, debts)
    first = results(one)

    def untouched():
        for x, b in zip(things, before):
            same(ctx, look(x), b, 'inputs are left alone')
        ctx.check(all(set(p.accounts) == owned[p] for p in people) and
                  all(a.owner in people for a in accounts | debts),
                  'inputs are left alone')
        for name in NAMES:
            ctx.check(getattr(f, name) is given.get(name),
                      'the forecaster is left alone')
    untouched()
    # the copies belong together
    ctx.check(not (set(map(id, things)) & set(map(id, (
        one.people | one.assets | one.debts)))), 'copies')
    ctx.check(len(one.people) == len(people) and
              len(one.assets) == len(accounts) and
              len(one.debts) == len(debts), 'everything is forecast')
    for a in one.assets | one.debts:
        ctx.check(any(a.owner is p for p in one.people) and
                  a.this_year == year + n - 1, 'copies belong together')
    for p in one.people:
        ctx.check(set(map(id, p.accounts)) <= set(map(id, (
            one.assets | one.debts))), 'copies belong together')
        for link in p.data.values():
            ctx.check(set(map(id, link.group)) <= set(map(id, (
                one.assets | one.debts))), 'copies belong together')
        ctx.check(p.spouse is None or p.spouse in one.people,
                  'copies belong together')
    # in between
    if between == 'settings':
        old = s.living_expenses_base_amount, s.inflation
        s.living_expenses_base_amount = ctx.real('new', 1, AMT)
        s.inflation = ctx.num(0.125)
        mid = f.run_forecast(people, accounts, debts)
        ctx.check(ctx.eq(mid.living_expenses_history[year],
                         s.living_expenses_base_amount),
                  'settings are read for each forecast')
        same(ctx, results(one), first, 'forecasts are independent')
        s.living_expenses_base_amount, s.inflation = old
    elif between == 'others':
        f.run_forecast(*household(ctx, n, False, 1, 'x', year))
        same(ctx, results(one), first, 'forecasts are independent')
    elif between == 'change':
        for x in accounts:
            x.add_transaction(ctx.num(5), when=0.5)
        same(ctx, results(one), first, 'forecasts are independent')
        for x in accounts:
            x.clear()
    two = f.run_forecast(people, accounts, debts)
    untouched()
    same(ctx, results(two), first, 'the same again')
    same(ctx, results(one), first, 'forecasts are independent')
    # the settings are what is forecast
    for k in range(n):
        ctx.check(ctx.eq(one.living_expenses_history[year + k],
                         s.living_expenses_base_amount *
                         (1 + s.inflation) ** k), 'as in the settings')
        ctx.check(year + k in one.principal_history, 'every year')
    ctx.check(year + n not in one.principal_history, 'no more years')


def isolated_real(ctx, **kw):
    return isolated(ctx, real=True, **kw)


isolated_real.opts = dict(fork=True)


def kinds(ctx, kind, sign, canada, accounts=1):
    """Default settings make use of every kind of account."""
    f = (ForecasterCanada if canada else Forecaster)()
    p = person(gross_income=ctx.num(AMT))
    have = ctx.real('have', 1, AMT)
    x = ctx.real('x', 1, 2 * AMT)
    cls = {'Account': Account, 'RRSP': RRSP, 'TFSA': TFSA, 'Debt': Debt,
           'TaxableAccount': TaxableAccount, 'none': None}[kind]
    kw = {}
    if kind in ('RRSP', 'TFSA'):
        kw = dict(contribution_room=have)
    if kind == 'Debt':
        kw = dict(minimum_payment=ctx.num(0))
    who = set()
    if cls is not None:
        who.add(cls(p, balance=-have if kind == 'Debt' else have,
                    rate=ctx.num(0), **kw))
    strategy = f.get_param(
        'saving_strategy' if sign > 0 else 'withdrawal_strategy')
    got = strategy({ctx.num(0.5): sign * x}, accounts=who)
    moved = ctx.sum(total(ctx, v) for v in got.values())
    if cls is None:
        want = 0
    elif sign < 0 or kind in ('RRSP', 'TFSA', 'Debt'):
        want = ctx.min(have, x)
    else:
        want = x
    ctx.check(ctx.eq(moved, sign * want, 1e-3),
              'used as far as possible')
    ctx.check(all(a in who for a in got), 'nothing else')


kinds.opts = dict(fork=True)


def canada(ctx):
    """The Canadian variety is taxed in the province set."""
    s = SettingsCanada()
    s.tax_province = 'BC'
    s.inflation = ctx.real('inflation', -0.1, 0.2)
    f = ForecasterCanada(settings=s)
    t = f.get_param('tax_treatment')
    ctx.check(isinstance(t, TaxCanada) and t.province == s.tax_province,
              'province')
    y = int(s.initial_year)
    for tax in (t.federal_tax, t.provincial_tax):
        ctx.check(ctx.eq(tax.inflation_adjust(y + 1, y), 1 + s.inflation),
                  'inflation as in the settings')
    g = Forecaster()
    ctx.check(not isinstance(g.get_param('tax_treatment'), TaxCanada),
              'other forecasters are not affected')


def tasks(tier):
    more = tier == 'thorough'
    t = [(canada, {})]
    for name in ARGS:
        for way in ('settings', 'named', 'positions', 'set'):
            t.append((parameters, dict(name=name, way=way)))
            t.append((parameters, dict(name=name, way=way, hp=True)))
    t.append((parameters, dict(name='allocation_strategy', way='special')))
    for name in ('living_expenses_strategy', 'tax_treatment'):
        t.append((taken, dict(name=name)))
        t.append((without, dict(name=name)))
    for between in (None, 'settings', 'others', 'change'):
        t.append((isolated, dict(n=2, couple=False, between=between)))
        t.append((isolated, dict(n=2, couple=True, between=between,
                                 accounts=1)))
        t.append((isolated, dict(n=2, couple=True, between=between,
                                 reg=True)))
        t.append((isolated, dict(n=3, couple=False, between=between,
                                 accounts=1)))
        if more:
            t.append((isolated, dict(n=3, couple=True, between=between,
                                     reg=True)))
            t.append((isolated, dict(n=3, couple=True, between=between)))
    t.append((isolated_real, dict(n=2 if more else 1, couple=False,
                                  between=None, accounts=1)))
    for sign in (1, -1):
        for kind in ('Account', 'Debt', 'none'):
            if kind == 'Debt' and sign < 0:
                continue
            t.append((kinds, dict(kind=kind, sign=sign, canada=False)))
        for kind in ('RRSP', 'TFSA', 'TaxableAccount', 'none'):
            t.append((kinds, dict(kind=kind, sign=sign, canada=True)))
    return t
