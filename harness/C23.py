"""C23: strategies send money to the accounts their settings name."""
import itertools
from forecaster.accounts import Account, Debt, LinkedLimitAccount
from forecaster.strategy import TransactionStrategy, DebtPaymentStrategy
from harness import tree as trees
from harness.common import person

BOUNDS = (
    'debts: both strategies, 1 to 3 debts in every order of 3 rates or with '
    'symbolic balances, symbolic amounts, minimum payments and caps on '
    'payments where listed; accounts: both strategies, up to 5 accounts of '
    'up to 4 types (with subtypes) and debts, every listed set of weights, '
    'both directions, symbolic amounts, symbolic room in ordered strategies, '
    'with and without a high-interest threshold, debts that are paid off, a '
    'strategy used again after the debts have changed, and weights for none '
    'of the accounts.')
ASSUMPTIONS = [
    'exact real arithmetic',
    'results are compared to within ten smallest units',
    'payments at year-end (no interest on payments)',
    'networkx is executed symbolically like the code itself']
AMT = 100000
TOL = 0.002
N = None
RATES = [0.03, 0.06, 0.09]


class A(LinkedLimitAccount):
    """ One type of account. """


class SubA(A):
    """ A subtype of it. """


class B(LinkedLimitAccount):
    """ Another type of account. """


class Other(LinkedLimitAccount):
    """ A type nobody mentions. """


class Loan(Debt):
    """ A subtype of debt. """


# names under which an account of some type can be given a weight
NAMES = {'A': ['A', 'LinkedLimitAccount', 'Account'],
         'SubA': ['SubA', 'A', 'LinkedLimitAccount', 'Account'],
         'B': ['B', 'LinkedLimitAccount', 'Account'],
         'Other': ['Other', 'LinkedLimitAccount', 'Account'],
         'Debt': ['Debt', 'Account'], 'Loan': ['Loan', 'Debt', 'Account']}
KINDS = dict(A=A, SubA=SubA, B=B, Other=Other, Debt=Debt, Loan=Loan)


def judge(ctx, shape, accts, result, amount, sign, lo, hi):
    """Everyone gets what the tree of priorities says."""
    ctx.check(set(result) <= set(accts), 'only the accounts given')
    got = []
    for a in accts:
        for v in result.get(a, {}).values():
            ctx.check(ctx.ge(v * sign, 0), 'direction')
        got.append(ctx.sum(result.get(a, {}).values()) * sign)
    ids = trees.leaves_of(shape)
    for i in range(len(accts)):
        if i not in ids:
            ctx.check(ctx.le(ctx.abs(got[i]), TOL),
                      'nothing for accounts not named')
    t = trees.Totals(ctx, shape, got, lo, hi, [])
    least = t.lo
    if sign > 0 and any(x is not 0 for x in lo) and amount < least:
        t = trees.Totals(ctx, shape, got, [0] * len(lo), lo, [])
    ctx.check(ctx.le(ctx.abs(t.got - ctx.min(amount, t.hi)), TOL),
              'as much as possible, no more')
    trees.limits_kept(ctx, t, TOL)
    trees.in_order(ctx, t, TOL)
    if t.lo is not 0:
        for i in ids:
            ctx.check(ctx.Or(ctx.ge(got[i], lo[i] - TOL), amount < least),
                      'minimum payments')


def make_debt(ctx, p, i, kind='Debt', rate=0, balance=None, least=0,
              more=None):
    """A debt, with what must and what can be paid at year-end."""
    b = ctx.real('b%d' % i, 1, AMT) if balance is None else ctx.num(balance)
    m = ctx.real('min%d' % i, 0, AMT) if least is None else ctx.num(least)
    x = float('inf') if more is None else ctx.num(more)
    d = KINDS[kind](p, balance=-b, rate=ctx.num(rate), nper=1,
                    minimum_payment=m, accelerated_payment=x)
    owed = b * (1 + ctx.num(rate))
    return d, b, ctx.min(owed, m), ctx.min(owed, m + x)


def debts(ctx, name, mins, more=None, permute=True, balances=None,
          when=(1,), method=False):
    """Debts are repaid in order after their minimum payments."""
    p = person()
    n = len(mins)
    rates = ([ctx.num(r) for r in ctx.pick('rates', list(
        itertools.permutations(RATES[:n])))] if permute else RATES[:n])
    made = [make_debt(ctx, p, i, rate=rates[i], least=mins[i],
                      more=None if more is None else more[i],
                      balance=None if balances is None else balances[i])
            for i in range(n)]
    amount = ctx.real('amount', 1, 2 * n * AMT)
    if name == 'Avalanche':
        order = sorted(range(n), key=lambda i: -rates[i])
    else:
        for i in range(n):
            for j in range(i):
                ctx.assume(made[i][1] != made[j][1])
        order = sorted(range(n), key=lambda i: made[i][1])
    strategy = name
    if method:
        strategy = {'Avalanche': DebtPaymentStrategy.strategy_avalanche,
                    'Snowball': DebtPaymentStrategy.strategy_snowball}[name]
    s = DebtPaymentStrategy(strategy)
    accts = [d[0] for d in made]
    available = {ctx.num(t): amount / len(when) for t in when}
    result = s(list(accts), available)
    if len(when) == 1:
        judge(ctx, ['o'] + order, accts, result, amount, 1,
              [0 if m == 0 else d[2] for d, m in zip(made, mins)],
              [d[3] for d in made])
    else:
        got = [ctx.sum(result.get(a, {}).values()) for a in accts]
        ctx.check(ctx.le(ctx.sum(got), amount + TOL), 'no more than given')
        for i, a in enumerate(accts):
            for t, v in result.get(a, {}).items():
                a.add_transaction(v, when=t)
        end = [a.balance_at_time(ctx.num(1)) for a in accts]
        for k, i in enumerate(order):
            ctx.check(ctx.le(end[i], TOL), 'never overpaid')
            for j in order[k + 1:]:
                ctx.check(ctx.Or(ctx.ge(end[i], -TOL), ctx.le(got[j], TOL)),
                          'earlier ones first')


def accounts(ctx, name, kinds, weights, direction='in', rooms=None,
             debt_strategy=None, threshold=None, rates=None, balances=None,
             paid=(), method=False, before=None):
    """Each account type gets what its weight says."""
    p = person()
    sign = 1 if direction == 'in' else -1
    accts, hi, owed = [], [], {}
    for i, k in enumerate(kinds):
        if k in ('Debt', 'Loan'):
            if i in paid:
                a = KINDS[k](p, balance=-(before[i] if before else 0), rate=ctx.num(0.2), nper=1,
                             accelerated_payment=float('inf'))
                hi.append(0)
            else:
                a, b, _, top = make_debt(
                    ctx, p, i, kind=k, rate=rates[i],
                    balance=None if balances is None else balances[i])
                owed[i] = b
                hi.append(top if sign > 0 else 0)
                if before:
                    a = KINDS[k](p, balance=-ctx.num(before[i]),
                                 rate=ctx.num(rates[i]), nper=1,
                                 accelerated_payment=float('inf'))
        else:
            r = rooms[i] if rooms else N
            r = float('inf') if r == 'inf' else r
            room = (r if r == float('inf') else
                    ctx.real('room%d' % i, 0, AMT) if r is None
                    else ctx.num(r))
            if sign > 0:
                a = KINDS[k](p, rate=0, max_inflow_link=(p, 'own%d' % i),
                             max_inflow_limit=room)
            else:
                a = KINDS[k](p, balance=room, rate=0)
            hi.append(room)
        accts.append(a)
    amount = ctx.real('amount', 1, 5 * AMT)

    def ordered(ids):
        if (debt_strategy or 'Avalanche') == 'Avalanche':
            return sorted(ids, key=lambda i: -rates[i])
        for i in ids:
            for j in ids:
                if i < j:
                    ctx.assume(owed[i] != owed[j])
        return sorted(ids, key=lambda i: owed[i])
    high = [i for i in owed if threshold is not None
            and rates[i] >= threshold]
    groups = {}
    for i, k in enumerate(kinds):
        if i in high or i in paid:
            continue
        key = next((x for x in NAMES[k] if x in weights), None)
        if key is not None:
            groups.setdefault(key, []).append(i)
    kids = []
    for key in sorted(groups, key=lambda x: weights[x]):
        ids = groups[key]
        sub = (ids[0] if len(ids) == 1 else
               ['o'] + ordered(ids) if set(ids) <= set(owed) else
               ['w'] + [[1, i] for i in ids])
        kids.append([weights[key], sub])
    shape = (['o'] + [k for _, k in kids] if name == 'Ordered'
             else ['w'] + kids)
    if high:
        shape = ['o', ['o'] + ordered(high), shape]
    strategy = name
    if method:
        strategy = {'Ordered': TransactionStrategy.strategy_ordered,
                    'Weighted': TransactionStrategy.strategy_weighted}[name]
    args = {} if debt_strategy is None else dict(debt_strategy=debt_strategy)
    s = TransactionStrategy(
        strategy, {k: ctx.num(w) for k, w in weights.items()},
        high_interest_threshold=threshold, **args)
    given = list(accts)
    if before:
        # the year before, debts were other than they are now
        s({ctx.num(1): ctx.num(sign * 400)}, given)
        for i, a in enumerate(accts):
            if kinds[i] in ('Debt', 'Loan'):
                due = before[i] * (1 + (.2 if i in paid else rates[i]))
                a.add_transaction(ctx.num(due) - owed.get(i, 0), when=1)
            a.next_year()
    result = s({ctx.num(1): sign * amount}, given)
    ctx.check(given == accts, 'arguments are not modified')
    judge(ctx, shape, accts, result, amount, sign, [0] * len(accts), hi)


debts.opts = accounts.opts = dict(fork=True)


def tasks(tier):
    t = []
    for name in ('Avalanche', 'Snowball'):
        t.append((debts, dict(name=name, mins=[N])))
        t.append((debts, dict(name=name, mins=[0, 0])))
        t.append((debts, dict(name=name, mins=[0, N], balances=[500, 300],
                              method=True)))
        t.append((debts, dict(name=name, mins=[50, 20], more=[100, 400])))
        t.append((debts, dict(name=name, mins=[0, 0, 0],
                              permute=name == 'Avalanche')))
        t.append((debts, dict(name=name, mins=[0, 0], when=(0, 0.5),
                              permute=False)))

    def add(*kinds, **kw):
        t.append((accounts, dict(kinds=list(kinds), **kw)))
    w = dict(A=2, B=1)
    add('A', 'B', name='Ordered', weights=w)
    add('A', 'B', name='Ordered', weights=dict(A=1, B=2), method=True)
    add('A', 'B', 'Other', name='Ordered', weights=w)
    add('A', 'SubA', 'B', name='Ordered', weights=dict(A=2, B=3, SubA=1))
    add('A', 'B', name='Ordered', weights=w, direction='out')
    add('A', 'SubA', 'B', name='Ordered', weights=w, rooms=[100, 200, N])
    add('A', 'SubA', 'B', name='Ordered', weights=dict(B=2, A=1),
        rooms=[100, 200, N], direction='out')
    add('SubA', 'B', 'Other', name='Ordered', weights=dict(Account=1, SubA=2),
        rooms=[N, 100, 200])
    add('SubA', 'B', 'Other', 'A', 'A', name='Ordered',
        weights=dict(A=3, SubA=2, Other=1, B=4),
        rooms=[100, 200, 300, 400, 50])
    add('A', 'B', 'SubA', 'A', 'Other', name='Ordered',
        weights=dict(A=2, Other=4, SubA=3, B=1), direction='out',
        rooms=[100, 200, 300, 400, 50])
    add('A', 'B', name='Weighted', weights=dict(A=3, B=1),
        rooms=['inf', 400], method=True)
    add('A', 'SubA', 'B', 'Other', name='Weighted', weights=dict(A=1, B=1),
        rooms=[100, 300, 200, 50])
    add('A', 'B', 'Other', name='Weighted', weights=dict(A=1, B=3),
        rooms=[100, 300, 400], direction='out')
    for ds in ('Avalanche', 'Snowball', None):
        add('A', 'Debt', 'Debt', name='Ordered', weights=dict(A=2, Debt=1),
            rates=[0, .04, .08], balances=[0, 100, 200],
            debt_strategy=ds, threshold=None)
        add('A', 'Debt', 'Loan', name='Ordered', debt_strategy=ds,
            weights=dict(A=2, Debt=1), rates=[0, .04, .08],
            threshold=0.06)
        add('A', 'Debt', 'Debt', 'Debt', name='Ordered', debt_strategy=ds,
            weights=dict(A=1, Debt=2), rates=[0, .04, 0, .08],
            balances=[0, 300, 0, 200], paid=[2], threshold=1)
        add('Debt', 'Debt', 'A', name='Weighted', debt_strategy=ds,
            weights=dict(A=1, Debt=1), rates=[.04, .08, 0], threshold=1,
            balances=[300, 200, 0], rooms=[0, 0, 400])
        add('Debt', 'Loan', 'Debt', 'A', name='Ordered', debt_strategy=ds,
            weights=dict(A=2, Debt=1), rates=[.04, .08, .12, 0],
            threshold=0.06, balances=[100, 200, 150, 0])
    add('A', 'Debt', 'Loan', 'Loan', name='Ordered',
        weights=dict(A=2, Debt=1, Loan=3), rates=[0, .04, .02, .05],
        threshold=1, balances=[0, 100, 200, 300], debt_strategy='Avalanche')
    add('A', 'Debt', name='Ordered', weights=dict(A=2, Debt=1),
        rates=[0, .04], direction='out', threshold=1)
    # debts among accounts of other types
    for name in ('Ordered', 'Weighted'):
        add('A', 'Debt', 'B', name=name, weights=dict(Account=1, B=2),
            rates=[0, .04, 0], balances=[0, 300, 0], rooms=[500, 0, 200],
            threshold=1)
    add('A', 'Debt', name='Weighted', weights=dict(A=1), rates=[0, .1],
        threshold=.1, rooms=[100, 0])
    # the same strategy a year later
    for name in ('Ordered', 'Weighted'):
        for ds in ('Snowball', 'Avalanche'):
            add('A', 'Debt', 'Debt', name=name, weights=dict(A=2, Debt=1),
                rates=[0, .04, .08], balances=[0, None, 200], threshold=1,
                rooms=[100, 0, 0], debt_strategy=ds, before=[0, 500, 300])
        add('A', 'Debt', 'Debt', 'Debt', name=name, weights=dict(A=1, Debt=2),
            rates=[0, .2, .08, .04], balances=[0, 0, 200, 300], paid=[1],
            threshold=.5, rooms=[100, 0, 0, 0], before=[0, 100, 100, 200])
    # nobody named, or only debts that come first
    for name in ('Ordered', 'Weighted'):
        for d in ('in', 'out'):
            add('Other', 'B', name=name, weights=dict(A=1), direction=d)
            add('Other', 'A', name=name, weights=dict(A=2, B=1), direction=d)
        add('Debt', 'Loan', name=name, weights=dict(A=1), rates=[.04, .08],
            threshold=.01, balances=[100, None])
        add('Debt', 'A', name=name, weights=dict(B=1), rates=[.04, 0],
            threshold=.01)
        add(name=name, weights=dict(A=1))
    if tier == 'thorough':
        for name in ('Avalanche', 'Snowball'):
            t.append((debts, dict(name=name, mins=[0, 0, 0])))
            t.append((debts, dict(name=name, mins=[0, N])))
            t.append((debts, dict(name=name, mins=[N, N],
                                  balances=[500, 300])))
            t.append((debts, dict(name=name, mins=[10, 20, 30],
                                  balances=[400, 300, 200])))
            t.append((debts, dict(name=name, mins=[0, 0, 0], when=(0, 0.5),
                                  balances=[100, 200, 300])))
        add('A', 'SubA', 'B', 'Other', name='Ordered',
            weights=dict(A=2, B=3, SubA=1, Other=4))
        add('A', 'SubA', 'B', 'Other', name='Ordered',
            weights=dict(A=1, B=3, Other=2), rooms=[N, 'inf', N, N])
        add('A', 'B', name='Weighted', weights=dict(A=3, B=1))
        add('A', 'SubA', 'B', name='Weighted', weights=dict(A=1, B=1),
            rooms=[N, 300, 200])
    return t
