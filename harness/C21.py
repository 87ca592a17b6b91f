"""C21: proposed transactions are possible, and as much as possible."""
from forecaster.accounts import Account, Debt, LinkedLimitAccount
from forecaster.strategy.transaction import TransactionTraversal, LimitTuple
from harness import tree as trees
from harness.common import person

BOUNDS = (
    'priority trees of up to 4 leaves (ordered, weighted, nested, with and '
    'without limits on nodes) in both directions, with symbolic amounts, '
    'symbolic room and symbolic minimums where listed; real accounts '
    '(ordinary, linked, debts, with minimum withdrawals) with symbolic '
    'balances and limits, schedules of up to 3 timings with concrete '
    'weights, rates 0 and 50 %; weighted trees in whole units of the '
    'precision (real-valued amounts for the smallest).')
ASSUMPTIONS = [
    'exact real arithmetic',
    'results are compared to within ten smallest units (the solver behind '
    'the traversal works in whole units)',
    'networkx is executed symbolically like the code itself']
AMT = 100000
N = None


def limits(ctx, shape, direction, rooms, floors, limited=(), **kw):
    """Leaves that say how much they take: nobody gets too much or little."""
    trees.run(ctx, shape, direction, rooms, floors, limited,
              what=('limits',), **kw)


class Minimum(Account):
    """An account from which something must be withdrawn each year."""
    floor = 0

    @property
    def min_outflow_limit(self):
        return -self.floor


def accounts(ctx, shape, direction, kinds, timing=((0.5, 1),), rate=0,
             total=None):
    """Real accounts: limits, proportions and year-end balances."""
    p = person()
    sign = 1 if direction == 'in' else -1
    accts, hi, lo, group = [], [], [], []
    shared = ctx.real('shared', 0, AMT) if 'link' in kinds else None
    for i, kind in enumerate(kinds):
        b = ctx.real('b%d' % i, 0, AMT)
        r = ctx.num(rate)
        if kind in ('debt', 'debt+'):
            least = ctx.real('min%d' % i, 0, AMT)
            more = (ctx.real('more%d' % i, 0, AMT) if kind == 'debt'
                    else float('inf'))
            a = Debt(p, balance=-b, rate=r, nper=1, minimum_payment=least,
                     accelerated_payment=more)
            hi.append(ctx.min(b, least + more) if sign > 0 else 0)
            lo.append(ctx.min(b, least) if sign > 0 else 0)
        elif kind == 'link':
            args = (dict(max_inflow_link=(p, 'tok'), max_inflow_limit=shared)
                    if sign > 0 else
                    dict(max_outflow_link=(p, 'tok'),
                         max_outflow_limit=-shared))
            a = LinkedLimitAccount(p, balance=b, rate=r, nper=1, **args)
            group.append(i)
            hi.append(shared if sign > 0 else ctx.min(b, shared))
            lo.append(0)
        elif kind == 'min':
            a = Minimum(p, balance=b, rate=r, nper=1)
            a.floor = ctx.real('min%d' % i, 0, AMT)
            ctx.assume(a.floor <= b)
            hi.append(float('inf') if sign > 0 else b)
            lo.append(0 if sign > 0 else a.floor)
        else:
            a = Account(p, balance=b, rate=r, nper=1)
            hi.append(float('inf') if sign > 0 else b)
            lo.append(0)
        accts.append(a)
    amount = ctx.real('amount', 1, 3 * AMT)
    weight = sum(w for _, w in timing)
    available = {ctx.num(t): sign * amount * ctx.num(w) / weight
                 for t, w in timing}
    given = dict(available)
    args = {}
    aim = amount
    if total:
        aim = ctx.real('total', 1, 3 * AMT)
        args = dict(total=sign * aim)
    T = TransactionTraversal(trees.build(shape, accts, []))
    result = T(available, **args)
    ctx.check(available == given, 'available is not modified')
    ctx.check(set(result) <= set(accts), 'only accounts of the tree')
    tol = 0.002
    got = []
    for i, a in enumerate(accts):
        flows = result.get(a, {})
        own = ctx.sum(flows.values()) * sign
        got.append(own)
        for t, v in flows.items():
            ctx.check(ctx.ge(v * sign, 0), 'direction')
            ctx.check(ctx.eq(v * weight * sign,
                             own * [w for u, w in timing
                                    if ctx.num(u) == t][0], tol),
                      'spread like the money available')
        if rate == 0:
            ctx.check(ctx.le(own, hi[i] + tol), 'within limits')
            ctx.check(ctx.Or(ctx.ge(own, lo[i] - tol),
                             sign > 0 and aim < ctx.sum(lo)),
                      'minimums paid')
        for t, v in flows.items():
            a.add_transaction(v, when=t)
        end = a.balance_at_time(ctx.num(1))
        if kinds[i] in ('debt', 'debt+'):
            ctx.check(ctx.le(end, tol), 'never overpaid')
        elif sign < 0:
            ctx.check(ctx.ge(end, -2 * tol), 'never overdrawn')
    if group:
        ctx.check(ctx.le(ctx.sum(got[i] for i in group), shared + tol),
                  'shared limit kept')
    if rate == 0:
        cap = ctx.sum(hi[i] for i in range(len(accts)) if i not in group)
        if group:
            cap = cap + ctx.min(shared, ctx.sum(hi[i] for i in group))
        want = ctx.min(aim, cap)
        if sign < 0:
            want = ctx.max(want, ctx.sum(lo))
        ctx.check(ctx.le(ctx.abs(ctx.sum(got) - want), tol),
                  'as much as possible, no more')


def shared_outflows(ctx):
    """Accounts sharing a withdrawal limit larger than the last's balance."""
    accounts(ctx, ['o', 0, 1], 'out', ['link', 'link'])


def methods(ctx, direction):
    """Leaves of any type, through custom methods."""
    sign = 1 if direction == 'in' else -1
    room = {k: ctx.real('room_' + k, 0, AMT) for k in 'ab'}
    floor = {k: ctx.real('floor_' + k, 0, AMT) for k in 'ab'}
    pot = ctx.real('pot', 0, AMT)
    for k in 'ab':
        ctx.assume(floor[k] <= room[k])
    ctx.assume(floor['a'] + floor['b'] <= pot)
    for k in 'ab':
        ctx.assume(room[k] <= pot)

    def method(table):
        def for_leaf(leaf):
            def flows(timing, transaction_limit=None):
                x = table[leaf]
                if transaction_limit is not None:
                    lim = abs(transaction_limit)
                    x = lim if lim < x else x
                return {ctx.num(1): sign * x}
            return flows
        return for_leaf

    def no_group(leaf):
        return None

    def same_group(leaf):
        return {'a', 'b'}
    mn, mx = method(floor), method(dict.fromkeys('ab', pot))
    T = TransactionTraversal(
        ['a', 'b'], transaction_methods=LimitTuple(mn, mx, mn, mx),
        group_methods=LimitTuple(no_group, same_group, no_group, same_group))
    amount = ctx.real('amount', 1, AMT)
    ctx.assume(amount >= floor['a'] + floor['b'])
    r = T({ctx.num(0): sign * amount})
    got = {k: ctx.sum(r.get(k, {}).values()) * sign for k in 'ab'}
    tol = 0.002
    for k in 'ab':
        ctx.check(ctx.ge(got[k], floor[k] - tol), 'minimums paid')
    both = got['a'] + got['b']
    ctx.check(ctx.le(both, pot + floor['a'] + floor['b'] + tol),
              'shared limit kept')
    ctx.check(ctx.le(both, amount + tol), 'no more than available')


def nothing(ctx, tiny):
    """Nothing available: nothing proposed."""
    a = Account(person(), balance=ctx.real('b', 0, AMT))
    x = ctx.real('x', -AMT, AMT)
    T = TransactionTraversal([a])
    if tiny:
        r = T({ctx.num(0): x, ctx.num(1): -x})
    else:
        r = T({})
    ctx.check(r == {}, 'nothing proposed')


def again(ctx, shape, first, rooms=(None, None), fixed=None, start=None,
          assign_min=True):
    """A traversal keeps no memory of earlier calls."""
    rooms = [ctx.real('room%d' % i, 0, AMT) if r is None else ctx.num(r)
             for i, r in enumerate(rooms)]
    amount = ctx.real('amount', 1, 3 * AMT)
    before = ctx.num(fixed) if fixed else ctx.real('before', 1, 3 * AMT)

    def new():
        ls = [trees.Leaf(ctx, i, rooms[i], ctx.num(0)) for i in range(2)]
        return ls, TransactionTraversal(trees.build(shape, ls, []))
    l1, t1 = new()
    l2, t2 = new()
    half = ctx.num(0.5)
    if first == 'same' and fixed:
        amount = before
    elif first == 'same':
        before = amount
    for a, r in zip(l1, start or rooms):
        a.room = ctx.num(r) if start else r
    t1({half: -before if first == 'out' else before}, assign_min=assign_min)
    for a, r in zip(l1, rooms):
        a.room = r
    r1 = t1({half: amount}, assign_min=assign_min)
    r2 = t2({half: amount}, assign_min=assign_min)
    for a, b in zip(l1, l2):
        ctx.check(ctx.eq(ctx.sum(r1.get(a, {}).values()),
                         ctx.sum(r2.get(b, {}).values()), 0.002),
                  'same result again')


for f in (limits, accounts, shared_outflows, methods, again):
    f.opts = dict(fork=True)


def W(*k):
    return ['w'] + [list(x) for x in k]


def O(*k):
    return ['o'] + list(k)


def L(what, i, child):
    return ['l', [what, i], child]


def tasks(tier):
    t = []

    def add(shape, rooms, floors, limited=(), dirs=('in', 'out'), **kw):
        for d in dirs:
            t.append((limits, dict(shape=shape, direction=d, rooms=rooms,
                                   floors=floors, limited=limited, **kw)))
    for d in ('in', 'out'):
        for kinds in (['plain', 'plain'], ['min', 'min'], ['min', 'plain'],
                      ['debt'], ['debt', 'plain'], ['link', 'plain']):
            if 'debt' in kinds and d == 'out':
                continue
            if 'min' in kinds and d == 'in':
                continue
            t.append((accounts, dict(
                shape=O(*range(len(kinds))), direction=d, kinds=kinds)))
        t.append((accounts, dict(
            shape=O(0, 1), direction=d, kinds=['plain', 'plain'],
            timing=((0, 1), (0.5, 2), (1, 1)))))
        t.append((accounts, dict(
            shape=O(0, 1), direction=d, kinds=['plain', 'plain'],
            timing=((0, 3), (1, 1)), rate=0.5)))
        t.append((accounts, dict(
            shape=O(0, 1), direction=d, kinds=['plain', 'plain'],
            total=True)))
        t.append((methods, dict(direction=d)))
        t.append((again, dict(shape=O(0, 1), first=d)))
        t.append((again, dict(shape=W((1, 0), (1, 1)), first=d,
                              rooms=[300, None], fixed=250)))
    for m in (True, False):
        t.append((again, dict(shape=O(0, 1), first='same', start=[200, 500],
                              assign_min=m)))
        t.append((again, dict(shape=W((1, 0), (1, 1)), first='same',
                              start=[200, 500], rooms=[300, None], fixed=450,
                              assign_min=m)))
    t.append((accounts, dict(shape=O(0, 1), direction='in',
                             kinds=['debt', 'debt+'])))
    t.append((accounts, dict(shape=O(0, 1), direction='in',
                             kinds=['link', 'link'])))
    t.append((accounts, dict(shape=O(0, 1, 2), direction='in',
                             kinds=['link', 'plain', 'link'])))
    t.append((accounts, dict(shape=O(0, 1), direction='in',
                             kinds=['debt', 'plain'],
                             timing=((0, 1), (1, 1)), rate=0.5)))
    t.append((accounts, dict(shape=O(0, 1), direction='out',
                             kinds=['min', 'plain'],
                             timing=((0, 1), (1, 1)), rate=0.5)))
    t.append((shared_outflows, {}))
    t += [(nothing, dict(tiny=x)) for x in (True, False)]
    add(O(0), [N], [N])
    add(O(0, 1), [N, N], [N, N], assign_min=False)
    add(O(0, 1), [N, 'inf'], [N, N], dirs=['in'])
    add(O(0, 1, 2), [N] * 3, [0] * 3)
    add(W((1, 0), (3, 1)), [200, N], [0, N], dirs=['in'])
    add(W((1, 0), (3, 1)), [200, N], [0, N], dirs=['out'])
    add(W((1, 0), (1, 1), (2, 2)), [300, 'inf', 100], [0, 0, 0])
    add(O(L('max_inflow', 0, 0), 1), [N, 'inf'], [0, 0], [N], ['in'])
    add(O(L('max_outflow', 0, 0), 1), ['inf', 500], [N, 0], [N], ['out'])
    add(O(L('max_inflow', 0, O(0, 1)), 2), [N, 'inf', N], [0, 0, 0], [N],
        ['in'])
    if tier == 'thorough':
        t.append((accounts, dict(shape=O(0, 1), direction='in',
                                 kinds=['debt', 'debt'])))
        t.append((accounts, dict(shape=O(0, 1, 2), direction='in',
                                 kinds=['debt', 'plain', 'debt+'])))
        t.append((accounts, dict(shape=O(0, 1, 2), direction='out',
                                 kinds=['min', 'plain', 'min'])))
        t.append((accounts, dict(shape=O(0, 1, 2), direction='in',
                                 kinds=['link', 'plain', 'link'],
                                 timing=((0, 1), (1, 3)), rate=0.5)))
        t.append((accounts, dict(shape=W((1, 0), (2, 1)), direction='out',
                                 kinds=['plain', 'plain'])))
        t.append((accounts, dict(shape=O(0, O(1, 2), 3), direction='out',
                                 kinds=['plain'] * 4)))
        add(O(0, 1), [N, N], [N, N])
        add(O(0, 1, 2), [N] * 3, [0, N, 0])
        add(W((1, 0), (3, 1)), [N, N], [0, N], units=True)
        add(W((1, 0), (3, 1)), [N, N], [N, N], units=True)
        add(W((2, 0), (3, 1)), [N, N], [0, 0])
        add(O(0, O(1, 2), 3), [N] * 4, [0] * 4)
        add(W((1, 0), (1, 1), (2, 2)), [300, 'inf', 100], [20, 0, 50])
    return t
