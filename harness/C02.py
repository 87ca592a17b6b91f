"""C02: timings derived from a mix of inflows and outflows."""
import itertools
from forecaster.utility import Timing

BOUNDS = ('2 to 4 (thorough: 5) distinct symbolic timings in [0,1], symbolic '
          'amounts in [-1e5, 1e5], several dict insertion orders.')
ASSUMPTIONS = ['exact real arithmetic', 'timings are distinct']


def mixed(ctx, order, zeros=()):
    n = len(order)
    ts = [ctx.real('t%d' % i, 0, 1) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(ts[i] < ts[i + 1])
    vs = [ctx.real('v%d' % i, -100000, 100000) for i in range(n)]
    for z in zeros:
        vs[z] = ctx.num(0)
    flows = {ts[i]: vs[i] for i in order}
    keep = list(flows.items())
    timing = Timing(flows)
    weights = [timing[t] if t in timing else 0 for t in ts]
    for k in timing:
        ctx.check(ctx.Or(*[k == t for t in ts]), 'only given timings')
    for w in weights:
        ctx.check(ctx.ge(w, 0), 'weights are non-negative')
    cum, c = [], 0
    for v in vs:
        c = c + v
        cum.append(c)
    total = cum[-1]
    got, g = [], 0
    for w in weights:
        g = g + w
        got.append(g)
    some_pos = ctx.Or(*[v > 0 for v in vs])
    some_neg = ctx.Or(*[v < 0 for v in vs])
    is_mixed = ctx.And(some_pos, some_neg)
    # one-directional flows: weights are the sizes of the flows
    for v, w in zip(vs, weights):
        ctx.check(ctx.Implies(ctx.And(ctx.Not(is_mixed),
                                      ctx.Or(some_pos, some_neg)),
                              ctx.eq(w, ctx.abs(v))), 'unmixed weights')
        ctx.check(ctx.Implies(ctx.Not(ctx.Or(some_pos, some_neg)),
                              ctx.eq(w, weights[0])), 'all-zero is uniform')
    # all-zero: something must be scheduled
    ctx.check(ctx.Implies(ctx.Not(ctx.Or(some_pos, some_neg)),
                          got[-1] > 0), 'all-zero still schedules')
    for i in range(n):
        # net inflow: withdraw as early as possible, never overdrawing
        room = ctx.max(0, ctx.min(cum[i:] + [cum[-1]]))
        ctx.check(ctx.Implies(ctx.And(is_mixed, total > 0),
                              ctx.eq(got[i], room)),
                  'net inflow: earliest withdrawals with no overdraft')
        need = ctx.max([-x for x in cum[:i + 1]] + [0])
        ctx.check(ctx.Implies(ctx.And(is_mixed, total < 0),
                              ctx.eq(got[i], need)),
                  'net outflow: smallest top-ups that avoid overdraft')
        ctx.observe('w%d' % i, weights[i])
    ctx.check(ctx.Implies(ctx.And(is_mixed, total == 0),
                          ctx.eq(got[-1], 0)), 'balanced flows need nothing')
    ctx.check(len(flows) == n and all(
        flows[k] is v for k, v in keep), 'input intact')


def merged(ctx, na, nb, op):
    """Merging two schedules adds (subtracts) amounts timing by timing."""
    from forecaster.utility import add_transactions, subtract_transactions
    a = {ctx.real('ta%d' % i, 0, 1): ctx.real('a%d' % i, -1e5, 1e5)
         for i in range(na)}
    b = {ctx.real('tb%d' % i, 0, 1): ctx.real('b%d' % i, -1e5, 1e5)
         for i in range(nb)}
    a0, b0 = dict(a), dict(b)
    (add_transactions if op == 'add' else subtract_transactions)(a, b)
    sign = 1 if op == 'add' else -1
    for t in list(a0) + list(b0):
        want = ctx.sum(v for k, v in a0.items() if k == t) + sign * ctx.sum(
            v for k, v in b0.items() if k == t)
        ctx.check(t in a and ctx.eq(a[t], want), 'merged amount')
    ctx.check(ctx.eq(ctx.sum(a.values()), ctx.sum(a0.values()) +
                     sign * ctx.sum(b0.values())), 'merged total')
    ctx.check(list(b.items()) == list(b0.items()), 'second schedule intact')


def tasks(tier):
    res = [(mixed, dict(order=[0])), (mixed, dict(order=[0, 1])),
           (mixed, dict(order=[1, 0]))]
    for order in itertools.permutations(range(3)):
        res.append((mixed, dict(order=list(order))))
    fours = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]]
    if tier == 'thorough':
        fours = [list(p) for p in itertools.permutations(range(4))]
        res += [(mixed, dict(order=p)) for p in
                ([0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 3, 1])]
    res += [(mixed, dict(order=p)) for p in fours]
    res += [(mixed, dict(order=[2, 0, 1], zeros=[k])) for k in range(3)]
    for op in ('add', 'subtract'):
        for na, nb in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
            res.append((merged, dict(na=na, nb=nb, op=op)))
    return res
