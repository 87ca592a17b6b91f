"""C22: money goes where the priorities say."""
from harness import tree as trees
from harness.C21 import W, O, L

BOUNDS = (
    'priority trees of up to 7 leaves (ordered, weighted, nested to three '
    'levels, with and without limits on nodes, some of them empty), in both directions; '
    'symbolic amounts everywhere; symbolic room and minimums on up to 4 '
    'leaves of ordered trees and 2 leaves of weighted trees; larger and '
    'nested weighted trees with concrete room and minimums.')
ASSUMPTIONS = [
    'exact real arithmetic',
    'results are compared to within ten smallest units (the solver behind '
    'the traversal works in whole units)',
    'networkx is executed symbolically like the code itself']
N = None


def order(ctx, shape, direction, rooms, floors, limited=(), **kw):
    """Who gets how much."""
    trees.run(ctx, shape, direction, rooms, floors, limited,
              what=('order',), **kw)


def rebuilt(ctx, shape, direction, rooms):
    """A tree built from nodes, or assigned later, works like the original."""
    from forecaster.strategy.transaction import (
        TransactionNode, TransactionTraversal)
    sign = 1 if direction == 'in' else -1
    amount = ctx.real('amount', 1, 3 * trees.AMT)
    room = [ctx.real('room%d' % i, 0, trees.AMT) if r is None else ctx.num(r)
            for i, r in enumerate(rooms)]
    got = []
    for how in ('plain', 'node', 'twice', 'later'):
        ls = [trees.Leaf(ctx, i, r, ctx.num(0)) for i, r in enumerate(room)]
        t = trees.build(shape, ls, [])
        if how == 'plain':
            T = TransactionTraversal(t)
        elif how == 'node':
            T = TransactionTraversal(TransactionNode(t))
        elif how == 'twice':
            T = TransactionTraversal(TransactionNode(TransactionNode(t)))
        else:
            T = TransactionTraversal([ls[0]])
            T.priority = t
        r = T({ctx.num(0.5): sign * amount})
        got.append([ctx.sum(r.get(x, {}).values()) for x in ls])
    for g in got[1:]:
        for a, b in zip(got[0], g):
            ctx.check(ctx.eq(a, b, 0.002), 'same result')


order.opts = rebuilt.opts = dict(fork=True)


def tasks(tier):
    t = []

    def add(shape, rooms, floors, limited=(), dirs=('in', 'out'), **kw):
        for d in dirs:
            t.append((order, dict(shape=shape, direction=d, rooms=rooms,
                                  floors=floors, limited=limited, **kw)))
    add(O(0, O(1, 2), 3), [N, N, N, 200], [0] * 4, dirs=['in'])
    add(O(O(0, 1), 2), [N] * 3, [0] * 3, dirs=['out'])
    add(W((1, 0), (1, 1)), [N, N], [0, 0])
    add(W((1, 0), (3, 1)), [N, 'inf'], [0, 0])
    add(W((1, 0), (3, 1)), [300, 500], [0, N])
    add(O(0, 1), [N, N], [0, N])
    add(O(0, 1, 2), [N, N, N], [0, 0, 0])
    add(O(0, 1, 2), [100] * 3, [0, N, N])
    add(O(0, 1, 2), [N] * 3, [10, 20, 30])
    # limits of nodes
    add(O(L('max_inflow', 0, 0), 1), ['inf', 500], [N, 0], [N], ['in'])
    add(O(L('max_outflow', 0, 0), 1), ['inf', 500], [N, 0], [N], ['out'])
    add(O(L('max_inflow', 0, O(0, 1)), 2), [N, 'inf', N], [0, 0, 0], [N],
        ['in'])
    add(W((1, L('max_inflow', 0, 0)), (2, 1)), ['inf', 300], [0, 0], [100],
        ['in'])
    # nodes without anything in them
    add(O(O(), 0, W(), 1), [N, N], [0, N])
    add(W((1, O()), (3, 0), (1, 1)), [200, 'inf'], [0, 0])
    add(O(O(O(), O()), W((1, W()), (2, 0)), 1), [N, 100], [0, 0], dirs=['in'])
    # larger weighted trees
    add(W((1, 0), (1, 1), (2, 2)), [300, 'inf', 100], [0, 0, 0])
    add(W((1, 0), (1, 1), (2, 2)), ['inf'] * 3, [10, 70, 0])
    # nested
    add(O(W((1, 0), (1, 1)), 2), [150, 200, N], [0, 0, 0])
    add(W((1, O(0, 1)), (1, 2)), [100, 200, 300], [0, 0, 0])
    add(W((1, O(0, 1)), (3, O(2, 3))), [100, 200, 300, 'inf'], [0] * 4)
    add(W((1, W((2, 0), (3, 1))), (3, 2)), [100, 200, 'inf'], [0, 0, 0])
    add(O(0, O(1, 2), W((1, 3), (1, 4)), 5), [100] * 6, [0] * 6)
    add(O(0, 1, 2, O(3, 4, 5), 6), [100] * 7, [0] * 7)
    add(O(O(O(0, 1), 2), O(3, 4)), [10, 20, 30, 40, 50], [0, 5, 10, 15, 20])
    for d in ('in', 'out'):
        t.append((rebuilt, dict(shape=O(0, 1, 2), direction=d,
                                rooms=[N, 100, N])))
        t.append((rebuilt, dict(shape=W((1, 0), (2, O(1, 2))), direction=d,
                                rooms=[100, 200, 300])))
    if tier == 'thorough':
        add(O(0, O(1, 2), 3), [N] * 4, [0] * 4)
        add(O(O(0, 1), O(2, 3)), [N] * 4, [0] * 4)
        add(W((1, 0), (3, 1)), [N, 'inf'], [0, N])
        add(W((2, 0), (3, 1)), [N, N], [0, N], units=True)
        add(O(0, 1, 2), [N] * 3, [0, N, 0])
        add(W((1, L('max_inflow', 0, 0)), (2, 1)), ['inf', 300], [0, 0], [N],
            ['in'])
        add(O(W((1, 0), (1, 1)), 2), [N, 200, N], [0, 0, 0])
        add(W((1, O(0, 1)), (1, 2)), [N, 200, 300], [0, 0, 0])
        add(W((1, W((2, 0), (3, 1))), (3, 2)), ['inf', 200, N], [0, 0, 0])
        add(W((1, W((2, 0), (3, 1))), (3, W((1, 2), (1, 3)))),
            [100, 200, 300, 400], [10, 0, 0, 20])
        add(O(0, 1, W((1, 2), (2, 3), (3, 4)), O(5, 6), 7),
            [100] * 8, [0] * 8)
    return t
