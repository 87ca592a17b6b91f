"""Priority trees of plain leaves for C21 and C22.

A shape is an integer (a leaf), ['o', child, ...] (ordered) or
['w', [weight, child], ...] (weighted); ['l', limit name, child] puts a limit
of its own on a child.
"""
from forecaster.strategy.transaction import (
    TransactionTraversal, TransactionNode, LimitTuple)

AMT = 100000


class Leaf:
    """Anything that can say how much it takes or gives."""

    def __init__(self, ctx, i, room, floor):
        self.ctx, self.i, self.room, self.floor = ctx, i, room, floor
        self.asked = []

    def __hash__(self):
        return self.i + 1000

    def _flow(self, what, amount, sign, timing, transaction_limit):
        self.asked.append((what, timing))
        if transaction_limit is not None:
            limit = abs(transaction_limit)
            amount = limit if limit < amount else amount
        return {self.ctx.num(0.5): sign * amount}

    def max_inflows(self, timing, transaction_limit=None):
        """ Up to `room`. """
        return self._flow('max', self.room, 1, timing, transaction_limit)

    def min_inflows(self, timing, transaction_limit=None):
        """ At least `floor`. """
        return self._flow('min', self.floor, 1, timing, transaction_limit)

    def max_outflows(self, timing, transaction_limit=None):
        """ Up to `room`. """
        return self._flow('max', self.room, -1, timing, transaction_limit)

    def min_outflows(self, timing, transaction_limit=None):
        """ At least `floor`. """
        return self._flow('min', self.floor, -1, timing, transaction_limit)


def leaves_of(shape):
    """Numbers of the leaves, in order of priority."""
    if isinstance(shape, int):
        return [shape]
    if shape[0] == 'o':
        kids = shape[1:]
    elif shape[0] == 'w':
        kids = [k for _, k in shape[1:]]
    else:
        kids = [shape[2]]
    return [n for k in kids for n in leaves_of(k)]


def build(shape, leaves, limits, top=True, plain=False):
    """The priority tree."""
    if isinstance(shape, int):
        return leaves[shape]
    if shape[0] == 'l':
        return TransactionNode(
            build(shape[2], leaves, limits, plain=plain),
            limits=LimitTuple(**{shape[1][0]: limits[shape[1][1]]}))
    if shape[0] == 'o':
        r = [build(k, leaves, limits, False, plain) for k in shape[1:]]
        return r if top else tuple(r)
    r = {build(k, leaves, limits, False, plain): w for w, k in shape[1:]}
    return r if top else TransactionNode(r)


class Totals:
    """What a (sub)tree gets, may get, and must get at least."""

    def __init__(self, ctx, shape, got, lo, hi, limits):
        self.shape, self.kids = shape, []
        if isinstance(shape, int):
            self.got, self.lo, self.hi = got[shape], lo[shape], hi[shape]
            return
        if shape[0] == 'l':
            kid = Totals(ctx, shape[2], got, lo, hi, limits)
            self.kids = [kid]
            self.got, self.lo = kid.got, kid.lo
            self.hi = ctx.min(kid.hi, ctx.max(ctx.abs(limits[shape[1][1]]),
                                              kid.lo))
            return
        self.kids = [Totals(ctx, k if shape[0] == 'o' else k[1], got, lo, hi,
                            limits) for k in shape[1:]]
        self.got = ctx.sum(k.got for k in self.kids)
        self.lo = ctx.sum(k.lo for k in self.kids)
        self.hi = ctx.sum(k.hi for k in self.kids)


def limits_kept(ctx, t, tol):
    """Nobody gets more than allowed."""
    ctx.check(ctx.le(t.got, t.hi + tol), 'within limits')
    for k in t.kids:
        limits_kept(ctx, k, tol)


def in_order(ctx, t, tol):
    """Who gets it."""
    if isinstance(t.shape, int):
        return
    if t.shape[0] == 'o':
        for i, a in enumerate(t.kids):
            for b in t.kids[i + 1:]:
                ctx.check(ctx.Or(ctx.ge(a.got, a.hi - tol),
                                 ctx.le(b.got, b.lo + tol)),
                          'earlier ones first')
    elif t.shape[0] == 'w':
        w = [k[0] for k in t.shape[1:]]
        for i, a in enumerate(t.kids):
            for j, b in enumerate(t.kids):
                if i != j:
                    ctx.check(ctx.Or(
                        ctx.ge(a.got, a.hi - tol),
                        ctx.le(b.got, b.lo + tol),
                        ctx.ge(a.got * w[j], b.got * w[i]
                               - tol * (w[i] + w[j]))),
                        'shares by weight')
    for k in t.kids:
        in_order(ctx, k, tol)


def run(ctx, shape, direction, rooms, floors, limited=(), more=None,
        what=('limits', 'order'), total=None, assign_min=True, units=False):
    """Distributes an amount over a tree and checks who got what.

    rooms, floors: per leaf a number, 'inf', or None (symbolic).
    units: amounts are whole numbers of the smallest unit.
    """
    n = len(rooms)
    real = ctx.int if units else ctx.real
    tol = 10 if units else 0.002
    room = [float('inf') if r == 'inf' else
            real('room%d' % i, 0, AMT) if r is None else ctx.num(r)
            for i, r in enumerate(rooms)]
    floor = [real('floor%d' % i, 0, AMT) if f is None else ctx.num(f)
             for i, f in enumerate(floors)]
    for f, r in zip(floor, room):
        if r != float('inf'):
            ctx.assume(f <= r)
    sign = 1 if direction == 'in' else -1
    limits = [sign * real('limit%d' % i, 0, AMT) if v is None
              else ctx.num(sign * v) for i, v in enumerate(limited)]
    leaves = [Leaf(ctx, i, room[i], floor[i]) for i in range(n)]
    tree = build(shape, leaves, limits)
    amount = real('amount', 20, 3 * AMT) if total is None else (
        ctx.num(total))
    T = TransactionTraversal(tree, **(dict(precision=1) if units else {}))
    available = {ctx.num(0.5): sign * amount}
    given = dict(available)
    args = {} if assign_min else dict(assign_min=False)
    result = T(available, **args)
    ctx.check(available == given, 'available is not modified')
    ctx.check(set(result) <= set(leaves), 'only accounts of the tree')
    got = []
    for leaf in leaves:
        x = [v * sign for v in result.get(leaf, {}).values()]
        for v in x:
            ctx.check(ctx.ge(v, 0), 'direction')
        got.append(ctx.sum(x))
    if not assign_min:
        floor = [0] * n
    least = ctx.sum(floor[i] for i in leaves_of(shape))
    lo, hi = list(floor), list(room)
    short = False
    if any(f != 0 for f in floors) and assign_min:
        short = amount < least
        if short:
            short = True
            if direction == 'in':
                lo, hi = [0] * n, list(floor)
            else:
                hi = list(floor)
            limits = [float('inf')] * len(limits)
    t = Totals(ctx, shape, got, lo, hi, limits)
    if 'limits' in what:
        limits_kept(ctx, t, tol)
        for i in range(n):
            if lo[i] is not 0:
                ctx.check(ctx.ge(got[i], lo[i] - tol), 'at least the minimum')
        want = least if short and direction == 'out' else amount
        want = ctx.min(want, t.hi)
        ctx.check(ctx.le(ctx.abs(t.got - want), tol),
                  'as much as possible, no more')
    if 'order' in what:
        in_order(ctx, t, tol)
    return T, leaves, result
