"""C26: money moved by a subforecast is neither created nor lost."""
from forecaster.accounts import Account
from forecaster.forecast.subforecast import SubForecast
from forecaster.utility import Timing
from harness.common import person, YEAR

BOUNDS = (
    'up to 3 (thorough: 4) transactions of symbolic value and sign between '
    'every pair of: outside the model, two pools of cash (dicts) and two '
    'accounts; spread over up to 3 timings with symbolic weights '
    '(concrete ones in non-strict mode), one of them at a symbolic time; up to 2 existing entries with symbolic '
    'amounts in each pool and account; strict and non-strict timing; undone '
    'and repeated up to 3 times, over up to 3 years.')
ASSUMPTIONS = [
    'exact real arithmetic', 'weights of a timing add up to more than 0',
    'accounts used have no growth in non-strict mode (see C27)']
AMT = 1000
NAMES = ['out', 'd', 'e', 'a', 'b']


def total(ctx, x):
    return ctx.sum(x.values())


class World:
    """Two pools, two accounts, a subforecast; and what they should hold."""

    def __init__(self, ctx, entries, rate=0):
        self.ctx = ctx
        self.p = person()
        self.sub = SubForecast(YEAR)
        n = [0]

        def fill(x):
            for t in entries:
                x[ctx.num(t)] = ctx.real('x%d' % n[0], -AMT, AMT)
                n[0] += 1
            return x
        self.at = {'out': None}
        for k in 'de':
            self.at[k] = fill({})
        for k in 'ab':
            self.at[k] = fill(Account(
                self.p, balance=ctx.real('bal_' + k, -AMT, AMT),
                rate=ctx.num(rate)))
        # a bystander that should not change
        self.other = fill(Account(self.p, balance=ctx.num(5)))
        self.start = self.snap()
        self.moved = {k: [] for k in NAMES}

    def snap(self):
        return {k: [] if x is None else list(x.items())
                for k, x in list(self.at.items()) + [('other', self.other)]}

    def value(self, items, t):
        """Amount at t."""
        return self.ctx.sum(self.ctx.ite(self.ctx.eq(s, t), v, 0)
                            for s, v in items)

    def same(self, one, two, label):
        """The same amounts at the same times (missing ones are 0)."""
        for t, _ in list(one) + list(two):
            self.ctx.check(self.ctx.eq(self.value(one, t),
                                       self.value(two, t)), label)

    def add(self, src, dst, timing, strict, value, several=False):
        """One transaction, judged."""
        ctx = self.ctx
        before = self.snap()
        books = {k: list(self.sub.transactions[x].items())
                 for k, x in self.at.items()}
        if several:
            shares = dict(timing)
            self.sub.add_transactions(
                dict(timing), from_account=self.at[src],
                to_account=self.at[dst], strict_timing=strict)
        else:
            w = ctx.sum(timing.values())
            shares = {t: value * x / w for t, x in timing.items()}
            self.sub.add_transaction(
                value, timing=dict(timing), from_account=self.at[src],
                to_account=self.at[dst], strict_timing=strict)
        after = self.snap()
        change = {}
        for k in list(NAMES) + ['other']:
            change[k] = list(after[k]) + [(t, -v) for t, v in before[k]]
        s = ctx.sum(shares.values())
        for k in NAMES:
            want = (s if k == dst else 0) - (s if k == src else 0)
            got = ctx.sum(v for _, v in change[k])
            if k != 'out':
                ctx.check(ctx.eq(got, want), 'amount moved')
                book = list(self.sub.transactions[self.at[k]].items()) + [
                    (t, -v) for t, v in books[k]]
                self.same(book, change[k], 'transactions on record')
            else:
                book = list(self.sub.transactions[None].items()) + [
                    (t, -v) for t, v in books[k]]
                ctx.check(ctx.eq(ctx.sum(v for _, v in book), want),
                          'amount on record')
                change['out'] = book
        self.same(change['other'], [], 'nothing else changes')
        # both sides at the same times
        if src != dst:
            self.same([(t, -v) for t, v in change[src]], change[dst],
                      'both sides at the same time')
        if strict or src == 'out' or dst == 'out':
            exact = [(t, v) for t, v in shares.items()]
            if strict:
                self.same(change[dst] if src != dst else [],
                          exact if src != dst else [], 'at the times asked')
        return change

    def undo(self):
        self.sub.undo_transactions()
        self.restored()

    def restored(self):
        now = self.snap()
        for k in now:
            self.same(now[k], self.start[k], 'restored')
        for k, x in self.at.items():
            self.same(list(self.sub.transactions[x].items()), [],
                      'nothing on record')


def weights(ctx, ts, name, free):
    d = {}
    for i, t in enumerate(ts):
        d[ctx.real('t' + name, 0, 1) if t == 'any' else ctx.num(t)] = (
            ctx.real('w%s%d' % (name, i), 0, 10) if len(ts) > 1 and free
            else ctx.num(1 + i))
    ctx.assume(ctx.sum(d.values()) > 0.01)
    return d


def moves(ctx, entries, timings, strict, route=None, several=False):
    """A sequence of transactions, undone."""
    w = World(ctx, entries)
    for k, ts in enumerate(timings):
        if route:
            src, dst = route[k]
        else:
            src = ctx.pick('from%d' % k, NAMES)
            dst = ctx.pick('to%d' % k, NAMES)
            if src == dst:
                ctx.assume(False)
        w.add(src, dst, weights(ctx, ts, str(k), strict), strict,
              ctx.real('v%d' % k, -AMT, AMT), several)
    w.undo()


def itself(ctx, which):
    """Moving money to where it is changes nothing."""
    w = World(ctx, (0.5,))
    w.add(which, which, {ctx.num(0.5): ctx.num(1)}, True,
          ctx.real('v', -AMT, AMT))
    w.undo()


def default_timing(ctx, given):
    """No timing given: the default one."""
    if given:
        t = {ctx.num(0.25): ctx.real('w0', 1, 10),
             ctx.num(1): ctx.real('w1', 1, 10)}
        sub = SubForecast(YEAR, default_timing=Timing(t))
    else:
        t = {ctx.num(0.5): ctx.num(1)}
        sub = SubForecast(YEAR)
    v = ctx.real('v', 0, AMT)
    d = {}
    sub.add_transaction(v, to_account=d)
    w = ctx.sum(t.values())
    for s, x in t.items():
        got = ctx.sum(ctx.ite(ctx.eq(r, s), y, 0) for r, y in d.items())
        ctx.check(ctx.eq(got * w, v * x), 'default timing')


class Plan(SubForecast):
    """Moves money as planned (amount depends on what is available)."""

    def __init__(self, year, plan, **kw):
        super().__init__(year, **kw)
        self.plan = plan

    def __call__(self, available):
        super().__call__(available)
        for frac, t, a in self.plan:
            self.add_transaction(
                self.total_available * frac, timing=t,
                from_account=available, to_account=a)


def again(ctx, calls, kind, years):
    """Calling a subforecast again is as if it was called once."""
    p = person()
    a = Account(p, balance=ctx.real('bal', 0, AMT), rate=ctx.num(0))
    b = Account(p, balance=ctx.num(0), rate=ctx.num(0))
    # (products of symbols over several years take the solver too long)
    f0, f1, f2 = [
        ctx.real('f%d' % i, 0, 1) if kind == 'dict' or years == 1
        else ctx.num(x) for i, x in enumerate((0.25, 0.5, 0.125))]
    plan = [(f0, ctx.num(0.5), a),
            (f1, {ctx.num(0): ctx.num(1), ctx.num(1): ctx.num(2)}, b),
            (f2, ctx.num(0.5), None)]
    sub = Plan(YEAR, plan)
    past = []
    for y in range(years):
        if kind == 'dict':
            available = {ctx.num(0): ctx.real('c%d_0' % y, 0, AMT),
                         ctx.num(0.5): ctx.real('c%d_1' % y, 0, AMT)}
            before = dict(available)
            there = ctx.sum(available.values())
        else:
            available = Account(
                p, balance=ctx.real('c%d' % y, 0, AMT), rate=ctx.num(0))
            before = {}
            there = available.balance
        for k in range(calls):
            sub(available)
            ctx.check(ctx.eq(sub.total_available, there),
                      'money there before the call')
        for acct, fs in ((a, [plan[0]]), (b, [plan[1]]),
                         (None, [plan[2]])):
            want = there * ctx.sum(f for f, _, _ in fs)
            if acct is not None:
                ctx.check(ctx.eq(total(ctx, acct), want),
                          'account as if called once')
            ctx.check(ctx.eq(total(ctx, sub.transactions[acct]), want),
                      'record as if called once')
        spent = there * ctx.sum(f for f, _, _ in plan)
        ctx.check(ctx.eq(total(ctx, available) - ctx.sum(before.values()),
                         -spent), 'cash as if called once')
        ctx.check(ctx.eq(total(ctx, sub.transactions[available]), -spent),
                  'record of cash as if called once')
        past.append((available, there))
        p.next_year()
        for acct in (a, b):
            acct.next_year()
        sub.next_year()
        ctx.check(all(len(x) == 0 for x in
                      [sub.transactions[a], sub.transactions[b]]),
                  'a new year starts without transactions')
        ctx.check(ctx.And(ctx.eq(total(ctx, a), 0), True),
                  'a new year starts without transactions')
        for i, (av, th) in enumerate(past):
            h = sub.transactions_history[YEAR + i]
            ctx.check(ctx.eq(ctx.sum(h[a].values()), th * plan[0][0]),
                      'record of past years')
            ctx.check(ctx.eq(ctx.sum(h[b].values()), th * plan[1][0]),
                      'record of past years')
            if kind == 'dict':
                ctx.check(ctx.eq(ctx.sum(h[av].values()), -th * ctx.sum(
                    f for f, _, _ in plan)), 'record of past years')


def tasks(tier):
    more = tier == 'thorough'
    t = []
    one, two, three = (0.5,), (0, 0.5), (0.25, 0.5, 1)
    for strict in (True, False):
        t.append((moves, dict(entries=(), timings=[one, two],
                              strict=strict)))
        t.append((moves, dict(entries=(0.5,), timings=[two],
                              strict=strict)))
        t.append((moves, dict(entries=(0.25, 1), timings=[three],
                              strict=strict, route=[('d', 'a')])))
        t.append((moves, dict(entries=(0.5,), timings=[one, one, one],
                              strict=strict,
                              route=[('d', 'a'), ('a', 'b'), ('b', 'd')])))
        t.append((moves, dict(entries=(0.5,), timings=[one, two, one],
                              strict=strict,
                              route=[('out', 'd'), ('d', 'e'),
                                     ('e', 'out')])))
        t.append((moves, dict(entries=(0.5,), timings=[two, one],
                              strict=strict, several=True,
                              route=[('d', 'a'), ('out', 'e')])))
        for route in (('out', 'a'), ('d', 'b'), ('a', 'd')):
            t.append((moves, dict(entries=(0.5,), timings=[('any',)],
                                  strict=strict, route=[route])))
        if more:
            t.append((moves, dict(entries=(0.5,), timings=[one, one, one],
                                  strict=strict)))
            t.append((moves, dict(
                entries=(0.5,), timings=[one, two, one, two], strict=strict,
                route=[('d', 'a'), ('a', 'b'), ('out', 'd'),
                       ('b', 'out')])))
            t.append((moves, dict(entries=(0.25, 1),
                                  timings=[('any', 0.5), ('any',)],
                                  strict=strict,
                                  route=[('d', 'a'), ('a', 'd')])))
    for which in 'dab':
        t.append((itself, dict(which=which)))
    for given in (False, True):
        t.append((default_timing, dict(given=given)))
    for kind in ('dict', 'account'):
        for calls, years in ((1, 3), (2, 2), (3, 1)):
            t.append((again, dict(calls=calls, kind=kind, years=years)))
    return t
