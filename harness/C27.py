"""C27: money is moved when it is there."""
from forecaster.accounts import Account
from forecaster.forecast.subforecast import SubForecast
from harness.common import person, growth, YEAR

BOUNDS = (
    'one transaction of a symbolic amount asked for at any of 5 times or at '
    'a symbolic time, from a pool of cash with up to 4 entries (at most one '
    'of them at a symbolic time) or an account with up to 3, amounts and '
    'opening balance symbolic; account growth 0, symbolic in [0, 1] '
    '(compounded yearly, entries at the start and end of the year) or a '
    'rate for which a quarter year\'s growth is rational; withdrawal limits '
    'symbolic; time to reach a balance for symbolic rate, balances and '
    'compounding 1, 2, 4 and 12 times a year.')
ASSUMPTIONS = [
    'exact real arithmetic; fractional powers and logarithms are '
    'abstracted by fresh symbols constrained by true facts',
    'balances that miss a limit by less than 1e-5 are not judged']
AMT = 1000
GAP = 0.001


def judge(ctx, when, value, keys, left, at, interior=None, extra=()):
    """`at` is the time chosen; left(s, r) is what is left at time r when
    the money is moved at s; keys are the times at which cash changes and
    extra other times that would do."""
    cand = [when] + [k for k in keys]
    for k in extra:
        if not any(k == x for x in cand):
            cand.append(ctx.num(k))

    def fits(s, gap):
        return ctx.And(*[ctx.Or(r < s, left(s, r) >= gap)
                         for r in cand + [s]])
    ctx.check(at >= when, 'not before the time asked')
    good = [ctx.And(s >= when, fits(s, GAP)) for s in cand]
    some = ctx.Or(*good)
    ctx.check(ctx.Implies(some, fits(at, -GAP)),
              'no overdraft if it can be avoided')
    for s, g in zip(cand, good):
        ctx.check(ctx.Implies(g, at <= s), 'at the earliest time')
    possible = ctx.Or(*[ctx.And(s >= when, fits(s, -GAP)) for s in cand])
    ctx.check(ctx.Or(ctx.eq(at, when), possible if interior is None
                     else ctx.Or(possible, interior(at))),
              'at the time asked if there is no good time')
    if interior is None:
        ctx.check(ctx.Or(*[ctx.eq(at, s) for s in cand]),
                  'when cash comes in, or when asked')


def moved(ctx, sub, src, value):
    """When the money left, according to the subforecast's record."""
    record = list(sub.transactions[src].items())
    ctx.check(len(record) == 1, 'moved at once')
    ctx.check(ctx.eq(record[0][1], -value), 'amount moved')
    return record[0][0]


def pool(ctx, entries, when, to_account):
    """From a dict."""
    d = {}
    for i, t in enumerate(entries):
        t = ctx.real('t', 0, 1) if t == 'any' else ctx.num(t)
        d[t] = (d[t] if t in d else 0) + ctx.real('x%d' % i, -AMT, AMT)
    when = ctx.real('when', 0, 1) if when == 'any' else ctx.num(when)
    value = ctx.real('v', 1, AMT)
    sub = SubForecast(YEAR)
    before = list(d.items())
    to = Account(person(), balance=ctx.num(0), rate=ctx.num(0)) \
        if to_account else {}
    sub.add_transaction(value, timing=when, from_account=d, to_account=to)
    at = moved(ctx, sub, d, value)

    def left(s, r):
        return ctx.sum(ctx.ite(k <= r, x, 0) for k, x in before) - value
    judge(ctx, when, value, [k for k, _ in before], left, at)
    got = list(to.items())
    ctx.check(len(got) == 1 and ctx.eq(got[0][0], at) and
              ctx.eq(got[0][1], value), 'arrives when it leaves')


def backwards(ctx, entries, when, nobody=False):
    """A negative amount is taken from the other side."""
    d = {ctx.num(t): ctx.real('x%d' % i, -AMT, AMT)
         for i, t in enumerate(entries)}
    e = None if nobody else {ctx.num(0): ctx.num(1)}
    value = ctx.real('v', 1, AMT)
    sub = SubForecast(YEAR)
    before = list(d.items())
    sub.add_transaction(-value, timing=ctx.num(when), from_account=e,
                        to_account=d)
    at = moved(ctx, sub, d, value)

    def left(s, r):
        return ctx.sum(ctx.ite(k <= r, x, 0) for k, x in before) - value
    judge(ctx, ctx.num(when), value, [k for k, _ in before], left, at)


class Limited(Account):
    """An account with a limit on withdrawals."""
    limit = None

    @property
    def max_outflow_limit(self):
        return self.limit


def account(ctx, entries, when, rate, limited=False, extra=()):
    """From an account."""
    r = ctx.real('rate', 0, 1) if rate == 'any' else ctx.num(rate)
    bal = ctx.real('bal', 0, AMT)
    a = (Limited if limited else Account)(person(), balance=bal, rate=r)
    if limited:
        a.limit = -ctx.real('limit', 0, AMT)
    for i, t in enumerate(entries):
        # with later withdrawals, waiting longer than the amount takes to be
        # there may help (not judged)
        a[ctx.num(t)] = ctx.real(
            'x%d' % i, 0 if extra and t > when else -AMT, AMT)
    before = list(a.items())
    when = ctx.num(when)
    value = ctx.real('v', 1, AMT)
    d = {}
    sub = SubForecast(YEAR)
    sub.add_transaction(value, timing=when, from_account=a, to_account=d)
    at = moved(ctx, sub, a, value)

    def grown(x, s, t):
        return x * growth(ctx, r, 1, t - s) if t != s else x

    def left(s, t):
        """Balance at t with the withdrawal at s <= t."""
        if not t >= s:
            return -1
        b = grown(bal, 0, t)
        for k, x in before:
            if k <= t:
                b = b + grown(x, k, t)
        b = b - grown(value, s, t)
        if limited:
            b = ctx.min(b, -a.limit - value)
        return b

    def interior(s):
        keys = [k for k, _ in before if k > s] + [s]
        return ctx.And(*[left(s, t) >= -GAP for t in keys])
    judge(ctx, when, value, [k for k, _ in before], left, at,
          None if rate == 0 else interior, extra)


def reach(ctx, nper, when, flows, owed=False):
    """Time until a balance is reached."""
    r = ctx.real('rate', 0.01, 1)
    bal = ctx.real('bal', 1, AMT)
    sign = -1 if owed else 1
    a = Account(person(), balance=sign * bal, rate=r, nper=nper)
    if flows:
        x = ctx.real('x', 0, AMT)
        a[ctx.num(0)] = sign * x
        bal = bal + x
    want = ctx.real('want', 1, 5 * AMT)
    now = bal * growth(ctx, r, nper, ctx.num(when)) if when else bal
    ctx.assume(want >= now)
    t = a.time_to_balance(sign * want, ctx.num(when))
    ctx.check(t >= when, 'in the future')
    ctx.check(ctx.eq(bal * growth(ctx, r, nper, t), want, 1e-2),
              'the balance then is the one asked for')


def arrives(ctx, last):
    """A transaction is what takes the balance there."""
    bal = ctx.real('bal', 1, AMT)
    x = ctx.real('x', -AMT, AMT)
    y = ctx.real('y', -AMT, AMT)
    a = Account(person(), balance=bal, rate=ctx.num(0))
    a[ctx.num(0.25)] = x
    a[ctx.num(last)] = y
    for want, t in ((bal, 0), (bal + x, 0.25), (bal + x + y, last)):
        first = ctx.ite(ctx.eq(want, bal), 0,
                        ctx.ite(ctx.eq(want, bal + x), 0.25, last))
        # amounts that nearly match are not judged
        ctx.assume(ctx.And(*[
            ctx.Or(ctx.eq(p, q, 0), ctx.abs(p - q) >= 0.01)
            for p, q in ((want, bal), (want, bal + x))]))
        ctx.check(ctx.eq(a.time_to_balance(want), first),
                  'when the balance is first the one asked for')


def never(ctx, kind):
    """Balances growth cannot reach."""
    bal = {'nothing': 0, 'debt': ctx.real('b', -AMT, -1),
           'flat': ctx.real('b', 1, AMT)}[kind]
    r = 0 if kind == 'flat' else ctx.real('rate', 0.01, 1)
    a = Account(person(), balance=ctx.lift(bal), rate=ctx.lift(r))
    want = ctx.real('want', 1, AMT)
    if kind == 'flat':
        ctx.assume(want > bal + 1)
    ctx.check(a.time_to_balance(want) == float('inf'), 'never')
    late = ctx.real('x', 1, AMT)
    a[ctx.num(0.5)] = late
    t = a.time_to_balance(bal + late if kind == 'flat' else want)
    if kind == 'flat':
        ctx.check(ctx.eq(t, 0.5), 'when the money arrives')


def tasks(tier):
    more = tier == 'thorough'
    t = []
    for entries in ((), (0.5,), (0, 0.5), (0, 0.5, 1), (0.25, 0.5, 0.75, 1),
                    ('any',), (0.25, 'any'), (0.25, 0.75, 'any')):
        for when in (0, 0.5, 0.6, 1, 'any'):
            if len(entries) > 2 and when == 'any' and 'any' in entries \
                    and not more:
                continue
            t.append((pool, dict(entries=entries, when=when,
                                 to_account=when == 0.5)))
    t.append((backwards, dict(entries=(0, 0.5, 1), when=0)))
    t.append((backwards, dict(entries=(0.25, 0.75), when=0.5)))
    t.append((backwards, dict(entries=(0, 0.5, 1), when=0, nobody=True)))
    for limited in (False, True):
        for entries in ((), (0.5,), (0, 0.5), (0.25, 0.5, 1)):
            for when in (0, 0.5):
                t.append((account, dict(entries=entries, when=when, rate=0,
                                        limited=limited)))
    for entries in ((), (0,), (1,), (0, 1)):
        for when in (0, 1):
            t.append((account, dict(entries=entries, when=when,
                                    rate='any')))
    for entries in ((0.5,), (0.25, 0.5), (0.5, 1), (0.25, 0.5, 1)):
        for when in (0, 0.25, 0.5):
            t.append((account, dict(entries=entries, when=when, rate=15)))
    # a quarter of a year's growth of 255 is 4, an eighth's is 2
    for entries, when, extra in (
            ((1,), 0.5, (0.625, 0.75)), ((0, 1), 0.5, (0.625, 0.75)),
            ((0.25, 0.5, 0.75, 1), 0, (0.125, 0.875))):
        t.append((account, dict(entries=entries, when=when, rate=255,
                                extra=extra)))
    for nper in (1, 2, 4, 12):
        for when in (0, 0.5):
            for owed in (False, True):
                t.append((reach, dict(nper=nper, when=when, owed=owed,
                                      flows=nper == 1)))
    for last in (0.5, 0.75, 1):
        t.append((arrives, dict(last=last)))
    for kind in ('nothing', 'debt', 'flat'):
        t.append((never, dict(kind=kind)))
    return t
