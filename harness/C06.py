"""C06: an account's year-end balance is its opening balance and every
transaction, each grown for exactly the time it was invested."""
from forecaster.accounts import Account
from harness.common import person, growth, times, YEAR

BOUNDS = ('0 to 3 transactions per year at symbolic (possibly equal) timings, '
          'symbolic amounts in [-1e5, 1e5] and opening balance in '
          '[-1e5, 1e5], symbolic rate in [-0.9, 1], compounding annual, '
          'semi-annual, quarterly, monthly, daily and continuous; up to 3 '
          'consecutive years with a different rate each year.')
ASSUMPTIONS = [
    'exact real arithmetic; fractional powers are abstracted by fresh '
    'symbols constrained by true facts (positivity, monotonicity, '
    'multiplicativity)', 'rates above -90%']
AMT = 100000


def build(ctx, nper, owned=True):
    bal = ctx.real('balance', -AMT, AMT)
    rate = ctx.real('rate', -0.9, 1)
    kw = dict(balance=bal, rate=rate, nper=nper)
    acct = Account(person(), **kw) if owned else \
        Account(initial_year=YEAR, **kw)
    return acct, bal, rate


N = {'C': None, 'A': 1, 'SA': 2, 'Q': 4, 'M': 12, 'D': 365}


def year_end(ctx, n, nper, owned=True):
    acct, bal, rate = build(ctx, nper, owned)
    per = N.get(nper, nper)
    ts = times(ctx, n)
    vs = [ctx.real('v%d' % i, -AMT, AMT) for i in range(n)]
    for t, v in zip(ts, vs):
        acct.add_transaction(v, t)
    want = bal * growth(ctx, rate, per, 1)
    for t, v in zip(ts, vs):
        want = want + v * growth(ctx, rate, per, 1 - t)
    seen = acct.balance_at_time('end')
    returns = acct.returns
    ctx.check(ctx.eq(seen, want), 'projected year-end balance')
    ctx.check(ctx.eq(returns, want - bal - ctx.sum(vs)), 'returns')
    flows = acct.inflows() + acct.outflows()
    ctx.check(ctx.eq(flows, ctx.sum(vs)), 'inflows plus outflows')
    ctx.check(ctx.And(acct.inflows() >= 0, acct.outflows() <= 0), 'signs')
    ctx.check(ctx.eq(acct.balance, bal), 'opening balance is not touched')
    acct.next_year()
    ctx.check(acct.this_year == YEAR + 1, 'year advanced')
    ctx.check(ctx.eq(acct.balance, want), 'next opening balance')
    ctx.check(ctx.eq(acct.balance, bal + ctx.sum(vs) +
                     acct.returns_history[YEAR]), 'balance identity')
    ctx.check(len(acct.transactions) == 0, 'new year starts empty')
    ctx.check(ctx.eq(ctx.sum(acct.transactions_history[YEAR].values()),
                     ctx.sum(vs)), 'past transactions are kept')
    ctx.check(ctx.eq(acct.balance_history[YEAR], bal), 'past balance kept')
    ctx.check(ctx.eq(acct.rate_history[YEAR], rate), 'past rate kept')


def extra(ctx, n, m, nper):
    """Hypothetical transactions count exactly like recorded ones."""
    acct, bal, rate = build(ctx, nper)
    per = N.get(nper, nper)
    ts, us = times(ctx, n), times(ctx, m, 'u')
    vs = [ctx.real('v%d' % i, -AMT, AMT) for i in range(n)]
    xs = [ctx.real('x%d' % i, -AMT, AMT) for i in range(m)]
    for t, v in zip(ts, vs):
        acct.add_transaction(v, t)
    hypo = {}
    for u, x in zip(us, xs):
        hypo[u] = (hypo[u] if u in hypo else 0) + x
    keep = list(hypo.items())
    at = ctx.real('at', 0, 1)
    got = acct.balance_at_time(at, transactions=hypo)
    want = bal * growth(ctx, rate, per, at)
    for t, v in list(zip(ts, vs)) + list(zip(us, xs)):
        if t <= at:
            want = want + v * growth(ctx, rate, per, at - t)
    ctx.check(ctx.eq(got, want), 'balance at a time')
    ctx.check(list(hypo.items()) == keep, 'hypothetical input intact')
    total = ctx.sum(vs)
    ctx.check(ctx.eq(ctx.sum(acct.transactions.values()), total),
              'account not changed by asking')


def reread(ctx, steps, nper):
    """Every figure follows the transactions as they are now, however often
    it was read before (steps: add at a symbolic time, again at the last one,
    replace the last one, delete it, clear all, next year)."""
    acct, bal, rate = build(ctx, nper)
    per = N.get(nper, nper)
    cur, last, k = {}, None, 0
    for step in [''] + list(steps):
        k += 1
        v = ctx.real('v%d' % k, -AMT, AMT)
        if step.startswith('add'):
            last = ctx.num(int(step[3:])) / 2
            acct.add_transaction(v, last)
            cur[last] = (cur[last] if last in cur else 0) + v
        elif step == 'again':
            acct.add_transaction(v, last)
            cur[last] = cur[last] + v
        elif step == 'set':
            acct[last] = v
            cur[last] = v
        elif step == 'del':
            del acct[last]
            del cur[last]
        elif step == 'clear':
            acct.clear()
            cur = {}
        elif step == 'year':
            bal = bal * growth(ctx, rate, per, 1) + ctx.sum(
                [x * growth(ctx, rate, per, 1 - t) for t, x in cur.items()])
            acct.next_year()
            cur = {}
        want = bal * growth(ctx, rate, per, 1) + ctx.sum(
            [x * growth(ctx, rate, per, 1 - t) for t, x in cur.items()])
        start = bal + ctx.sum([x for t, x in cur.items() if t == 0])
        ins = ctx.sum([ctx.max(x, 0) for x in cur.values()])
        outs = ctx.sum([ctx.min(x, 0) for x in cur.values()])
        total = ctx.sum(list(cur.values()))
        ctx.check(ctx.eq(acct.balance, bal, 1e-2), 'opening balance')
        ctx.check(ctx.eq(acct.inflows(), ins), 'inflows now')
        ctx.check(ctx.eq(acct.outflows(), outs), 'outflows now')
        ctx.check(ctx.eq(acct.balance_at_time('end'), want, 1e-2),
                  'year-end balance now')
        ctx.check(ctx.eq(acct.balance_at_time('start'), start, 1e-2),
                  'balance at the start now')
        ctx.check(ctx.eq(acct.returns, want - bal - total, 1e-2),
                  'returns now')
        if k <= len(steps):
            continue
        ctx.check(ctx.eq(acct.max_outflow('start'), ctx.min(-start, 0), 1e-2),
                  'withdrawable at the start now')
        h = ctx.real('h%d' % k, -AMT, AMT)
        ctx.check(ctx.eq(acct.inflows({0: h}), ins + ctx.max(h, 0)),
                  'inflows with a hypothetical one')
        ctx.check(ctx.eq(acct.outflows({0: h}), outs + ctx.min(h, 0)),
                  'outflows with a hypothetical one')


def years(ctx, count, n, nper, form):
    bal = ctx.real('balance', -AMT, AMT)
    rates = {YEAR + k: ctx.real('rate%d' % k, -0.9, 1)
             for k in range(count + 1)}
    arg = rates if form == 'dict' else (lambda y: rates[y])
    per = N.get(nper, nper)
    acct = Account(person(), balance=bal, rate=arg, nper=nper)
    cur = bal
    opening, sums = {}, {}
    for k in range(count):
        opening[YEAR + k] = cur
        r = rates[YEAR + k]
        nxt = cur * growth(ctx, r, per, 1)
        sums[YEAR + k] = 0
        for i in range(n):
            t = ctx.pick('when', [0, 0.25, 0.5, 1]) if per != 1 else \
                ctx.pick('when', [0, 1])
            v = ctx.real('v', -AMT, AMT)
            acct.add_transaction(v, t)
            sums[YEAR + k] = sums[YEAR + k] + v
            nxt = nxt + v * growth(ctx, r, per, 1 - t)
        acct.next_year()
        cur = nxt
        ctx.check(ctx.eq(acct.balance, cur, 1e-2), 'opening balance')
    for y in opening:
        ctx.check(ctx.eq(acct.balance_history[y], opening[y], 1e-2),
                  'balance history')
        ctx.check(ctx.eq(acct.rate_history[y], rates[y]), 'rate history')
        ctx.check(ctx.eq(ctx.sum(acct.transactions_history[y].values()),
                         sums[y]), 'transaction history')
        nb = acct.balance_history[y + 1]
        ctx.check(ctx.eq(nb, opening[y] + sums[y] + acct.returns_history[y],
                         1e-2), 'balance identity each year')


def bad_time(ctx):
    acct, bal, rate = build(ctx, 1)
    t = ctx.real('t', -5, 5)
    v = ctx.real('v', -AMT, AMT)
    try:
        acct.add_transaction(v, t)
    except ValueError:
        ctx.check(ctx.Or(t < 0, t > 1), 'rejected only outside the year')
        ctx.check(len(acct.transactions) == 0, 'nothing recorded')
        return
    ctx.check(ctx.And(t >= 0, t <= 1), 'accepted only inside the year')
    ctx.check(ctx.eq(acct.transactions[t], v), 'recorded')


def mapping(ctx, n):
    """The account reads as a mapping of its own transactions."""
    acct, bal, rate = build(ctx, 1)
    ts = times(ctx, n)
    vs = [ctx.real('v%d' % i, -AMT, AMT) for i in range(n)]
    want = {}
    for t, v in zip(ts, vs):
        acct.add_transaction(v, t)
        want[t] = (want[t] if t in want else 0) + v
    ctx.check(len(acct) == len(want), 'size')
    for t, v in want.items():
        ctx.check(t in acct and ctx.eq(acct[t], v), 'item')
        ctx.check(ctx.eq(acct.get(t), v), 'get')
    last = None
    for t in acct:
        if last is not None:
            ctx.check(last < t, 'iterates in order')
        last = t
    new = ctx.real('new', -AMT, AMT)
    t0 = ts[0]
    acct[t0] = new
    ctx.check(ctx.eq(acct[t0], new), 'assignment replaces')
    ctx.check(len(acct) == len(want), 'assignment keeps size')
    del acct[t0]
    ctx.check(t0 not in acct and len(acct) == len(want) - 1, 'deletion')
    u = ctx.real('u', 0, 1)
    if u not in acct:
        ctx.check(acct.get(u) is None and ctx.eq(acct.get(u, new), new),
                  'get default')
    acct.clear()
    ctx.check(len(acct) == 0, 'clear')
    ctx.check(ctx.eq(acct.balance_at_time('start'), bal), 'balance restored')


def tasks(tier):
    res = [(bad_time, {})]
    for nper in ('C', 'A', 'SA', 'Q', 'M', 'D'):
        for n in (0, 1, 2):
            res.append((year_end, dict(n=n, nper=nper)))
        res.append((extra, dict(n=1, m=1, nper=nper)))
    res.append((year_end, dict(n=1, nper=3, owned=False)))
    res.append((extra, dict(n=2, m=1, nper='A')))
    res.append((extra, dict(n=1, m=2, nper='M')))
    for form in ('dict', 'callable'):
        res.append((years, dict(count=2, n=1, nper='A', form=form)))
        res.append((years, dict(count=3, n=1, nper='SA', form=form)))
    res += [(mapping, dict(n=n)) for n in (1, 2)]
    for steps in (['add0', 'again', 'add2'], ['add2', 'again', 'add0'],
                  ['add1', 'set', 'again'], ['add0', 'del', 'add1'],
                  ['add1', 'again', 'clear', 'add1'],
                  ['add1', 'year', 'add1', 'again']):
        for nper in ('A', 'SA'):
            if nper == 'SA' or 'add1' not in steps:
                res.append((reread, dict(steps=steps, nper=nper)))
    if tier == 'thorough':
        for nper in ('C', 'A', 'M'):
            res.append((year_end, dict(n=3, nper=nper)))
            res.append((extra, dict(n=2, m=2, nper=nper)))
        res.append((years, dict(count=3, n=2, nper='A', form='dict')))
        res.append((years, dict(count=4, n=1, nper='SA', form='dict')))
        res.append((mapping, dict(n=3)))
    return res
