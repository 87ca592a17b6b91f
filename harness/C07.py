"""C07: schedules proposed by an account reach the requested balance, keep
the requested proportions and stay inside the account's limits."""
from forecaster.accounts import Account
from forecaster.utility import Timing
from harness.common import person, growth, times, YEAR

BOUNDS = ('schedules of 1 or 2 (thorough: 3) distinct symbolic timings with '
          'symbolic weights, up to 1 recorded and 1 hypothetical transaction, '
          'symbolic balance, rate in [-0.9, 1], limits and targets; '
          'compounding annual, monthly, continuous.')
ASSUMPTIONS = ['exact real arithmetic', 'fractional powers abstracted',
               'schedule weights sum to more than 0.01',
               'account limits have the documented sign']
AMT = 100000
N = {'C': None, 'A': 1, 'SA': 2, 'Q': 4, 'M': 12}


class Limited(Account):
    """An account with annual limits, as subclasses are meant to define."""
    limits = {}

    @property
    def max_inflow_limit(self):
        return self.limits.get('max_in', float('inf'))

    @property
    def min_inflow_limit(self):
        return self.limits.get('min_in', 0)

    @property
    def max_outflow_limit(self):
        return self.limits.get('max_out', float('-inf'))

    @property
    def min_outflow_limit(self):
        return self.limits.get('min_out', 0)


def setup(ctx, n, nper, recorded, hypo, rate0=False):
    bal = ctx.real('balance', -AMT, AMT)
    rate = 0 if rate0 else ctx.real('rate', -0.9, 1)
    acct = Limited(person(), balance=bal, rate=rate, nper=nper)
    acct.limits = {}
    ts = times(ctx, n, distinct=True)
    ws = [ctx.real('w%d' % i, 0, 100) for i in range(n)]
    ctx.assume(ctx.sum(ws) > 0.01)
    for k in range(recorded):
        acct.add_transaction(ctx.real('rec%d' % k, -AMT, AMT),
                             ctx.real('rt%d' % k, 0, 1))
    extra = None
    if hypo:
        extra = {ctx.real('ht', 0, 1): ctx.real('hyp', -AMT, AMT)}
    return acct, ts, ws, extra


def follow(ctx, acct, out, ts, ws, extra):
    """Adds the schedule; returns (total, year-end balance)."""
    vals = [out[t] if t in out else 0 for t in ts]
    ctx.check(len(out) <= len(ts) and all(
        ctx.Or(*[k == t for t in ts]) for k in out), 'only given timings')
    tw, total = ctx.sum(ws), ctx.sum(vals)
    for v, w in zip(vals, ws):
        ctx.check(ctx.eq(v * tw, total * w, 1e-3), 'proportional to weights')
    for t, v in zip(ts, vals):
        acct.add_transaction(v, t)
    return total, acct.balance_at_time('end', transactions=extra)


def to_balance(ctx, n, nper, recorded, hypo):
    acct, ts, ws, extra = setup(ctx, n, nper, recorded, hypo)
    target = ctx.real('target', -AMT, AMT)
    out = acct.transactions_to_balance(
        target, timing=dict(zip(ts, ws)), transactions=extra)
    total, end = follow(ctx, acct, out, ts, ws, extra)
    ctx.check(ctx.eq(end, target, 1e-3), 'reaches the balance')


def capped(ctx, n, nper):
    acct, ts, ws, extra = setup(ctx, n, nper, 0, 0)
    target = ctx.real('target', -AMT, AMT)
    lo, hi = ctx.real('lo', -AMT, AMT), ctx.real('hi', -AMT, AMT)
    ctx.assume(lo <= hi)
    timing = dict(zip(ts, ws))
    free = acct.transactions_to_balance(target, timing=dict(timing))
    out = acct.transactions_to_balance(
        target, timing=dict(timing), min_total=lo, max_total=hi)
    want = ctx.max(lo, ctx.min(hi, ctx.sum(free.values())))
    ctx.check(ctx.eq(ctx.sum(out.values()), want), 'total inside the caps')


def default_timing(ctx, nper, spec):
    bal, rate = ctx.real('balance', -AMT, AMT), ctx.real('rate', -0.9, 1)
    when = ctx.real('when', 0, 1)
    acct = Account(person(), balance=bal, rate=rate, nper=nper,
                   default_timing=Timing(when) if spec == 'own' else None)
    target = ctx.real('target', -AMT, AMT)
    out = acct.transactions_to_balance(target)
    ctx.check(len(out) == 1, 'one transaction')
    for k, v in out.items():
        ctx.check(ctx.eq(k, when if spec == 'own' else 0.5), 'usual timing')
        acct.add_transaction(v, k)
    ctx.check(ctx.eq(acct.balance_at_time('end'), target, 1e-3),
              'reaches the balance')


def zero_weights(ctx, n, nper):
    """All weights zero: the amount is spread uniformly."""
    acct, ts, ws, extra = setup(ctx, n, nper, 0, 0)
    target = ctx.real('target', -AMT, AMT)
    timing = Timing()
    timing.clear()
    for t in ts:
        timing[t] = ctx.num(0)
    out = acct.transactions_to_balance(target, timing=timing)
    total, end = follow(ctx, acct, out, ts, [1] * n, None)
    ctx.check(ctx.eq(end, target, 1e-3), 'reaches the balance')


def limited(ctx, kind, n, nper, recorded, hypo, lim, tlim, blim,
            rate0=False):
    """max/min in/outflows: sign, limits, and maximality."""
    acct, ts, ws, extra = setup(ctx, n, nper, recorded, hypo, rate0)
    out_side = kind.endswith('outflows')
    sgn = -1 if out_side else 1
    annual = None
    if lim:
        annual = ctx.real('limit', 0, AMT) * sgn
        acct.limits = {{'max_outflows': 'max_out', 'max_inflows': 'max_in',
                        'min_outflows': 'min_out',
                        'min_inflows': 'min_in'}[kind]: annual}
    kw = {}
    if tlim:
        kw['transaction_limit'] = ctx.real('tlimit', 0, AMT) * sgn
    if blim:
        kw['balance_limit'] = ctx.real('blimit', -AMT, AMT)
    start = acct.balance_at_time('end', transactions=extra)
    used = ctx.sum(
        (ctx.min(v, 0) if out_side else ctx.max(v, 0))
        for d in (acct.transactions, extra or {}) for v in d.values())
    ctx.check(ctx.eq(acct.outflows(extra) if out_side
                     else acct.inflows(extra), used), 'flows so far')
    out = getattr(acct, kind)(
        timing=dict(zip(ts, ws)), transactions=extra, **kw)
    for v in out.values():
        ctx.check(v * sgn >= 0, 'right direction')
    inf = any(v in (float('inf'), float('-inf')) for v in out.values()
              if isinstance(v, float))
    bounded = lim or tlim or blim or out_side or kind == 'min_inflows'
    ctx.check(bounded or inf or kind == 'min_inflows', 'unlimited otherwise')
    if inf:
        ctx.check(not bounded, 'finite when something limits it')
        return
    total, end = follow(ctx, acct, out, ts, ws, extra)
    caps = []
    if lim:
        room = ctx.max(0, (annual - used) * sgn)
        ctx.check(ctx.le(total * sgn, room), 'annual limit')
        caps.append(ctx.eq(total * sgn, room))
    elif kind.startswith('min'):
        ctx.check(ctx.eq(total, 0), 'no minimum by default')
        return
    if tlim:
        room = kw['transaction_limit'] * sgn
        ctx.check(ctx.le(total * sgn, room), 'transaction limit')
        caps.append(ctx.eq(total * sgn, room))
    goal = kw.get('balance_limit', 0 if out_side else None)
    if goal is not None:
        over = (end - goal) * sgn
        ctx.check(ctx.Or(ctx.eq(total, 0), ctx.le(over, 0, 1e-3)),
                  'balance limit')
        caps.append(ctx.ge(over, 0, 1e-3))
    ctx.check(ctx.Or(*caps), 'as much as the limits allow')


def at_time(ctx, nper, recorded):
    """The amount that can be withdrawn at one time."""
    acct, ts, ws, extra = setup(ctx, 1, nper, recorded, 0)
    limit = ctx.real('limit', 0, AMT)
    acct.limits = {'max_out': -limit}
    when = ctx.real('when', 0, 1)
    got = acct.max_outflow(when)
    bal = acct.balance_at_time(when)
    ctx.check(ctx.eq(got, -ctx.min(limit, ctx.max(bal, 0))), 'withdrawable')
    acct.add_transaction(got, when)
    ctx.check(ctx.Or(ctx.ge(acct.balance_at_time(when), 0, 1e-3), bal < 0),
              'no overdraft')


def tasks(tier):
    res = []
    deep = tier == 'thorough'
    for nper in ('A', 'M', 'C'):
        for n in (1, 2) + ((3,) if deep else ()):
            res.append((to_balance, dict(n=n, nper=nper, recorded=0, hypo=0)))
        res.append((to_balance, dict(n=1, nper=nper, recorded=1, hypo=1)))
        res.append((capped, dict(n=2, nper=nper)))
        res.append((default_timing, dict(nper=nper, spec='own')))
        res.append((default_timing, dict(nper=nper, spec='default')))
        res.append((zero_weights, dict(n=2, nper=nper)))
        res.append((at_time, dict(nper=nper, recorded=1)))
    for kind in ('max_outflows', 'max_inflows', 'min_outflows',
                 'min_inflows'):
        for lim in (0, 1):
            for tlim in (0, 1):
                for blim in (0, 1):
                    res.append((limited, dict(
                        kind=kind, n=1, nper='A', recorded=0, hypo=0,
                        lim=lim, tlim=tlim, blim=blim)))
        for rec, hyp in ((1, 0), (0, 1)) + (((1, 1),) if deep else ()):
            res.append((limited, dict(
                kind=kind, n=1, nper='A', recorded=rec, hypo=hyp, lim=1,
                tlim=1, blim=1)))
        res.append((limited, dict(kind=kind, n=1, nper='A', recorded=1,
                                  hypo=1, lim=1, tlim=0, blim=0, rate0=True)))
        res.append((limited, dict(kind=kind, n=2, nper='M', recorded=0,
                                  hypo=0, lim=1, tlim=0, blim=1)))
    return res
