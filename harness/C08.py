"""C08: payments on a debt."""
from forecaster.accounts import Debt
from harness.common import person, growth, times, YEAR

BOUNDS = ('payment schedules of 1 or 2 distinct symbolic timings, up to 1 '
          'recorded and 1 hypothetical payment, symbolic balance, rate in '
          '[0, 1], minimum and accelerated payment (or unlimited), up to 2 '
          'years; compounding annual and monthly.')
ASSUMPTIONS = ['exact real arithmetic', 'fractional powers abstracted']
AMT = 100000
N = {'A': 1, 'M': 12, 'C': None}


def debt(ctx, nper, accel):
    bal = ctx.real('balance', -AMT, AMT)
    rate = ctx.real('rate', 0, 1)
    minp = ctx.real('minp', 0, AMT)
    acc = ctx.real('accel', 0, AMT) if accel else float('inf')
    d = Debt(person(), balance=bal, rate=rate, nper=nper,
             minimum_payment=minp, accelerated_payment=acc)
    return d, bal, rate, minp, acc


def sign(ctx):
    d, bal, rate, minp, acc = debt(ctx, 'A', True)
    ctx.check(ctx.eq(d.balance, -ctx.abs(bal)), 'a debt is owed')
    ctx.check(ctx.eq(d.balance_at_time('end'),
                     -ctx.abs(bal) * (1 + rate)), 'interest accrues')
    d.next_year()
    ctx.check(ctx.eq(d.balance, -ctx.abs(bal) * (1 + rate)), 'next year owes')


def payments(ctx, kind, n, nper, accel, recorded, hypo, tlim, blim):
    d, bal, rate, minp, acc = debt(ctx, nper, accel)
    ts = times(ctx, n, distinct=True)
    ws = [ctx.real('w%d' % i, 0, 100) for i in range(n)]
    ctx.assume(ctx.sum(ws) > 0.01)
    used = 0
    if recorded:
        r = ctx.real('rec', -AMT, AMT)
        d.add_transaction(r, ctx.real('rt', 0, 1))
        used = used + ctx.max(r, 0)
    extra = None
    if hypo:
        h = ctx.real('hyp', -AMT, AMT)
        extra = {ctx.real('ht', 0, 1): h}
        used = used + ctx.max(h, 0)
    kw = {}
    if tlim:
        kw['transaction_limit'] = ctx.real('tlimit', 0, AMT)
    if blim:
        kw['balance_limit'] = ctx.real('blimit', -AMT, 0)
    goal = kw.get('balance_limit', 0)
    before = d.balance_at_time('end', transactions=extra)
    out = getattr(d, kind)(timing=dict(zip(ts, ws)), transactions=extra, **kw)
    vals = [out[t] if t in out else 0 for t in ts]
    total, tw = ctx.sum(vals), ctx.sum(ws)
    for v, w in zip(vals, ws):
        ctx.check(v >= 0, 'payments are inflows')
        ctx.check(ctx.eq(v * tw, total * w, 1e-3), 'proportional')
    for t, v in zip(ts, vals):
        d.add_transaction(v, t)
    end = d.balance_at_time('end', transactions=extra)
    ctx.check(ctx.Or(ctx.le(end, goal, 1e-3), ctx.eq(total, 0)),
              'never pays more than is owed')
    cap = minp if kind == 'min_inflows' else minp + acc
    tight = [ctx.ge(end, goal, 1e-3)]
    if not (isinstance(cap, float) and cap == float('inf')):
        room = ctx.max(0, cap - used)
        ctx.check(ctx.le(total, room), 'annual payment limit')
        tight.append(ctx.eq(total, room))
    if tlim:
        ctx.check(ctx.le(total, kw['transaction_limit']), 'requested limit')
        tight.append(ctx.eq(total, kw['transaction_limit']))
    ctx.check(ctx.Or(*tight), 'pays what it can')


def at_time(ctx, nper, accel):
    d, bal, rate, minp, acc = debt(ctx, nper, accel)
    d.add_transaction(ctx.real('rec', 0, AMT), ctx.real('rt', 0, 1))
    when = ctx.real('when', 0, 1)
    owed = ctx.max(0, -d.balance_at_time(when))
    got = d.max_inflow(when)
    want = ctx.min(owed, minp + acc) if accel else owed
    ctx.check(ctx.eq(got, want), 'payable at a time')
    ctx.check(ctx.eq(d.max_outflow(when), 0), 'no withdrawals')


def no_outflow(ctx, nper):
    d, bal, rate, minp, acc = debt(ctx, nper, True)
    for kind in ('max_outflows', 'min_outflows'):
        out = getattr(d, kind)(timing={ctx.real('t', 0, 1): 1})
        for v in out.values():
            ctx.check(ctx.eq(v, 0), 'no withdrawals')


def pay_off(ctx, nper):
    """Paying the maximum every year with no cap clears the debt for good."""
    d, bal, rate, minp, acc = debt(ctx, nper, False)
    t = ctx.real('t', 0, 1)
    for w, v in d.max_inflows(timing={t: 1}).items():
        d.add_transaction(v, w)
    d.next_year()
    ctx.check(ctx.eq(d.balance, 0, 1e-3), 'cleared')
    total = ctx.sum(d.max_inflows(timing={t: 1}).values())
    ctx.check(ctx.eq(total, 0, 1e-2), 'nothing left to pay')
    ctx.check(ctx.eq(ctx.sum(d.min_inflows(timing={t: 1}).values()), 0, 1e-2),
              'no minimum once cleared')


def tasks(tier):
    res = [(sign, {})]
    for nper in ('A', 'M'):
        res.append((no_outflow, dict(nper=nper)))
        res.append((pay_off, dict(nper=nper)))
        for accel in (0, 1):
            res.append((at_time, dict(nper=nper, accel=accel)))
    for kind in ('max_inflows', 'min_inflows'):
        for accel in (0, 1):
            for tlim in (0, 1):
                for blim in (0, 1):
                    res.append((payments, dict(
                        kind=kind, n=1, nper='A', accel=accel, recorded=1,
                        hypo=0, tlim=tlim, blim=blim)))
            res.append((payments, dict(
                kind=kind, n=1, nper='M', accel=accel, recorded=0, hypo=1,
                tlim=0, blim=0)))
            res.append((payments, dict(
                kind=kind, n=2, nper='A', accel=accel, recorded=0, hypo=0,
                tlim=0, blim=0)))
            if tier == 'thorough':
                for nper in ('A', 'M', 'C'):
                    res.append((payments, dict(
                        kind=kind, n=2, nper=nper, accel=accel, recorded=1,
                        hypo=1, tlim=1, blim=1)))
                    res.append((payments, dict(
                        kind=kind, n=3, nper=nper, accel=accel, recorded=0,
                        hypo=0, tlim=0, blim=0)))
    return res
