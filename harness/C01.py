"""C01: spreading an amount over a timing preserves total and proportions."""
from forecaster.utility import Timing
from forecaster.utility.timing import transactions_from_timing
from harness.common import times

BOUNDS = ('1 to 3 (thorough: 4) distinct symbolic timings in [0,1], symbolic '
          'weights in [0, 1000] (all of one sign) with sum > 0.01, symbolic '
          'amount in [-1e5, 1e5], every subset of timings for the subset '
          'variants; each schedule used twice, in some cases with a weight '
          'changed in between.')
ASSUMPTIONS = ['exact real arithmetic (float rounding is outside the claim)']


def weighted(ctx, n, sign, call, subset=None, wrap=False):
    ts = [ctx.real('t%d' % i, 0, 1) for i in range(n)]
    ws = [ctx.real('w%d' % i, 0, 1000) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(ts[i] < ts[i + 1])
    chosen = list(range(n)) if subset is None else list(subset)
    total_w = ctx.sum(ws[i] for i in chosen)
    ctx.assume(total_w > 0.01)
    amount = ctx.real('amount', -100000, 100000)
    src = {t: w * sign for t, w in zip(ts, ws)}
    before = dict(src)
    keys = None if subset is None else [ts[i] for i in chosen]
    scale = amount
    schedule = Timing(src)

    def spread(amount):
        if call == 'transactions_from_timing':
            return transactions_from_timing(
                schedule if wrap else src, amount)
        elif call == 'time_series':
            return schedule.time_series(amount, keys=keys)
        return schedule.normalized(keys=keys)

    out = spread(amount)
    if call == 'normalized':
        scale = 1
    got = {i: (out[ts[i]] if ts[i] in out else None) for i in chosen}
    ctx.check(len(out) == len(chosen) and all(
        g is not None for g in got.values()), 'timings')
    for i in chosen:
        if got[i] is None:
            continue
        ctx.check(ctx.eq(got[i] * total_w, scale * ws[i], 1e-3),
                  'proportional')
        ctx.observe('v%d' % i, got[i])
    ctx.check(ctx.eq(ctx.sum(out.values()), scale), 'sum')
    ctx.check(list(src.items()) == list(before.items()), 'input intact')
    ctx.check(list(schedule) == ts and all(
        ctx.eq(schedule[t], w) for t, w in zip(ts, ws)), 'schedule intact')
    again = spread(2 * amount)
    for i in chosen:
        if got[i] is not None:
            ctx.check(ctx.eq(again[ts[i]],
                             got[i] if call == 'normalized' else 2 * got[i]),
                      'used again')


def changed(ctx, n, call, subset=None):
    """A schedule which is changed is used as it stands."""
    ts = times(ctx, n, distinct=True)
    ws = [ctx.real('w%d' % i, 0.1, 100) for i in range(n)]
    schedule = Timing(dict(zip(ts, ws)))
    amount = ctx.real('amount', -1000, 1000)
    keys = None if subset is None else [ts[i] for i in subset]

    def spread():
        if call == 'transactions_from_timing':
            return transactions_from_timing(schedule, amount)
        if call == 'time_series':
            return schedule.time_series(amount, keys=keys)
        return schedule.normalized(keys=keys)
    spread()
    ws[0] = ctx.real('new', 0.1, 100)
    schedule[ts[0]] = ws[0]
    out = spread()
    chosen = list(range(n)) if subset is None else subset
    scale = 1 if call == 'normalized' else amount
    total = ctx.sum(ws[i] for i in chosen)
    ctx.check(len(out) == len(chosen), 'timings')
    for i in chosen:
        ctx.check(ctx.eq(out[ts[i]] * total, scale * ws[i], 1e-3),
                  'proportional')


def nobody(ctx, n):
    """If no timing is chosen, none receives anything."""
    ts = times(ctx, n, distinct=True)
    timing = Timing({t: ctx.real('w%d' % i, 1, 10) for i, t in enumerate(ts)})
    for out in (timing.normalized(keys=[]),
                timing.time_series(ctx.real('amount', -100, 100), keys=())):
        ctx.check(dict(out) == {}, 'nothing chosen')


def tasks(tier):
    res = [(nobody, dict(n=n)) for n in (1, 3)]
    for call in ('transactions_from_timing', 'time_series', 'normalized'):
        res.append((changed, dict(n=2, call=call)))
    for call in ('time_series', 'normalized'):
        res.append((changed, dict(n=3, call=call, subset=[0, 2])))
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for sign in (1, -1):
            res.append((weighted, dict(n=n, sign=sign, wrap=True,
                                       call='transactions_from_timing')))
            for call in ('transactions_from_timing', 'time_series',
                         'normalized'):
                res.append((weighted, dict(n=n, sign=sign, call=call)))
        for mask in range(1, 2 ** n - 1):
            subset = [i for i in range(n) if mask >> i & 1]
            for call in ('time_series', 'normalized'):
                res.append((weighted, dict(n=n, sign=1, call=call,
                                           subset=subset)))
    return res
