"""C03: conventions for timings within a year and for frequencies."""
from forecaster.utility import Timing, when_conv, frequency_conv

BOUNDS = ('symbolic real/integer inputs in [-1e4, 1e4]; schedules for every '
          'frequency code and for 1..12, 24, 26, 52 (thorough: also 365) '
          'periods per year, with a symbolic position in [0,1].')
ASSUMPTIONS = ['exact real arithmetic']

CODES = {'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12, 'BM': 6, 'Q': 4,
         'SA': 2, 'A': 1, 'C': None}


def when_range(ctx):
    x = ctx.real('x', -10000, 10000)
    try:
        r = when_conv(x)
    except ValueError:
        ctx.check(ctx.Or(x < 0, x > 1), 'rejected only outside [0,1]')
        return
    ctx.check(ctx.And(x >= 0, x <= 1), 'accepted only inside [0,1]')
    ctx.check(ctx.eq(r, x), 'value unchanged')
    ctx.check(when_conv('start') == 0 and when_conv('end') == 1, 'names')


def freq_number(ctx, kind):
    x = (ctx.real('x', -10000, 10000) if kind == 'real'
         else ctx.int('x', -10000, 10000))
    try:
        r = frequency_conv(x)
    except TypeError:
        ctx.check(x != ctx.floor(x), 'TypeError only for fractions')
        return
    except ValueError:
        ctx.check(x <= 0, 'ValueError only for non-positive')
        return
    ctx.check(ctx.And(x > 0, x == ctx.floor(x)), 'accepted only positive int')
    ctx.check(ctx.eq(r, x), 'value unchanged')


def freq_codes(ctx, code):
    x = ctx.real('x', 0, 1)
    ctx.check(frequency_conv(code) == CODES[code], 'code value')
    ctx.check(x >= 0, 'reached')


def schedule(ctx, freq, spec):
    n = CODES.get(freq, freq)
    if spec == 'start':
        w, when = 0, 'start'
    elif spec == 'end':
        w, when = 1, 'end'
    elif spec == 'default':
        w, when = 0.5, None
    else:
        when = w = ctx.real('when', 0, 1)
    amount = ctx.real('amount', -1000, 1000)
    if when is None:
        timing = Timing(frequency=freq) if n == freq else Timing(freq)
    else:
        timing = Timing(when=when, frequency=freq)
    ctx.check(len(timing) == n, 'one transaction per period')
    pos = sorted(timing) if spec != 'sym' else list(timing)
    if spec == 'sym':
        pos.sort(key=lambda p: _Order(ctx, p))
    for k, p in enumerate(pos):
        ctx.check(ctx.eq(p * n, k + w), 'position in its period')
        ctx.check(ctx.And(ctx.ge(p, 0), ctx.le(p, 1)), 'inside the year')
        ctx.check(ctx.eq(timing[p] * n, 1), 'equal weights')
    series = timing.time_series(amount)
    ctx.check(ctx.eq(ctx.sum(series.values()), amount), 'sums to the amount')


class _Order:
    """Sort key that keeps insertion order when it is already ascending."""

    def __init__(self, ctx, p):
        self.p = p

    def __lt__(self, o):
        return bool(self.p < o.p)


def bad_code(ctx, code):
    x = ctx.real('x', 0, 1)
    ctx.check(ctx.raises(ValueError, frequency_conv, code), 'unknown code')
    ctx.check(x >= 0, 'reached')


def tasks(tier):
    res = [(when_range, {}), (freq_number, dict(kind='real')),
           (freq_number, dict(kind='int'))]
    res += [(freq_codes, dict(code=c)) for c in CODES]
    res += [(bad_code, dict(code=c)) for c in ('', 'X', 'm', 'AA')]
    nums = list(range(1, 13)) + [24, 26, 52]
    codes = ['A', 'SA', 'Q', 'BM', 'M', 'SM', 'BW', 'W']
    if tier == 'thorough':
        codes.append('D')
        nums.append(365)
    for f in nums:
        res.append((schedule, dict(freq=f, spec='sym')))
        res.append((schedule, dict(freq=f, spec='default')))
    for f in codes:
        for spec in ('sym', 'start', 'end', 'default'):
            res.append((schedule, dict(freq=f, spec=spec)))
    return res
