"""C05: filling in values for years that are not listed."""
from forecaster.utility import (
    nearest_year, extend_inflation_adjusted, build_inflation_adjust)

BOUNDS = ('a window of 5 (thorough: 6) years, every non-empty subset of years '
          'listed, every target year in the window, symbolic values and '
          'symbolic cumulative inflation factors in [0.2, 5]; scalar, list, '
          'tuple and dict valued series of up to 2 entries.')
ASSUMPTIONS = ['exact real arithmetic', 'inflation factors are positive']
Y0 = 2010


def fill(ctx, n, shape, target, adj_form):
    mask = ctx.int('mask', 1, 2 ** n - 1)
    listed = []
    for k in range(n):
        if (mask // (2 ** k)) % 2 == 1:
            listed.append(Y0 + k)
    factors = {Y0 + k: ctx.real('f%d' % k, 0.2, 5) for k in range(n)}
    if adj_form == 'dict':
        adjust = build_inflation_adjust(factors)
    else:
        def adjust(target_year, base_year=Y0):
            return factors[target_year] / factors[base_year]
        same = build_inflation_adjust(adjust)
        ctx.check(same is adjust, 'callable used as is')
    vals, flat = {}, {}
    for y in reversed(listed):
        a, b = ctx.real('a%d' % y, -1000, 1000), ctx.real('b%d' % y, -1, 1000)
        flat[y] = [a, b]
        vals[y] = {'scalar': a, 'list': [a, b], 'tuple': (a, b),
                   'dict': {'p': a, 'q': b}}[shape]
    year = Y0 + target
    out = extend_inflation_adjusted(vals, adjust, year)
    prev = [y for y in listed if y <= year]
    src = max(prev) if prev else min(listed)
    ctx.check(nearest_year(vals, year) == src, 'nearest listed year')
    ctx.check(type(out) is type(vals[src]) or shape == 'scalar', 'same shape')
    got = {'scalar': lambda: [out], 'list': lambda: list(out),
           'tuple': lambda: list(out),
           'dict': lambda: [out['p'], out['q']]}[shape]()
    ctx.check(len(got) == (1 if shape == 'scalar' else 2), 'same length')
    for g, v in zip(got, flat[src]):
        if src == year:
            ctx.check(ctx.eq(g, v), 'a listed year is used unchanged')
        else:
            ctx.check(ctx.eq(g * factors[src], v * factors[year], 1e-2),
                      'scaled by cumulative inflation')
        ctx.observe('g', g)
    ctx.check(sorted(vals) == listed, 'series intact')


def default_adjust(ctx):
    v = ctx.real('v', -1000, 1000)
    f = build_inflation_adjust()
    ctx.check(ctx.eq(extend_inflation_adjusted({2010: v}, f, 2015), v),
              'no inflation given means real terms')


def default_base(ctx, n):
    factors = {Y0 + k: ctx.real('f%d' % k, 0.2, 5) for k in range(n)}
    adj = build_inflation_adjust(dict(reversed(list(factors.items()))))
    for y in factors:
        ctx.check(ctx.eq(adj(y) * factors[Y0], factors[y]),
                  'relative to the first year by default')
        for b in factors:
            ctx.check(ctx.eq(adj(y, b) * factors[b], factors[y]),
                      'relative to the given year')


def tasks(tier):
    n = 4 if tier == 'quick' else 6
    res = [(default_adjust, {}), (default_base, dict(n=n))]
    for shape in ('scalar', 'list', 'tuple', 'dict'):
        for t in range(n):
            res.append((fill, dict(n=n, shape=shape, target=t,
                                   adj_form='dict')))
    for t in range(n):
        res.append((fill, dict(n=n, shape='scalar', target=t,
                               adj_form='callable')))
    return res
