"""C04: inflation compounds consistently between any two years."""
from forecaster.scenario import Scenario

BOUNDS = ('3 to 6 modelled years, a symbolic inflation rate in [-0.5, 1] per '
          'year, all triples of years of the scenario; rates given as list, '
          'dict or scalar; symbolic returns and fees.')
ASSUMPTIONS = ['exact real arithmetic', 'inflation above -50%']
Y0 = 2000


def make(ctx, n, form, name='i'):
    if form == 'scalar':
        r = ctx.real(name, -0.5, 1)
        return r, {Y0 + k: r for k in range(n)}
    rs = [ctx.real('%s%d' % (name, k), -0.5, 1) for k in range(n)]
    d = {Y0 + k: r for k, r in enumerate(rs)}
    return (rs if form == 'list' else tuple(rs) if form == 'tuple'
            else dict(reversed(list(d.items())))), d


def scenario(ctx, n, form):
    infl, rates = make(ctx, n, form)
    return Scenario(initial_year=Y0, num_years=n, inflation=infl,
                    stock_return=0, bond_return=0, other_return=0,
                    management_fees=0), rates


def product(rates, a, b):
    p = 1
    for y in range(a, b):
        p = p * (1 + rates[y])
    return p


def pairs(ctx, n, form, a, b):
    s, rates = scenario(ctx, n, form)
    f = s.accumulation_function(a, b)
    lo, hi = min(a, b), max(a, b)
    p = product(rates, lo, hi)
    if a <= b:
        ctx.check(ctx.eq(f, p), 'product of the annual rates')
    else:
        ctx.check(ctx.eq(f * p, 1), 'inverse going backwards')
    ctx.check(f > 0, 'positive')
    ctx.check(ctx.eq(s.inflation_adjust(b, a), f), 'adjust target from base')
    ctx.check(ctx.eq(f * s.inflation_adjust(a, b), 1), 'there and back')
    if a == Y0:
        ctx.check(ctx.eq(s.inflation_adjust(b), f), 'default base year')
    ctx.check(ctx.eq(s.discount_rate(a), rates[a]), 'annual rate')
    table = s.inflation_adjustments(a)
    ctx.check(sorted(table) == list(range(Y0, Y0 + n)), 'table years')
    ctx.check(ctx.eq(table[b], f), 'table entry')
    ctx.observe('f', f)


def transitive(ctx, n, form, a, b, c):
    s, rates = scenario(ctx, n, form)
    adj = s.inflation_adjust
    ctx.check(ctx.eq(adj(b, a) * adj(c, b), adj(c, a)), 'transitive')


def series(ctx, n, form):
    """Each economic series is read out year by year as it was given."""
    names = ['inflation', 'stock_return', 'bond_return', 'other_return',
             'management_fees']
    given, want = {}, {}
    for nm in names:
        given[nm], want[nm] = make(ctx, n, form, nm[0] + nm[1])
    s = Scenario(initial_year=Y0, num_years=n, **given)
    ctx.check(len(s) == n and list(s) == list(range(Y0, Y0 + n)), 'years')
    for nm in names:
        for y in range(Y0, Y0 + n):
            ctx.check(ctx.eq(getattr(s, nm)[y], want[nm][y]), nm)


def omitted(ctx, given):
    """What is not given is nothing, whatever else is."""
    names = ['inflation', 'stock_return', 'bond_return', 'other_return',
             'management_fees']
    vals = {nm: ctx.real(nm, -0.5, 1) for nm in given}
    s = Scenario(Y0, 3, **vals)
    for nm in names:
        for y in range(Y0, Y0 + 3):
            ctx.check(ctx.eq(getattr(s, nm)[y], vals.get(nm, 0)), nm)
    r = vals.get('inflation', ctx.num(0))
    ctx.check(ctx.eq(s.inflation_adjust(Y0 + 2, Y0), (1 + r) * (1 + r)),
              'adjustment')


def tasks(tier):
    res = [(omitted, dict(given=g)) for g in (
        [], ['inflation'], ['stock_return', 'other_return'],
        ['bond_return', 'management_fees'])]
    sizes = (3,) if tier == 'quick' else (3, 5, 6)
    for n in sizes:
        ys = range(Y0, Y0 + n)
        for form in ('list', 'dict', 'scalar'):
            for a in ys:
                for b in ys:
                    res.append((pairs, dict(n=n, form=form, a=a, b=b)))
        for a in ys:
            for b in ys:
                for c in ys:
                    res.append((transitive,
                                dict(n=n, form='list', a=a, b=b, c=c)))
    if tier == 'quick':
        for a, b in ((2000, 2004), (2004, 2000), (2001, 2004), (2003, 2001)):
            res.append((pairs, dict(n=5, form='list', a=a, b=b)))
    for form in ('list', 'tuple', 'dict', 'scalar'):
        res.append((series, dict(n=4, form=form)))
    return res
