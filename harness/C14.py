"""C14: the tax bracket function."""
from forecaster.tax import Tax, TaxMulti
from harness.common import inflation, YEAR

BOUNDS = ('1 to 5 brackets with symbolic thresholds and rates in any '
          'insertion order (lowest threshold 0 or symbolic), symbolic '
          'income, deduction and credit; 1 or 2 listed years and up to 4 '
          'unlisted years before and after, queried in any order, with a '
          'symbolic price index; 1 to 3 combined jurisdictions.')
ASSUMPTIONS = ['exact real arithmetic', 'rates between 0 and 1',
               'consistent (transitive) inflation adjustments']
AMT = 200000


def brackets(ctx, n, zero=True, prefix='', order=None):
    ks, rs = [], []
    for i in range(n):
        k = ctx.num(0) if i == 0 and zero else ctx.real(
            '%sb%d' % (prefix, i), 0, AMT)
        if ks:
            ctx.assume(k > ks[-1])
        ks.append(k)
        rs.append(ctx.real('%sr%d' % (prefix, i), 0, 1))
    pairs = list(zip(ks, rs))
    d = {}
    for i in (order or range(n)):
        d[pairs[i][0]] = pairs[i][1]
    return d, pairs


def owed(ctx, pairs, x):
    """Each rate applies to the part of income inside its bracket."""
    t = 0
    for i, (k, r) in enumerate(pairs):
        part = x if i + 1 == len(pairs) else ctx.min(x, pairs[i + 1][0])
        t = t + r * ctx.max(part - k, 0)
    return t


def amount(ctx, n, zero=True, order=None, credits=True):
    """Tax on an amount, with deductions and (non-refundable) credits."""
    d, pairs = brackets(ctx, n, zero, order=order)
    kw = {}
    rate = 1
    if credits == 'rate':
        rate = ctx.real('credit_rate', 0, 1)
        kw['credit_rate'] = {YEAR: rate}
    tax = Tax({YEAR: d}, **kw)
    x = ctx.real('income', -AMT, 3 * AMT)
    de = ctx.real('deduction', 0, AMT) if credits else 0
    cr = ctx.real('credit', 0, AMT) if credits else 0
    args = (dict(deduction=de, credit=cr) if credits else {})
    got = tax(x, YEAR, **args)
    want = ctx.max(owed(ctx, pairs, x - de) - cr * rate, 0)
    ctx.check(ctx.eq(got, want), 'tax owed')
    ctx.check(ctx.ge(got, 0), 'never negative')
    ctx.check(list(d.items()) == [pairs[i] for i in (order or range(n))],
              'brackets are not changed')
    ctx.check(ctx.eq(tax.tax_money(x, YEAR, **args), want), 'tax_money')


def shape(ctx, n, order=None):
    """More income never means less tax, nor more extra tax than income."""
    d, pairs = brackets(ctx, n, order=order)
    tax = Tax({YEAR: d})
    x = ctx.real('x', 0, 3 * AMT)
    y = ctx.real('y', 0, 3 * AMT)
    ctx.assume(x <= y)
    a, b = tax(x, YEAR), tax(y, YEAR)
    ctx.check(ctx.ge(b, a), 'monotone')
    top = ctx.max([r for _, r in pairs])
    low = ctx.min([r for _, r in pairs])
    ctx.check(ctx.le(b - a, top * (y - x)), 'no jump above the top rate')
    ctx.check(ctx.ge(b - a, low * (y - x)), 'at least the lowest rate')


def marginal(ctx, n, order=None):
    """The marginal rate is the rate of the last unit of income."""
    d, pairs = brackets(ctx, n, order=order)
    tax = Tax({YEAR: d})
    x = ctx.real('x', 0, 3 * AMT)
    m = tax.marginal_rate(x, YEAR)
    b = tax.marginal_bracket(x, YEAR)
    want_r, want_b = pairs[0][1], pairs[0][0]
    for k, r in pairs[1:]:
        if x > k:
            want_r, want_b = r, k
    ctx.check(ctx.eq(m, want_r), 'marginal rate')
    ctx.check(ctx.eq(b, want_b), 'marginal bracket')
    e = ctx.real('e', 0, AMT)
    ctx.assume(x - e >= b)
    ctx.check(ctx.eq(tax(x, YEAR) - tax(x - e, YEAR), m * e),
              'last units are taxed at the marginal rate')
    ctx.check(ctx.eq(tax.accum(YEAR, b), owed(ctx, pairs, b)),
              'tax accumulated below the bracket')
    acc = tax.accum(YEAR)
    for k, _ in pairs:
        ctx.check(ctx.eq(acc[k], owed(ctx, pairs, k)), 'accumulated tax')
        ctx.check(ctx.eq(tax.tax_brackets(YEAR, k), dict(pairs)[k]), 'rate')


def nearest(listed, year):
    return max([y for y in listed if y <= year], default=min(listed))


def years(ctx, n, listed, queries, first='tax', others=None, objects=1):
    """In unlisted years thresholds (not rates) follow inflation from the
    nearest listed year, however the years are asked for."""
    pd_years, cr_years = others or (listed[:1], listed[-1:])
    allyears = listed + queries + list(pd_years)
    ys = range(min(allyears), max(allyears) + 1)
    idx, adj = inflation(ctx, ys, base=listed[0])
    for _ in range(objects):    # each has tables of its own
        tables_of(ctx, n, listed, queries, first, pd_years, cr_years, idx,
                  adj)


def tables_of(ctx, n, listed, queries, first, pd_years, cr_years, idx, adj):
    tables = {}
    pairs = {}
    for y in listed:
        tables[y], pairs[y] = brackets(ctx, n, prefix='y%d' % y)
    pd = {y: ctx.real('personal%d' % y, 0, AMT) for y in pd_years}
    cr = {y: ctx.real('credit_rate%d' % y, 0, 1) for y in cr_years}
    tax = Tax(tables, inflation_adjust=adj, personal_deduction=dict(pd),
              credit_rate=dict(cr))
    keep = {y: list(t.items()) for y, t in tables.items()}
    x = ctx.real('income', 0, 3 * AMT)
    for q in queries:
        base = nearest(listed, q)
        f = 1 if q == base else idx[q] / idx[base]
        want = [(k * f, r) for k, r in pairs[base]]
        if first == 'accum':
            acc = tax.accum(q)
            ks = sorted(acc)
            ctx.check(len(ks) == n, 'number of brackets')
            for k, (k2, _) in zip(ks, want):
                ctx.check(ctx.eq(k, k2), 'accumulated thresholds')
                ctx.check(ctx.eq(acc[k], owed(ctx, want, k2)), 'accumulated')
        elif first == 'brackets':
            got = sorted(tax.tax_brackets(q).items())
            ctx.check(len(got) == n, 'number of brackets')
            for (k, r), (k2, r2) in zip(got, want):
                ctx.check(ctx.And(ctx.eq(k, k2), ctx.eq(r, r2)),
                          'thresholds follow inflation')
        ctx.check(ctx.eq(tax(x, q), owed(ctx, want, x)), 'tax of the year')
        ctx.check(ctx.eq(tax.marginal_rate(x, q), _rate(want, x)),
                  'marginal rate of the year')
        pd_year = nearest(pd, q)
        ctx.check(ctx.eq(tax.personal_deduction(q),
                         pd[pd_year] * (idx[q] / idx[pd_year])),
                  'personal deduction follows inflation')
        ctx.check(ctx.eq(tax.credit_rate(q), cr[nearest(cr, q)]),
                  'credit rate does not')
    for y in listed:
        ctx.check(list(tables[y].items()) == keep[y], 'tables not changed')


def _rate(pairs, x):
    r = pairs[0][1]
    for k, s in pairs[1:]:
        if x > k:
            r = s
    return r


def multi(ctx, sizes, kind):
    """Several jurisdictions: total tax is the sum; the combined brackets
    describe the same tax."""
    ps, taxes = [], []
    for i, n in enumerate(sizes):
        d, pairs = brackets(ctx, n, prefix='j%d_' % i)
        ps.append(pairs)
        taxes.append(Tax({YEAR: d}))
    m = TaxMulti(taxes)
    x = ctx.real('income', 0, 3 * AMT)
    total = ctx.sum(owed(ctx, p, x) for p in ps)
    ctx.check(ctx.eq(m(x, YEAR), total), 'sum of the jurisdictions')
    if kind == 'args':
        de = [ctx.real('d%d' % i, 0, AMT) for i in range(len(sizes))]
        cr = [ctx.real('c%d' % i, 0, AMT) for i in range(len(sizes))]
        got = m(x, YEAR, deductions=dict(zip(taxes, de)),
                credits_=dict(zip(taxes, cr)))
        want = ctx.sum(ctx.max(owed(ctx, p, x - d) - c, 0)
                       for p, d, c in zip(ps, de, cr))
        ctx.check(ctx.eq(got, want), 'own deductions and credits')
        got = m(x, YEAR, deductions={taxes[0]: de[0]})
        ctx.check(ctx.eq(got, total - owed(ctx, ps[0], x) +
                         owed(ctx, ps[0], x - de[0])), 'one deduction')
        ctx.check(ctx.eq(m.tax_money(x, YEAR), total), 'tax_money')
        ctx.check(ctx.eq(m.tax_money(
            x, YEAR, deductions=dict(zip(taxes, de)),
            credits_=dict(zip(taxes, cr))), want),
            'tax_money with deductions and credits')
        # what cannot be combined is that of the first jurisdiction
        pd = [ctx.real('pd%d' % i, 0, AMT) for i in range(len(sizes))]
        rt = [ctx.real('rt%d' % i, 0, 1) for i in range(len(sizes))]
        m = TaxMulti([Tax({YEAR: {0: 0}}, personal_deduction={YEAR: a},
                          credit_rate={YEAR: b})
                      for a, b in zip(pd, rt)])
        ctx.check(ctx.eq(m.personal_deduction(YEAR), pd[0]),
                  'personal deduction')
        ctx.check(ctx.eq(m.credit_rate(YEAR), rt[0]), 'credit rate')
        return
    ctx.check(ctx.eq(m.marginal_rate(x, YEAR),
                     ctx.sum(_rate(p, x) for p in ps)), 'marginal rate')
    ctx.check(ctx.eq(m.marginal_bracket(x, YEAR), ctx.max(
        [t.marginal_bracket(x, YEAR) for t in taxes])), 'marginal bracket')
    if kind == 'combined':
        b = m.tax_brackets(YEAR)
        one = Tax({YEAR: dict(b)})
        ctx.check(ctx.eq(one(x, YEAR), total), 'combined brackets')
        acc = m.accum(YEAR)
        ctx.check(len(acc) == len(b), 'accumulated for every bracket')
        for k in b:
            w = ctx.sum(owed(ctx, p, k) for p in ps)
            ctx.check(ctx.And(ctx.eq(acc[k], w), ctx.eq(m.accum(YEAR, k), w)),
                      'combined accumulated tax')
            ctx.check(ctx.eq(m.tax_brackets(YEAR, k), b[k]), 'one bracket')


def tasks(tier):
    full = tier == 'thorough'
    t = []
    orders = {1: [None], 2: [None, [1, 0]], 3: [None, [2, 0, 1]],
              4: [[3, 1, 0, 2]], 5: [[4, 0, 3, 1, 2]]}
    for n in range(1, 6 if full else 5):
        for o in orders[n]:
            t.append((amount, dict(n=n, order=o)))
            t.append((marginal, dict(n=n, order=o)))
        t.append((amount, dict(n=n, credits='rate')))
        t.append((amount, dict(n=n, zero=False, credits=False)))
        if n < 4 or full:
            t.append((shape, dict(n=n, order=orders[n][-1])))
    Y = YEAR
    for f in ('tax', 'accum', 'brackets'):
        t += [(years, dict(n=2, listed=[Y], queries=[Y, Y + 1, Y + 2],
                           first=f)),
              (years, dict(n=2, listed=[Y], queries=[Y + 2, Y + 1, Y - 1],
                           first=f)),
              (years, dict(n=2, listed=[Y, Y + 2], queries=[
                  Y + 1, Y + 3, Y - 1] if full else [Y + 1, Y + 3],
                  first=f))]
    t += [(years, dict(n=2, listed=l, queries=q, others=o)) for l, q, o in (
        ([Y + 2, Y], [Y + 1, Y + 3, Y], ([Y + 2, Y], [Y + 2, Y])),
        ([Y], [Y + 1, Y - 1], ([Y, Y - 2, Y + 1], [Y + 1, Y])),
        ([Y + 1, Y - 1], [Y], ([Y + 1], [Y - 1, Y + 1])))]
    t += [(years, dict(n=2, listed=[Y], queries=[Y, Y + 1], first=f,
                       objects=2)) for f in ('tax', 'accum', 'brackets')]
    for k in ('sum', 'args', 'combined'):
        t += [(multi, dict(sizes=[2, 2], kind=k)),
              (multi, dict(sizes=[1, 3], kind=k)),
              (multi, dict(sizes=[2], kind=k))]
        if full:
            t += [(multi, dict(sizes=[2, 2, 2], kind=k)),
                  (multi, dict(sizes=[3, 2], kind=k))]
    if full:
        t += [(years, dict(n=3, listed=[Y], queries=[Y + 3, Y + 1, Y - 2, Y],
                           first=f)) for f in ('tax', 'accum', 'brackets')]
    return t
