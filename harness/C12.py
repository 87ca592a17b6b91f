"""C12: RRSPs and RRIFs: contribution room, conversion, minimum withdrawals,
withholding and the amounts reported for tax."""
from types import SimpleNamespace
from forecaster.canada.accounts import RRSP
from harness.common import person, inflation, YEAR

BOUNDS = ('1 to 3 linked accounts over 1 to 2 years with symbolic income, '
          'room, balance, contributions and withdrawals (up to 2 per account '
          'and year, symbolic timings); owner and contributor of different '
          'ages from 30 to 100; every conversion year around the deadline; '
          'symbolic statutory maxima, rates, bracket thresholds and '
          'inflation index, and the shipped constants.')
ASSUMPTIONS = ['exact real arithmetic', 'non-negative account balance']
AMT = 100000
# Income Tax Regulations s. 7308 (the factors the package ships with)
RRIF = {71: .0528, 72: .0540, 73: .0553, 74: .0567, 75: .0582, 76: .0598,
        77: .0617, 78: .0636, 79: .0658, 80: .0682, 81: .0708, 82: .0738,
        83: .0771, 84: .0808, 85: .0851, 86: .0899, 87: .0955, 88: .1021,
        89: .1099, 90: .1192, 91: .1306, 92: .1449, 93: .1634, 94: .1879,
        95: .2}


def consts(ctx, **kw):
    d = dict(RRSP_ACCRUAL_RATE=0.18, RRSP_ACCRUAL_MAX={2017: 25750.55},
             RRSP_WITHHOLDING_TAX_RATE={2017: {0: .1, 5000: .2, 15000: .3}},
             RRSP_RRIF_CONVERSION_AGE=71, RRSP_RRIF_WITHDRAWAL_MIN=RRIF)
    d.update(kw)
    return SimpleNamespace(**d)


def factor(ctx, age):
    if age < 71:
        return 1 / ctx.lift(90 - age)
    return ctx.lift(RRIF[min(age, 95)])


def flows(ctx, accts, y, n):
    """Adds symbolic transactions; returns (inflows, outflows) per account."""
    res = []
    for i, a in enumerate(accts):
        i_, o_ = 0, 0
        ts = []
        for j in range(n):
            v = ctx.real('v%d_%d_%d' % (i, j, y), -AMT, AMT)
            t = ctx.real('t%d_%d_%d' % (i, j, y), 0, 1)
            if ts:
                ctx.assume(t > ts[-1])      # separate transactions
            ts.append(t)
            a.add_transaction(v, t)
            i_ = i_ + ctx.max(v, 0)
            o_ = o_ + ctx.min(v, 0)
        res.append((i_, o_))
    return res


def room(ctx, n, nt, years=1, default=False, lead=0, ahead=False):
    """Room: 18% of last year's income up to the maximum, plus what is left
    after every linked account's contributions."""
    kw = {}
    if default:
        rate, maxima, adj = ctx.lift(.18), {2017: 25750.55}, None
    else:
        rate = ctx.real('accrual_rate', 0, 1)
        maxima = {YEAR: ctx.real('max0', 0, AMT),
                  YEAR + 1: ctx.real('max1', 0, AMT)}
        idx, adj = inflation(ctx, range(YEAR, YEAR + years + 2),
                             base=YEAR + 1)
        kw['constants'] = consts(ctx, RRSP_ACCRUAL_MAX=maxima,
                                 RRSP_WITHHOLDING_TAX_RATE={YEAR: {0: .1}},
                                 RRSP_ACCRUAL_RATE=rate)
        kw['inflation_adjust'] = adj
    inc = ctx.real('income', 0, 10 * AMT)
    rr = ctx.real('raise', -0.5, 1)
    p = person(gross_income=inc, raise_rate=rr)
    left = ctx.real('room', 0, AMT)
    accts = [RRSP(p if i == 0 else person(birth=1970, name='O%d' % i),
                  balance=ctx.real('balance%d' % i, 0, AMT), rate=0,
                  contributor=p, **dict(kw, **(
                      {'contribution_room': left} if i == 0 else {})))
             for i in range(n)]
    for y in range(YEAR, YEAR + years):
        fl = flows(ctx, accts, y, nt)
        if default:
            top = 25750.55
        elif y + 1 in maxima:
            top = maxima[y + 1]
        else:
            top = maxima[YEAR + 1] * idx[y + 1]
        left = left - ctx.sum(i for i, _ in fl) + ctx.min(inc * rate, top)
        for a, (i_, o_) in zip(accts, fl):
            ctx.check(ctx.eq(a.tax_deduction, i_), 'contributions deduct')
            ctx.check(ctx.eq(a.taxable_income, -o_), 'withdrawals are income')
        if ahead:
            p.next_year()
        accts[lead % n].next_year()
        for a, (i_, o_) in zip(accts, fl):
            ctx.check(ctx.eq(a.contribution_room, left), 'next room')
            ctx.check(ctx.eq(a.tax_deduction_history[y], i_),
                      'past deduction kept')
            ctx.check(ctx.eq(a.taxable_income_history[y], -o_),
                      'past income kept')
        inc = inc * (1 + rr)


def too_old(ctx, birth):
    """No room after the year the contributor turns 71."""
    p = person(birth=birth, gross_income=ctx.real('income', 0, AMT))
    left = ctx.real('room', 0, AMT)
    a = RRSP(person(birth=1970, name='O'), balance=0, rate=0, contributor=p,
             contribution_room=left)
    for y in range(YEAR, YEAR + 3):
        inc = p.gross_income
        a.next_year()
        left = 0 if y + 1 - birth > 71 else left + ctx.min(
            inc * ctx.lift(.18), 25750.55)
        ctx.check(ctx.eq(a.contribution_room, left), 'room ends at 71')


def convert(ctx, birth, cbirth):
    """Conversion happens by the year the annuitant turns 71."""
    p, q = person(birth=birth), person(birth=cbirth, name='C')
    last = birth + 71
    a = RRSP(p, balance=0, rate=0, contributor=q)
    ctx.check(a.rrif_conversion_year == last, 'default is the deadline')
    y = ctx.int('year', 1990, 2090)
    if y > last:
        ctx.check(ctx.raises(ValueError, setattr, a, 'rrif_conversion_year',
                             y), 'no later than the deadline')
        ctx.check(a.rrif_conversion_year == last, 'refused change')
        ctx.check(ctx.raises(ValueError, lambda: RRSP(
            p, balance=0, rate=0, contributor=q, rrif_conversion_year=y)),
            'no later than the deadline at first')
        ctx.check(ctx.raises(ValueError, a.convert_to_rrif, y),
                  'cannot convert later')
    else:
        a.rrif_conversion_year = y
        ctx.check(a.rrif_conversion_year == y, 'chosen year')
        b = RRSP(p, balance=0, rate=0, contributor=q, rrif_conversion_year=y)
        ctx.check(b.rrif_conversion_year == y, 'chosen year at first')
        a.rrif_conversion_year = None
        ctx.check(a.rrif_conversion_year == last, 'unset')
        a.convert_to_rrif(y)
        ctx.check(a.rrif_conversion_year == y, 'convert in a year')
    # years may be text
    d = RRSP(p, balance=0, rate=0, contributor=q,
             rrif_conversion_year=str(last - 2))
    ctx.check(d.rrif_conversion_year == last - 2, 'year as text at first')
    d.rrif_conversion_year = str(last - 1)
    ctx.check(d.rrif_conversion_year == last - 1, 'year as text')
    d.convert_to_rrif(str(last))
    ctx.check(d.rrif_conversion_year == last, 'converted, year as text')
    ctx.check(ctx.raises(ValueError, setattr, d, 'rrif_conversion_year',
                         str(last + 1)), 'text no later than the deadline')
    if YEAR <= last:
        c = RRSP(p, balance=0, rate=0, contributor=q)
        c.convert_to_rrif()
        ctx.check(c.rrif_conversion_year == YEAR, 'convert now')


def minimum(ctx, age, conv, shared=False, cage=40, years=0, other=False):
    """The minimum withdrawal: the statutory share of the opening balance,
    from the year after conversion."""
    year = YEAR + years
    p = person(birth=year - age)
    q = person(birth=year - cage, name='C')
    if other:
        # another account, under other statutory factors, was asked before
        table = {k: ctx.num(1) / 7 for k in RRIF}
        o = RRSP(p, balance=1000, rate=0, contributor=q, contribution_room=0,
                 constants=consts(ctx, RRSP_RRIF_WITHDRAWAL_MIN=table))
        o.minimum_distribution()
    bal = ctx.real('balance', 0, AMT)
    rate = ctx.real('rate', -0.5, 1)
    kw = {}
    lim = 0
    if shared:
        lim = ctx.real('shared', -AMT, 0)
        kw = dict(min_outflow_link=(p, 'x'), min_outflow_limit=lim)
    a = RRSP(p, balance=bal, rate=rate, nper=1, contributor=q,
             contribution_room=0, **kw)
    if conv != 'default':
        a.rrif_conversion_year = year + conv
    for y in range(years):
        v = ctx.real('v%d' % y, 0, AMT)
        t = ctx.pick('t%d' % y, [0, 1])
        a.add_transaction(v, t)
        bal = (bal + v) * (1 + rate) if t == 0 else bal * (1 + rate) + v
        a.next_year()
    a.add_transaction(ctx.real('now', 0, AMT), ctx.pick('tn', [0, 1]))
    when = min(year - age + 71, year - age + 71 if conv == 'default'
               else year + conv)
    want = bal * factor(ctx, age) if when < year else 0
    ctx.check(ctx.eq(a.minimum_distribution(), want), 'minimum withdrawal')
    ctx.check(ctx.le(a.minimum_distribution(), bal),
              'minimum is within the balance')
    ctx.check(ctx.eq(a.min_outflow_limit, ctx.min(-want, lim)),
              'the larger of statutory and shared minimum')
    if not shared and years == 0:
        b = RRSP(p, balance=bal, rate=0, contributor=q, contribution_room=0)
        b.rrif_conversion_year = a.rrif_conversion_year
        w = b.min_outflows({0: 1, 1: 1})
        ctx.check(ctx.eq(ctx.sum(w.values()), -want), 'proposed withdrawals')
        for t, v in w.items():
            b.add_transaction(v, t)
        ctx.check(ctx.eq(ctx.sum(b.min_outflows({0: 1}).values()), 0),
                  'minimum is met')


def withheld(ctx, nt, conv, symbolic, age=60):
    """Withholding tax: one rate, set by the bracket the whole amount is in;
    the statutory RRIF minimum is exempt."""
    year = 2018
    p = person(year=year, birth=year - age)
    kw = {}
    table = {0: .1, 5000: .2, 15000: .3}
    idx = {2017: 1, year: 1}
    if symbolic:
        lo, hi = ctx.real('lo', 1, AMT), ctx.real('hi', 1, AMT)
        ctx.assume(lo < hi)
        r = [ctx.real('r%d' % i, 0, 1) for i in range(3)]
        table = {ctx.num(0): r[0], lo: r[1], hi: r[2]}
        idx, adj = inflation(ctx, (2017, year, year + 1), base=2017)
        kw = dict(inflation_adjust=adj, constants=consts(
            ctx, RRSP_ACCRUAL_MAX={year: 100, year + 1: 200}, RRSP_WITHHOLDING_TAX_RATE={
                2017: table, 2030: {ctx.num(0): ctx.lift(.9)}}))
    bal = ctx.real('balance', 0, AMT)
    a = RRSP(p, balance=bal, rate=0, contribution_room=0, **kw)
    if conv is not None:
        a.rrif_conversion_year = year + conv
    ((i_, o_),) = flows(ctx, [a], year, nt)
    base = -o_
    if conv is not None and conv <= 0:
        floor = bal * factor(ctx, age) if conv < 0 else 0
        base = ctx.max(base - floor, 0)
    ks = sorted(table)
    rate = table[ks[0]]
    for k in ks[1:]:
        rate = ctx.ite(base > k * idx[year], ctx.lift(table[k]), rate)
    want = base * rate
    ctx.check(ctx.eq(a.tax_withheld, want), 'withholding tax')
    ctx.check(ctx.ge(a.tax_withheld, 0), 'never negative')
    ctx.check(ctx.le(a.tax_withheld, -o_), 'never more than was withdrawn')
    got = a.tax_withheld
    a.next_year()
    ctx.check(ctx.eq(a.tax_withheld_history[year], got), 'kept in history')


def tasks(tier):
    full = tier == 'thorough'
    t = [(room, dict(n=1, nt=1, default=True)), (room, dict(n=1, nt=2)),
         (room, dict(n=2, nt=1)), (room, dict(n=2, nt=1, lead=1)),
         (room, dict(n=1, nt=1, years=2)),
         (room, dict(n=1, nt=1, ahead=True)),
         (room, dict(n=2, nt=1, ahead=True, lead=1)),
         (room, dict(n=2, nt=1, default=True, lead=1)),
         (room, dict(n=3, nt=1, default=True))]
    t += [(too_old, dict(birth=b)) for b in (1937, 1938, 1939, 1940, 1941)]
    t += [(convert, dict(birth=b, cbirth=c)) for b, c in (
        (1960, 1960), (1960, 1930), (1945, 1980), (1939, 1950), (1938, 1980))]
    ages = ([40, 60, 69, 70, 71, 72, 73, 77, 82, 88, 94, 95, 96, 99]
            if not full else range(30, 101))
    for age in ages:
        for conv in (-1, 0, 'default') if age <= 71 else (-1, 'default'):
            if isinstance(conv, int) and conv > 71 - age:
                conv = 71 - age
            t.append((minimum, dict(age=age, conv=conv)))
    t += [(minimum, dict(age=65, conv=-1, shared=True)),
          (minimum, dict(age=75, conv='default', shared=True)),
          (minimum, dict(age=75, conv='default', cage=90)),
          (minimum, dict(age=60, conv=-2, cage=80, shared=True)),
          (minimum, dict(age=60, conv=1, cage=80)),
          (minimum, dict(age=72, conv='default', years=1)),
          (minimum, dict(age=73, conv='default', years=2)),
          (minimum, dict(age=80, conv='default', other=True)),
          (minimum, dict(age=97, conv='default', other=True)),
          (minimum, dict(age=71, conv='default', years=2, shared=True))]
    for nt in (1, 2):
        for conv in (None, 0, -1):
            for s in (False, True):
                t.append((withheld, dict(nt=nt, conv=conv, symbolic=s)))
    t += [(withheld, dict(nt=1, conv=5, symbolic=True)),
          (withheld, dict(nt=1, conv=-4, symbolic=True, age=75)),
          (withheld, dict(nt=1, conv=-28, symbolic=False, age=98))]
    if full:
        t += [(room, dict(n=2, nt=2, lead=l)) for l in (0, 1)]
        t += [(room, dict(n=3, nt=1, lead=l)) for l in (0, 2)]
        t += [(room, dict(n=2, nt=1, years=2, lead=l)) for l in (0, 1)]
        t += [(withheld, dict(nt=3, conv=c, symbolic=s))
              for c in (None, -1) for s in (False, True)]
    return t
