"""C16: Canadian tax: both levels, pension and spousal amounts."""
from types import SimpleNamespace
from forecaster.canada.accounts import RRSP
from forecaster.canada.tax import TaxCanada, TaxCanadaJurisdiction
from harness.common import person, inflation, YEAR
from harness.C14 import brackets, owed

BOUNDS = ('1 or 2 people (single, married to each other, or married to '
          'somebody outside the group), each with 0 or 1 RRSP with symbolic '
          'contributions and withdrawals; symbolic incomes, personal, '
          'pension and spousal amounts, credit rates; 1 or 2 brackets per '
          'level with symbolic thresholds and rates; listed and unlisted '
          'years with a symbolic price index; this year and the past year; '
          'and the shipped constants.')
ASSUMPTIONS = ['exact real arithmetic', 'rates between 0 and 1']
AMT = 100000


def consts(ctx, sizes=(2, 1), rates=True):
    c = {k: {} for k in (
        'TAX_BRACKETS', 'TAX_PERSONAL_DEDUCTION', 'TAX_PENSION_CREDIT',
        'TAX_CREDIT_RATE', 'TAX_SPOUSAL_AMOUNT')}
    law = {}
    for j, n in zip(('Federal', 'BC'), sizes):
        d, pairs = brackets(ctx, n, prefix=j)
        v = {k: ctx.real('%s_%s' % (j, k), 0, AMT)
             for k in ('pd', 'pension', 'spousal')}
        v['cr'] = ctx.real(j + '_cr', 0, 1) if rates else ctx.lift(.15)
        v['pairs'] = pairs
        law[j] = v
        c['TAX_BRACKETS'][j] = {YEAR: d}
        c['TAX_PERSONAL_DEDUCTION'][j] = {YEAR: v['pd']}
        c['TAX_PENSION_CREDIT'][j] = {YEAR: v['pension']}
        c['TAX_SPOUSAL_AMOUNT'][j] = {YEAR: v['spousal']}
        c['TAX_CREDIT_RATE'][j] = {YEAR: v['cr']}
    return SimpleNamespace(
        TAX_REFUND_TIMING=0.3, TAX_PAYMENT_TIMING=0.4,
        RRSP_ACCRUAL_RATE=.18, RRSP_ACCRUAL_MAX={YEAR: 20000},
        RRSP_RRIF_CONVERSION_AGE=71, RRSP_RRIF_WITHDRAWAL_MIN={71: .0528},
        RRSP_WITHHOLDING_TAX_RATE={YEAR: {0: .1}}, **c), law


def make(ctx, i, rrsp, c, raises=False):
    inc = ctx.real('income%d' % i, 0, 2 * AMT)
    kw = dict(raise_rate=ctx.real('raise%d' % i, -.5, 1)) if raises else {}
    p = person(gross_income=inc, name='P%d' % i, **kw)
    cont = wd = 0
    if rrsp:
        a = RRSP(p, balance=ctx.num(AMT), rate=0, contribution_room=0,
                 constants=c)
        cont, wd = ctx.real('in%d' % i, 0, AMT), ctx.real('out%d' % i, 0, AMT)
        a.add_transaction(cont, 0)
        a.add_transaction(-wd, 1)
    return p, dict(income=inc + wd, deduct=cont, pension=wd)


def net(v, f):
    return f['income'] - v['pd'] - f['deduct']


def spousal(ctx, v, spouse):
    return ctx.max(v['spousal'] - ctx.max(net(v, spouse), 0), 0)


def due(ctx, v, f, extra_credit=0):
    credit = ctx.min(f['pension'], v['pension']) + extra_credit
    return ctx.max(owed(ctx, v['pairs'], net(v, f)) - credit * v['cr'], 0)


def single(ctx, rrsp, sizes=(2, 2), args=False):
    """Federal plus provincial tax of one person."""
    c, law = consts(ctx, sizes)
    tax = TaxCanada(None, constants=c)
    p, f = make(ctx, 0, rrsp, c)
    a = due(ctx, law['Federal'], f)
    b = due(ctx, law['BC'], f)
    ctx.check(ctx.eq(tax.federal_tax(p, YEAR), a), 'federal tax')
    ctx.check(ctx.eq(tax.provincial_tax(p, YEAR), b), 'provincial tax')
    ctx.check(ctx.eq(tax(p, YEAR), a + b), 'sum of both')
    ctx.check(ctx.eq(tax({p}, YEAR), a + b), 'group of one')
    x = ctx.real('amount', 0, AMT)
    ctx.check(ctx.eq(tax(x, YEAR), ctx.sum(
        owed(ctx, v['pairs'], x) for v in law.values())), 'plain amount')
    for v, t in ((law['Federal'], tax.federal_tax),
                 (law['BC'], tax.provincial_tax)):
        ctx.check(ctx.eq(t.credit(p, YEAR),
                         ctx.min(f['pension'], v['pension'])),
                  'pension amount')
    if args:
        d = {k: ctx.real(k, 0, AMT) for k in (
            'federal_deduction', 'federal_credit', 'provincial_deduction',
            'provincial_credit')}
        want = 0
        for j, k in (('Federal', 'federal'), ('BC', 'provincial')):
            v = law[j]
            g = dict(f, deduct=f['deduct'] + d[k + '_deduction'])
            want = want + due(ctx, v, g, d[k + '_credit'])
        ctx.check(ctx.eq(tax(p, YEAR, **d), want), 'own deductions')
        de = {tax.federal_tax: d['federal_deduction']}
        cr = {tax.provincial_tax: d['provincial_credit']}
        got = tax(p, YEAR, deductions=de, credits_=cr,
                  provincial_deduction=d['provincial_deduction'],
                  federal_credit=d['federal_credit'])
        ctx.check(ctx.eq(got, want), 'both ways of passing them')
        ctx.check(len(de) == 1 and len(cr) == 1, 'arguments not changed')
    ctx.check(tax.payment_timing == tax.federal_tax.payment_timing and
              tax.refund_timing == tax.federal_tax.refund_timing, 'timing')
    ctx.check(list(tax.refund_timing.keys()) == [0.3] and
              list(tax.payment_timing.keys()) == [0.4], 'deadline')


def couple(ctx, rrsp, where='both', tie=False):
    """The spousal amount goes to exactly one spouse, the higher earner."""
    c, law = consts(ctx, (1, 1))
    tax = TaxCanadaJurisdiction(None, 'BC', constants=c)
    v = law['BC']
    p, f = make(ctx, 0, rrsp & 1, c)
    q, g = make(ctx, 1, rrsp & 2, c)
    if tie:
        ctx.assume(net(v, f) == net(v, g))
    if where == 'unmarried':
        want = due(ctx, v, f) + due(ctx, v, g)
        ctx.check(ctx.eq(tax({p, q}, YEAR), want), 'no amount if unmarried')
        return
    p.spouse = q
    own = ctx.min(f['pension'], v['pension'])
    own2 = ctx.min(g['pension'], v['pension'])
    cp, cq = tax.credit(p, YEAR) - own, tax.credit(q, YEAR) - own2
    ctx.check(ctx.And(ctx.ge(cp, 0), ctx.ge(cq, 0)), 'not negative')
    ctx.check(ctx.And(ctx.le(cp, v['spousal']), ctx.le(cq, v['spousal'])),
              'at most the spousal amount')
    ctx.check(ctx.Or(ctx.eq(cp, 0), ctx.eq(cq, 0)), 'one spouse claims')
    if tie:
        want = spousal(ctx, v, g)
        ctx.check(ctx.eq(cp + cq, want), 'one of two equals claims')
        return
    if net(v, f) > net(v, g):
        sp, sq = spousal(ctx, v, g), 0
    elif net(v, f) < net(v, g):
        sp, sq = 0, spousal(ctx, v, f)
    else:
        return
    ctx.check(ctx.eq(cp, sp), 'amount of the higher earner')
    ctx.check(ctx.eq(cq, sq), 'nothing for the lower earner')
    a, b = due(ctx, v, f, sp), due(ctx, v, g, sq)
    if where == 'one':
        ctx.check(ctx.eq(tax(p, YEAR), a), 'one spouse alone')
        ctx.check(ctx.eq(tax({q}, YEAR), b), 'other spouse alone')
    else:
        ctx.check(ctx.eq(tax({p, q}, YEAR), a + b), 'tax of a couple')
        ctx.check(ctx.eq(tax([q, p], YEAR), a + b), 'in any order')


def both(ctx):
    """A couple, both levels."""
    c, law = consts(ctx, (1, 1), rates=False)
    tax = TaxCanada(None, constants=c)
    p, f = make(ctx, 0, False, c)
    q, g = make(ctx, 1, False, c)
    ctx.assume(f['income'] > g['income'])
    p.spouse = q
    want = ctx.sum(due(ctx, v, f, spousal(ctx, v, g)) + due(ctx, v, g)
                   for v in law.values())
    ctx.check(ctx.eq(tax({p, q}, YEAR), want), 'both levels')


def inflated(ctx, year, advance=0, other=False):
    """In unlisted years brackets and amounts follow inflation; rates do not.
    """
    idx, adj = inflation(ctx, range(YEAR - 1, YEAR + 4), base=YEAR)
    c, law = consts(ctx, (2, 1))
    tax = TaxCanada(adj, constants=c)
    inc = ctx.real('income', 0, 2 * AMT)
    wd = ctx.real('wd', 0, AMT)
    p = person(year=year - advance, gross_income=inc)
    a = RRSP(p, balance=ctx.num(AMT), rate=0, contribution_room=0)
    inc2 = ctx.real('income2', 0, 2 * AMT) if other else 0
    q = person(year=year - advance, name='Q', gross_income=inc2)
    for _ in range(advance):
        for x in (p, q, a):
            x.next_year()
    a.add_transaction(-wd, 1)
    f = dict(income=inc + wd, deduct=0, pension=wd)
    g = dict(income=inc2, deduct=0, pension=0)
    for j, t in (('Federal', tax.federal_tax), ('BC', tax.provincial_tax)):
        v = dict(law[j])
        k = idx[year]
        for n in ('pd', 'pension', 'spousal'):
            v[n] = v[n] * k
        v['pairs'] = [(x * k, r) for x, r in v['pairs']]
        ctx.check(ctx.eq(t.credit(p, year), ctx.min(wd, v['pension'])),
                  'pension amount follows inflation')
        ctx.check(ctx.eq(t(p, year), due(ctx, v, f)), 'inflated brackets')
    p.spouse = q
    ctx.assume(f['income'] > g['income'])
    v = {k: law['BC'][k] * idx[year] for k in ('pd', 'pension', 'spousal')}
    ctx.check(ctx.eq(
        tax.provincial_tax.credit(p, year),
        ctx.min(wd, v['pension']) + spousal(ctx, v, g)),
        'spousal amount follows inflation')
    ctx.check(ctx.eq(tax.provincial_tax.credit(q, year), 0),
              'only one spouse claims')


def past(ctx, rrsp):
    """Last year's tax is the same when it is worked out this year."""
    c, law = consts(ctx, (1, 1), rates=False)
    tax = TaxCanada(None, constants=c)
    v = law['BC']
    p, f = make(ctx, 0, rrsp, c, raises=True)
    q, g = make(ctx, 1, False, c, raises=True)
    p.spouse = q
    then = [tax.provincial_tax(p, YEAR), tax.provincial_tax(q, YEAR)]
    credit = [tax.provincial_tax.credit(x, YEAR) for x in (p, q)]
    for x in (p, q):
        x.next_year()
    for x in (p, q):
        for a in x.accounts:
            a.next_year()
            a.add_transaction(-ctx.real('later', 0, AMT), 0)
    for x, t, k in zip((p, q), then, credit):
        ctx.check(ctx.eq(tax.provincial_tax.credit(x, YEAR), k),
                  'credits of a past year')
        ctx.check(ctx.eq(tax.provincial_tax(x, YEAR), t),
                  'tax of a past year')


def lagging(ctx):
    """An account nobody uses or advances has no part in anyone's taxes."""
    idx, adj = inflation(ctx, range(YEAR - 1, YEAR + 4), base=YEAR)
    c, law = consts(ctx, (1, 1), rates=False)
    tax = TaxCanada(adj, constants=c)
    p, f = make(ctx, 0, False, c, raises=True)
    for k in range(ctx.pick('accounts', [1, 2])):
        RRSP(p, balance=ctx.real('balance%d' % k, 0, AMT), rate=0,
             contribution_room=ctx.num(100), constants=c)
    then = tax(p, YEAR)
    ctx.check(ctx.eq(then, ctx.sum(
        due(ctx, v, f) for v in law.values())), 'tax of the year before')
    p.next_year()
    g = dict(income=p.gross_income, deduct=0, pension=0)
    for j, t in (('Federal', tax.federal_tax), ('BC', tax.provincial_tax)):
        v = dict(law[j], pd=law[j]['pd'] * idx[YEAR + 1])
        v['pairs'] = [(x * idx[YEAR + 1], r) for x, r in v['pairs']]
        ctx.check(ctx.eq(t.credit(p, YEAR + 1), 0), 'no pension amount')
        ctx.check(ctx.eq(t(p, YEAR + 1), due(ctx, v, g)),
                  'tax on other income')
    ctx.check(ctx.eq(tax(p, YEAR), then), 'tax of the year before, later')


def shipped(ctx, province):
    """The constants the package ships with."""
    tax = TaxCanada(None, province=province)
    fed = [(0, .15), (45961.23, .205), (91921.45, .26), (142493.82, .29),
           (203000, .33)]
    fed = [(ctx.lift(k), ctx.lift(r)) for k, r in fed]
    inc = ctx.real('income', 0, 5 * AMT)
    p = person(year=2017, gross_income=inc)
    ctx.check(ctx.eq(tax.federal_tax(p, 2017), owed(
        ctx, fed, inc - 11635)), 'federal tax 2017')
    ctx.check(ctx.eq(tax(p, 2017), tax.federal_tax(p, 2017) +
                     tax.provincial_tax(p, 2017)), 'sum of both')


def tasks(tier):
    full = tier == 'thorough'
    t = [(single, dict(rrsp=r)) for r in (False, True)]
    t += [(single, dict(rrsp=False, sizes=[2, 1], args=True)),
          (single, dict(rrsp=True, sizes=[1, 1], args=True))]
    for r in (0, 1, 2, 3):
        t += [(couple, dict(rrsp=r)), (couple, dict(rrsp=r, where='one'))]
    t += [(couple, dict(rrsp=r, tie=True)) for r in (0, 1)]
    t += [(couple, dict(rrsp=r, where='unmarried')) for r in (0, 3)]
    t += [(both, {})]
    t += [(inflated, dict(year=y)) for y in (YEAR, YEAR + 2, YEAR - 1)]
    t += [(inflated, dict(year=YEAR + 2, advance=a, other=True))
          for a in (0, 2)]
    t += [(past, dict(rrsp=r)) for r in (False, True)]
    t += [(lagging, {})]
    t += [(shipped, dict(province='BC'))]
    if full:
        t += [(single, dict(rrsp=True, sizes=[3, 3])),
              (single, dict(rrsp=True, sizes=[2, 2], args=True))]
    return t
