"""C15: tax owed by people: everything they own counts once, for the right
year, and a group owes the sum."""
from forecaster.accounts import Account
from forecaster.canada.accounts import RRSP, TaxableAccount
from forecaster.tax import Tax, TaxMulti
from harness.common import person, YEAR
from harness.C14 import brackets, owed

BOUNDS = ('1 to 4 people (couples among them) in any order, each with 0 to 2 '
          'accounts, symbolic income, account income, deductions, credits '
          'and personal deduction, 1 to 3 brackets with symbolic thresholds '
          'and rates; 1 or 2 jurisdictions; this year and past years.')
ASSUMPTIONS = ['exact real arithmetic', 'rates between 0 and 1']
AMT = 100000


def law(ctx, n=2, prefix='', cls=Tax):
    d, pairs = brackets(ctx, n, prefix=prefix)
    pd = ctx.real(prefix + 'personal', 0, AMT)
    cr = ctx.real(prefix + 'credit_rate', 0, 1)
    tax = Tax({YEAR: d}, personal_deduction={YEAR: pd},
              credit_rate={YEAR: cr})

    def due(income, deduction, credit):
        return ctx.max(owed(ctx, pairs, income - pd - deduction)
                       - credit * cr, 0)
    return tax, due


def make(ctx, i, accts=1, years=1, **kw):
    """A person with accounts; returns (person, per-year totals)."""
    inc = ctx.real('income%d' % i, 0, AMT)
    p = person(gross_income=inc, raise_rate=ctx.num(0), name='P%d' % i, **kw)
    tot = {}
    ins = []
    for y in range(YEAR, YEAR + years):
        ti, td, tc = inc, 0, 0
        for j in range(accts):
            vals = [ctx.real('%s%d_%d_%d' % (k, i, j, y), 0, AMT)
                    for k in ('ti', 'td', 'tc')]
            ins.append((j, y, vals))
            ti, td, tc = ti + vals[0], td + vals[1], tc + vals[2]
        tot[y] = (ti, td, tc)
    for j in range(accts):
        inp = {'taxable_income': {}, 'tax_deduction': {}, 'tax_credit': {}}
        for jj, y, v in ins:
            if jj == j:
                for k, x in zip(inp, v):
                    inp[k][y] = x
        Account(p, balance=0, rate=0, inputs=inp)
    return p, tot


def single(ctx, accts, n, extra):
    tax, due = law(ctx, n)
    p, tot = make(ctx, 0, accts)
    ti, td, tc = tot[YEAR]
    kw = {}
    de = cr = 0
    if extra:
        de, cr = ctx.real('de', 0, AMT), ctx.real('cr', 0, AMT)
        kw = dict(deduction=de, credit=cr)
    want = due(ti, td + de, tc + cr)
    ctx.check(ctx.eq(tax(p, YEAR, **kw), want), 'tax of a person')
    ctx.check(ctx.eq(tax.tax_person(p, YEAR, **kw), want), 'tax_person')
    ctx.check(ctx.eq(p.taxable_income, ti), 'taxable income')
    ctx.check(ctx.eq(p.tax_deduction, td), 'deductions')
    ctx.check(ctx.eq(p.tax_credit, tc), 'credits')
    if extra:
        kw = dict(deduction={p: de}, credit={p: cr})
    ctx.check(ctx.eq(tax({p}, YEAR, **kw), want), 'group of one')
    ctx.check(ctx.eq(tax.deduction(p, YEAR), tax.personal_deduction(YEAR) +
                     td), 'deduction includes the personal one')
    ctx.check(ctx.eq(tax.credit(p, YEAR), tc), 'credit')


def group(ctx, n, accts, married, kind, extra, places=None):
    """A group owes the sum of what its members owe (places: the order in
    which a set gives them)."""
    tax, due = law(ctx, 2)
    people, want = [], 0
    dd, cc = {}, {}
    for i in range(n):
        p, tot = make(ctx, i, accts, place=places[i] if places else None)
        people.append(p)
        de = cr = 0
        if extra >> i & 1:
            de, cr = ctx.real('de%d' % i, 0, AMT), ctx.real('cr%d' % i, 0, AMT)
            dd[p], cc[p] = de, cr
        ti, td, tc = tot[YEAR]
        want = want + due(ti, td + de, tc + cr)
    if married:
        people[0].spouse = people[1]
    if married == 'two couples':
        people[2].spouse = people[3]
    if married == 'absent':
        people[1].spouse = person(name='X', gross_income=ctx.num(5))
    arg = {'set': set, 'list': list, 'tuple': tuple,
           'frozenset': frozenset}[kind](people)
    kw = dict(deduction=dd, credit=cc) if extra else {}
    keep = dict(dd), dict(cc)
    ctx.check(ctx.eq(tax(arg, YEAR, **kw), want), 'tax of a group')
    ctx.check((dd, cc) == keep, 'arguments are not changed')
    ctx.check(len(arg) == n, 'group is not changed')
    if married:
        ctx.check(ctx.eq(tax.tax_spouses(set(people[:2]), YEAR), tax(
            set(people[:2]), YEAR)), 'spouses have no special treatment')
    ctx.check(ctx.eq(tax(set(), YEAR), 0), 'nobody owes nothing')


def past(ctx, accts, years, ahead):
    """Tax for a past year uses that year's figures."""
    tax, due = law(ctx, 2)
    p, tot = make(ctx, 0, accts, years)
    seen = {}
    for y in range(YEAR, YEAR + years):
        if not ahead:
            seen[y] = tax(p, y)
            ctx.check(ctx.eq(seen[y], due(*tot[y])), 'tax this year')
        p.next_year()
        for a in p.accounts:
            a.next_year()
    for y in range(YEAR, YEAR + years):
        got = tax(p, y)
        ctx.check(ctx.eq(got, due(*tot[y])), 'tax for a past year')
        ctx.check(ctx.eq(tax({p}, y), got), 'in a group as well')


def multi(ctx, n, extra):
    """Every jurisdiction taxes the people by its own rules."""
    t1, due1 = law(ctx, 2, 'a')
    t2, due2 = law(ctx, 2 if n == 1 else 1, 'b')
    m = TaxMulti([t1, t2])
    people, want = [], 0
    d = {t1: {}, t2: {}}
    c = {t1: {}, t2: {}}
    for i in range(n):
        p, tot = make(ctx, i, 1)
        people.append(p)
        ti, td, tc = tot[YEAR]
        de = cr = 0
        if extra:
            de, cr = ctx.real('de%d' % i, 0, AMT), ctx.real('cr%d' % i, 0, AMT)
            d[t1][p] = de
            c[t2][p] = cr
        want = want + due1(ti, td + de, tc) + due2(ti, td, tc + cr)
    kw = dict(deductions=d, credits_=c) if extra else {}
    ctx.check(ctx.eq(m(set(people), YEAR, **kw), want), 'group')
    ctx.check(ctx.eq(m.tax_people(set(people), YEAR, **kw), want),
              'tax_people')
    if n == 1:
        kw = {}
        if extra:
            kw = dict(deductions={t1: d[t1][people[0]]},
                      credits_={t2: c[t2][people[0]]})
        ctx.check(ctx.eq(m(people[0], YEAR, **kw), want), 'one person')
        ctx.check(ctx.eq(m.tax_person(people[0], YEAR, **kw), want),
                  'tax_person')
        ctx.check(ctx.eq(m.deduction(people[0], YEAR),
                         t1.deduction(people[0], YEAR)), 'first deduction')
        ctx.check(ctx.eq(m.credit(people[0], YEAR),
                         t1.credit(people[0], YEAR)), 'first credit')
    if n == 2:
        people[0].spouse = people[1]
        ctx.check(ctx.eq(m(set(people), YEAR, **kw), want), 'spouses')
        ctx.check(ctx.eq(m.tax_spouses(set(people), YEAR, **kw), want),
                  'tax_spouses')


def accounts(ctx):
    """Contributions to and withdrawals from real accounts count once."""
    tax, due = law(ctx, 2)
    inc = ctx.real('income', 0, AMT)
    p = person(gross_income=inc)
    r = RRSP(p, balance=ctx.real('balance', 0, AMT), rate=0,
             contribution_room=0)
    v, w = ctx.real('in', 0, AMT), ctx.real('out', 0, AMT)
    r.add_transaction(v, 0)
    r.add_transaction(-w, 1)
    b = ctx.real('tbalance', 1, AMT)
    t = TaxableAccount(p, balance=b, acb=ctx.num(0), rate=0)
    s = ctx.real('sell', 0, AMT)
    ctx.assume(s <= b)
    t.add_transaction(-s, 1)
    ctx.check(ctx.eq(tax(p, YEAR), due(inc + w + s / 2, v, 0)),
              'withdrawals, contributions and gains')


def tasks(tier):
    full = tier == 'thorough'
    t = [(accounts, {})]
    for accts in (0, 1, 2):
        for extra in (False, True):
            t.append((single, dict(accts=accts, n=3 if accts < 2 else 2,
                                   extra=extra)))
    for kind in ('set', 'list', 'tuple', 'frozenset'):
        t.append((group, dict(n=2, accts=0, married=False, kind=kind,
                              extra=0)))
    t += [(group, dict(n=2, accts=1, married=True, kind='set', extra=1)),
          (group, dict(n=2, accts=0, married=True, kind='set', extra=3)),
          (group, dict(n=2, accts=0, married='absent', kind='list', extra=0)),
          (group, dict(n=3, accts=0, married=True, kind='list', extra=4)),
          (group, dict(n=3, accts=0, married=False, kind='set', extra=7)),
          (group, dict(n=4, accts=0, married='two couples', kind='set',
                       extra=0, places=[0, 2, 1, 3])),
          (past, dict(accts=1, years=1, ahead=False)),
          (past, dict(accts=1, years=2, ahead=False)),
          (past, dict(accts=1, years=2, ahead=True))]
    for n in (1, 2):
        for extra in (False, True):
            t.append((multi, dict(n=n, extra=extra)))
    for places in ([0, 1, 2], [1, 2, 0], [0, 2, 1], [2, 1, 0]):
        t.append((group, dict(n=3, accts=0, married=True, kind='set',
                              extra=2, places=places)))
    if full:
        for e in range(8):
            t.append((group, dict(n=3, accts=1, married=True, kind='set',
                                  extra=e)))
        t += [(single, dict(accts=3, n=4, extra=True)),
              (past, dict(accts=2, years=3, ahead=True))]
    return t
