"""C25: income, raises, retirement and age of a person."""
from datetime import datetime
from forecaster.person import Person
from harness import dates
from harness.common import person, YEAR

BOUNDS = (
    'up to 5 years with symbolic incomes, raises (as a number, dict, '
    'callable or not given) and tax rates, retirement on any day from 3 '
    'years before to 10 years after the first, values read in any listed order, with '
    'values given in advance or set for any year; ages on any two days '
    'from 1900 to 2100 (symbolic year, month and day); retirement ages '
    '0 to 120 with any birth date.')
ASSUMPTIONS = [
    'exact real arithmetic',
    'dates are whole days; someone born on February 29 turns a year older '
    'on February 28 or March 1 of other years (February 28 itself is not '
    'checked)',
    'dateutil.relativedelta is executed symbolically like the code itself']
AMT = 100000


def income(ctx, years, retire, kind, given=(), reads=None, change=None):
    """Gross and net income of every year."""
    g = [ctx.real('g', 0, AMT)]
    span = range(YEAR, YEAR + years + 1)
    raises = {y: ctx.real('raise%d' % y, -1, 2) for y in span}
    rates = {y: ctx.real('tax%d' % y, -1, 2) for y in span}
    if kind == 'number':
        raises = {y: raises[YEAR] for y in span}
        rule = raises[YEAR]
    elif kind == 'none':
        raises = {y: 0 for y in span}
        rule = None
    elif kind == 'dict':
        rule = dict(raises)
    else:
        def rule(year):
            return raises[year]
    inputs = {}
    for what, y in given:
        inputs.setdefault(what, {})[YEAR + y] = ctx.real(
            '%s%d' % (what, y), 0, 1 if what == 'raise_rate' else AMT)
    copy = {k: dict(v) for k, v in inputs.items()}
    asked = []

    def tax(x, year):
        asked.append(year)
        return x * rates[year]
    if retire is None:
        leaves = dates.date(ctx, 'leaves', YEAR - 3, YEAR + 10)
        last = leaves.year
    else:
        leaves = datetime(YEAR + retire, 12, 31)
        last = YEAR + retire
    p = Person(YEAR, 'P', datetime(1970, 3, 1),
               retirement_date=leaves,
               gross_income=g[0], raise_rate=rule, tax_treatment=tax,
               inputs=inputs)
    net = [g[0] * (1 - rates[YEAR])]
    seen = [inputs.get('raise_rate', {}).get(YEAR, raises[YEAR])]
    for k in range(years + 1):
        y = YEAR + k
        if k:
            p.next_year()
            r = inputs.get('raise_rate', {}).get(y, raises[y])
            if change and change[0] == k and change[1] == 'raise_rate':
                r = ctx.real('new', -1, 2)
                p.raise_rate = r
            if change and change[0] == k and change[1] == 'rule':
                new = ctx.real('new', -1, 2)
                p.raise_rate_callable = new
                for z in span:
                    if z >= y:
                        raises[z] = new
                r = new
            if change and change[0] == k and change[1] == 'no rule':
                p.raise_rate_callable = None
                for z in span:
                    if z >= y:
                        raises[z] = 0
                r = 0
            if change and change[0] == k and change[1] == 'retire':
                p.retirement_date = datetime(y, 1, 1)
                last = y
            seen.append(r)
            x = g[-1] * (1 + r) if y <= last else 0
            x = inputs.get('gross_income', {}).get(y, x)
            if change and change[0] == k and change[1] == 'gross_income':
                x = ctx.real('new', 0, AMT)
                p.gross_income = x
            g.append(x)
            net.append(inputs.get('net_income', {}).get(
                y, x * (1 - rates[y])))
        for what in (reads or 'gn'):
            if what == 'g':
                ctx.check(ctx.eq(p.gross_income, g[k]), 'gross income')
            elif what == 'n':
                ctx.check(ctx.eq(p.net_income, net[k]), 'net income')
            elif what == 'r':
                ctx.check(ctx.eq(p.raise_rate, seen[k]), 'raise')
            elif what == 't':
                ctx.check(ctx.eq(p.taxable_income, g[k]), 'taxable income')
                ctx.check(ctx.eq(p.tax_withheld, g[k] * rates[y]),
                          'tax withheld')
    for what, want in (('gross_income', g), ('net_income', net),
                       ('raise_rate', seen)):
        h = getattr(p, what + '_history')
        ctx.check(set(h) == {YEAR + k for k in range(years + 1)} | set(
            inputs.get(what, {})), 'history has every year')
        for k in range(years + 1):
            ctx.check(ctx.eq(h[YEAR + k], want[k]), 'history')
    ctx.check(inputs == copy, 'inputs are not modified')
    ctx.check(set(asked) <= set(span), 'taxed in the right years')


def untaxed(ctx):
    """Without a tax treatment net income is gross income."""
    g = ctx.real('g', 0, AMT)
    p = person(gross_income=g, raise_rate=ctx.real('r', 0, 1))
    for _ in range(3):
        ctx.check(ctx.eq(p.net_income, p.gross_income), 'net is gross')
        p.next_year()
    # nor is anything earned, or raised, by those not said to
    q = Person(YEAR, 'Q', datetime(1980, 1, 1),
               retirement_date=datetime(2040, 1, 1), tax_treatment=lambda
               x, y: 0 * x)
    s = Person(YEAR, 'S', datetime(1980, 1, 1), gross_income=g,
               retirement_date=datetime(2040, 1, 1))
    for _ in range(3):
        ctx.check(ctx.eq(q.gross_income, 0), 'no income')
        ctx.check(ctx.eq(q.net_income, 0), 'no net income')
        ctx.check(ctx.eq(s.gross_income, g), 'no raise')
        q.next_year()
        s.next_year()


def age(ctx):
    """Age on any day."""
    born = dates.date(ctx, 'born')
    day = dates.date(ctx, 'day')
    ctx.assume(born.year <= day.year)
    p = Person(YEAR, 'P', datetime(1900, 1, 1),
               retirement_date=datetime(2100, 1, 1))
    p._retirement_date = datetime(2300, 1, 1)
    p.birth_date = born
    leapling = ctx.And(born.month == 2, born.day == 29)
    # the birthday of a leapling in other years is a matter of taste
    ctx.assume(ctx.Not(ctx.And(leapling, day.month == 2, day.day == 28)))
    got = p.age(day)
    years = day.year - born.year
    before = ctx.Or(day.month < born.month,
                    ctx.And(day.month == born.month, day.day < born.day))
    ctx.check(ctx.eq(got, years - ctx.ite(before, 1, 0)), 'age')


def age_year(ctx, born, year):
    """The age on the birthday of a year."""
    p = Person(YEAR, 'P', born, retirement_date=datetime(2100, 1, 1))
    ctx.check(p.age(year) == year - p.birth_date.year, 'age in a year')
    ctx.check(p.age(str(year)) == year - p.birth_date.year, 'age in a year')


def retirement(ctx):
    """Retirement age and date agree; retiring before birth is refused."""
    born = dates.date(ctx, 'born', 1900, 2050)
    n = ctx.int('n', 0, 120)
    p = Person(YEAR, 'P', datetime(1900, 1, 1),
               retirement_date=datetime(2100, 1, 1))
    p._retirement_date = datetime(2300, 1, 1)
    p.birth_date = born
    p.retirement_age = n
    d = p.retirement_date
    ctx.check(ctx.eq(d.year, born.year + n), 'retirement year')
    ctx.check(ctx.eq(d.month, born.month), 'retirement month')
    ctx.check(ctx.eq(p.age(d), n), 'age at retirement')
    leapling = ctx.And(born.month == 2, born.day == 29)
    ctx.check(ctx.Or(leapling, ctx.eq(p.retirement_age, n)),
              'retirement age')
    other = dates.date(ctx, 'other', 1900, 2050)
    early = other < born
    bad = ctx.raises(ValueError, setattr, p, 'retirement_date', other)
    ctx.check(ctx.Iff(bad, early), 'cannot retire before birth')
    now = p.retirement_date
    ctx.check(now is d if bad else now is other, 'date kept or set')


def reborn(ctx, born):
    """The age at retirement follows the dates as they are now."""
    p = Person(YEAR, 'P', born, retirement_date='2040-03-01')
    ctx.check(p.retirement_age == 59, 'age at retirement')
    later = dates.date(ctx, 'later', 1900, 2040)
    d = p.retirement_date
    ctx.assume(later <= d)
    p.birth_date = later
    before = ctx.Or(d.month < later.month, ctx.And(
        d.month == later.month, d.day < later.day))
    want = d.year - later.year - ctx.ite(before, 1, 0)
    ctx.check(ctx.eq(p.retirement_age, want),
              'age at retirement follows the date of birth')
    ctx.check(ctx.eq(p.age(d), want), 'age follows the date of birth')
    p.retirement_date = '2050-09-30'
    before = later.month > 9
    want = 2050 - later.year - ctx.ite(before, 1, 0)
    ctx.check(ctx.eq(p.retirement_age, want),
              'age at retirement follows the date of retirement')


def compared(ctx):
    """People compare by their gross income."""
    a = person(gross_income=ctx.real('a', 0, AMT))
    b = person(gross_income=ctx.real('b', 0, AMT))
    ctx.check(ctx.Iff(a > b, a.gross_income > b.gross_income), 'greater')
    ctx.check(ctx.Iff(a < b, a.gross_income < b.gross_income), 'smaller')
    ctx.check(ctx.ge(max(a, b).gross_income, a.gross_income), 'most')
    ctx.check(ctx.ge(max(a, b).gross_income, b.gross_income), 'most')


def tasks(tier):
    t = []
    n = 5 if tier == 'thorough' else 4
    for retire in (-1, 0, 2, 5):
        for kind in ('number', 'dict', 'callable', 'none'):
            t.append((income, dict(years=n, retire=retire, kind=kind)))
    for kind in ('number', 'dict', 'callable'):
        t.append((income, dict(years=n, retire=None, kind=kind)))
    for reads in ('ng', 'r', 'n', 't', 'tgnr', 'rt'):
        t.append((income, dict(years=n, retire=2, kind='dict',
                               reads=reads)))
    for given in ([('gross_income', 1)], [('gross_income', 3)],
                  [('raise_rate', 2)], [('net_income', 1)],
                  [('gross_income', 1), ('raise_rate', 2),
                   ('net_income', 3)]):
        for reads in ('gn', 'n'):
            t.append((income, dict(years=n, retire=2, kind='callable',
                                   given=given, reads=reads)))
    for change in ('raise_rate', 'rule', 'no rule', 'retire', 'gross_income'):
        for k in (1, 2):
            t.append((income, dict(years=n, retire=3, kind='dict',
                                   change=[k, change])))
    t.append((untaxed, {}))
    t.append((age, {}))
    for born in ('1980-02-29', 1975, '2000-12-31'):
        for year in (2000, 2011, 2024):
            t.append((age_year, dict(born=born, year=year)))
    t.append((retirement, {}))
    for born in ('1980-06-15', '1980-12-31'):
        t.append((reborn, dict(born=born)))
    t.append((compared, {}))
    return t
