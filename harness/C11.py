"""C11: TFSA contribution room."""
from types import SimpleNamespace
from forecaster.canada.accounts import TFSA
from harness.common import person, inflation

BOUNDS = ('1 to 3 linked accounts over 1 to 2 years with symbolic room, '
          'contributions and withdrawals at symbolic timings; contributors '
          'born 1940 to 2005; first years 2005 to 2022; the statutory table '
          'and an arbitrary symbolic table; symbolic inflation index; '
          'symbolic inputs for earlier, current and later years.')
ASSUMPTIONS = ['exact real arithmetic']
AMT = 100000
# Income Tax Act s. 207.01: the TFSA dollar limits the package ships with
LAW = {2009: 5000, 2010: 5000, 2011: 5000, 2012: 5000, 2013: 5500,
       2014: 5500, 2015: 10000, 2016: 5500, 2017: 5500}


def table(ctx, symbolic):
    if not symbolic:
        return None, dict(LAW)
    t = {y: ctx.real('limit%d' % y, 0, 20000) for y in LAW}
    return SimpleNamespace(TFSA_ANNUAL_ACCRUAL=t, TFSA_ELIGIBILITY_AGE=18,
                           TFSA_ACCRUAL_ROUNDING_FACTOR=500), t


def accrual(birth, law, year):
    if year - birth < 18 or year < min(law):
        return 0
    return law[year]


def infer(ctx, birth, first, symbolic):
    """Room that was never used adds up from the year of eligibility."""
    consts, law = table(ctx, symbolic)
    p = person(year=first, birth=birth)
    a = TFSA(p, balance=0, rate=0, constants=consts)
    ctx.check(ctx.eq(a.contribution_room, ctx.sum(
        accrual(birth, law, y) for y in range(2005, first + 1))),
        'room accrued since eligibility')
    ctx.check(ctx.eq(a.taxable_income, 0), 'not taxable')


def roll(ctx, first, birth, n, symbolic, years=1, lead=0, others=()):
    """Next year's room: what is left, what was taken out, the new limit."""
    consts, law = table(ctx, symbolic)
    p = person(year=first, birth=birth)
    # the account holders may be others than the contributor
    q = person(year=first, birth=1950, name='Q')
    room = ctx.real('room', 0, AMT)
    accts = [TFSA(q if i in others else p, contributor=p,
                  balance=ctx.real('balance%d' % i, 0, AMT), rate=0,
                  constants=consts,
                  **({'contribution_room': room} if i == 0 else {}))
             for i in range(n)]
    for y in range(first, first + years):
        for i, a in enumerate(accts):
            for j in range(2 if n == 1 else 1):
                v = ctx.real('v%d_%d_%d' % (i, j, y), -AMT, AMT)
                a.add_transaction(v, ctx.real('t%d_%d_%d' % (i, j, y), 0, 1))
                room = room - v
        room = room + accrual(birth, law, y + 1)
        accts[lead % n].next_year()
        for a in accts:
            ctx.check(ctx.eq(a.contribution_room, room), 'room rolls over')
            ctx.check(ctx.eq(a.max_inflow_limit, room), 'room is the limit')
            ctx.check(ctx.eq(a.taxable_income_history[y], 0), 'not taxable')


def later(ctx, first, years, birth=1980, mode='roll'):
    """After the last statutory amount, the base amount follows inflation,
    rounded to the nearest $500."""
    idx, adj = inflation(ctx, range(2009, first + years + 1), base=2009,
                         lo=0.8, hi=2)
    p = person(year=first, birth=birth)
    if mode == 'roll':
        room = ctx.real('room', 0, AMT)
        a = TFSA(p, balance=0, rate=0, inflation_adjust=adj,
                 contribution_room=room)
        todo = range(first + 1, first + years + 1)
        for _ in range(years):
            a.next_year()
    else:
        room = 0
        a = TFSA(p, balance=0, rate=0, inflation_adjust=adj)
        todo = range(2005, first + 1)
    right = wrong = room
    for y in todo:
        if y - birth < 18 or y < 2009:
            continue
        if y in LAW:
            right, wrong = right + LAW[y], wrong + LAW[y]
        else:
            right = right + 500 * round(ctx.lift(5000) * idx[y] / 500)
            wrong = wrong + 500 * round(ctx.lift(5000) / idx[y] / 500)
    ctx.check(ctx.Or(ctx.eq(a.contribution_room, right),
                     ctx.eq(a.contribution_room, wrong)),
              'later accrual is the rounded base amount')
    ctx.check(ctx.eq(a.contribution_room, right),
              'later accrual follows inflation')


def young(ctx, birth, first, years):
    """No room before the year the contributor turns 18."""
    p = person(year=first, birth=birth)
    owner = person(year=first, birth=1950)
    a = TFSA(owner, balance=0, rate=0, contributor=p)
    room = ctx.sum(accrual(birth, LAW, y) for y in range(2005, first + 1))
    ctx.check(ctx.eq(a.contribution_room, room), "contributor's age counts")
    for y in range(first, first + years):
        a.next_year()
        room = room + accrual(birth, LAW, y + 1)
        ctx.check(ctx.eq(a.contribution_room, room), 'accrues from age 18')


def given(ctx, first, which, explicit=False, order=1):
    """Inputs: the current year's, else the latest earlier year's plus what
    has accrued since, else the default; later years as they arrive."""
    birth = 1980
    vals = {first + d: ctx.real('in%d' % (first + d), 0, AMT)
            for d in (-2, -1, 0, 1, 2)[::order] if which & (1 << (d + 2))}
    p = person(year=first, birth=birth)
    kw = {}
    if explicit:
        kw['contribution_room'] = ctx.real('room', 0, AMT)
    a = TFSA(p, balance=0, rate=0,
             inputs={'contribution_room': dict(vals)}, **kw)
    past = [y for y in vals if y < first]
    if first in vals:
        room = vals[first]
    elif explicit:
        room = kw['contribution_room']
    elif past:
        room = vals[max(past)] + ctx.sum(
            accrual(birth, LAW, y) for y in range(max(past) + 1, first + 1))
    else:
        room = ctx.sum(accrual(birth, LAW, y)
                       for y in range(2005, first + 1))
    ctx.check(ctx.eq(a.contribution_room, room), 'initial room')
    for y in (first + 1, first + 2):
        v = ctx.real('v%d' % y, -AMT, AMT)
        a.add_transaction(v, ctx.real('t%d' % y, 0, 1))
        a.next_year()
        room = vals[y] if y in vals else room - v + accrual(birth, LAW, y)
        ctx.check(ctx.eq(a.contribution_room, room), 'next room')


def tasks(tier):
    t = []
    full = tier == 'thorough'
    for birth in ([1940, 1980, 1990, 1991, 1992, 1994, 1997, 2005] if not full
                  else range(1970, 2006)):
        for first in ([2009, 2012, 2017] if not full
                      else [2006, 2009, 2010, 2012, 2015, 2017]):
            t.append((infer, dict(birth=birth, first=first, symbolic=True)))
        t.append((infer, dict(birth=birth, first=2017, symbolic=False)))
    for n, lead in ((1, 0), (2, 0), (2, 1), (3, 1)):
        for sym in (False, True):
            t.append((roll, dict(first=2010, birth=1980, n=n, symbolic=sym,
                                 lead=lead)))
    t += [(roll, dict(first=2015, birth=1980, n=2, symbolic=True, years=2,
                      lead=1)),
          (roll, dict(first=2014, birth=1998, n=1, symbolic=True, years=2)),
          (roll, dict(first=2010, birth=1980, n=1, symbolic=True,
                      others=[0])),
          (roll, dict(first=2010, birth=1980, n=2, symbolic=False,
                      others=[0, 1])),
          (roll, dict(first=2014, birth=1980, n=2, symbolic=True, years=2,
                      others=[1])),
          (roll, dict(first=2010, birth=1980, n=3, symbolic=True, lead=2,
                      others=[0, 2])),
          (roll, dict(first=2009, birth=1991, n=2, symbolic=False, years=2))]
    t += [(later, dict(first=2016, years=2)), (later, dict(first=2017, years=1)),
          (later, dict(first=2018, years=1)),
          (later, dict(first=2018, years=0, mode='infer')),
          (later, dict(first=2019, years=0, mode='infer', birth=2001))]
    for birth, first, years in ((1996, 2012, 3), (2000, 2015, 2),
                                (1995, 2013, 1), (1993, 2009, 4)):
        t.append((young, dict(birth=birth, first=first, years=years)))
    for w in range(32):
        t.append((given, dict(first=2012, which=w)))
        if w & (w - 1):
            t.append((given, dict(first=2012, which=w, order=-1)))
    for w in (0, 3, 8, 31) if not full else range(32):
        t.append((given, dict(first=2012, which=w, explicit=True)))
    if full:
        t += [(roll, dict(first=f, birth=1994, n=3, symbolic=True, years=2,
                          lead=l)) for f in (2010, 2011, 2012)
              for l in range(3)]
        t += [(later, dict(first=2016, years=y)) for y in (3,)]
        t += [(later, dict(first=2019, years=0, mode='infer'))]
    return t
