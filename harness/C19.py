"""C19: asset allocation stays within bounds and drives returns."""
from types import SimpleNamespace
from datetime import datetime
from forecaster.person import Person
from forecaster.accounts import Account
from forecaster.scenario import Scenario
from forecaster.strategy import AllocationStrategy
from forecaster.strategy.allocation import AssetAllocation
from forecaster.strategy.base import strategy_method
from harness.common import YEAR

BOUNDS = ('both strategies (and a custom one with three asset classes) with '
          'symbolic targets, equity bounds, ages and retirement ages '
          '(0 to 120), standard retirement ages 60 to 65 and transition '
          'periods of 1 to 30 years; symbolic returns of all asset classes '
          'over up to 3 years; settings, returns and the retirement date '
          'changed between two uses.')
ASSUMPTIONS = ['exact real arithmetic',
               'equity bounds between 0 and 1, minimum not above maximum']


def make(ctx, strategy, target=(0, 150), adjust=True, standard=65, period=20,
         cls=AllocationStrategy):
    lo, hi = ctx.real('min', 0, 1), ctx.real('max', 0, 1)
    ctx.assume(lo <= hi)
    n = ctx.real('target', *target)
    s = cls(strategy, n, min_equity=lo, max_equity=hi,
            standard_retirement_age=standard, risk_transition_period=period,
            adjust_for_retirement_plan=adjust)
    return s, n, lo, hi


def clamp(ctx, x, lo, hi):
    return ctx.min(ctx.max(x, lo), hi)


def equity(ctx, strategy, n, lo, hi, age, retire, adjust, standard, period):
    """The share of equity the documentation asks for."""
    if strategy == 'n-age':
        shift = (standard - retire) if adjust else 0
        return clamp(ctx, (n - age - shift) / 100, lo, hi)
    if not adjust:
        retire = standard
    left = clamp(ctx, (retire - age) / period, 0, 1)
    return clamp(ctx, ctx.ite(left <= 0, ctx.max(lo, n),
                              n + (hi - n) * left), lo, hi)


def sane(ctx, a, lo, hi):
    ctx.check(ctx.eq(a.stocks + a.bonds + a.other, 1), 'adds up to one')
    ctx.check(ctx.And(ctx.ge(a.stocks, lo), ctx.le(a.stocks, hi)),
              'equity within bounds')
    ctx.check(ctx.And(ctx.ge(a.bonds, 0), ctx.ge(a.other, 0)),
              'nothing negative')


def mix(ctx, strategy, adjust, standard=65, period=20, sort='int'):
    """The allocation at any age."""
    s, n, lo, hi = make(ctx, strategy, (0, 150) if strategy == 'n-age'
                        else (0, 1), adjust, standard, period)
    mk = ctx.int if sort == 'int' else ctx.real
    age, retire = mk('age', 0, 120), mk('retire', 0, 120)
    a = s(age=age, retirement_age=retire)
    sane(ctx, a, lo, hi)
    want = equity(ctx, strategy, n, lo, hi, age, retire, adjust, standard,
                  period)
    ctx.check(ctx.eq(a.stocks, want), 'share of equity')
    b = s(age=age, retirement_age=retire)
    ctx.check(ctx.eq(a.stocks, b.stocks), 'same answer again')


def older(ctx, strategy, adjust):
    """Growing older (or retiring earlier) never means more equity."""
    s, n, lo, hi = make(ctx, strategy, (0, 150) if strategy == 'n-age'
                        else (0, 1), adjust)
    if strategy != 'n-age':
        ctx.assume(n <= hi)
    age, later = ctx.int('age', 0, 120), ctx.int('later', 0, 120)
    retire, sooner = ctx.int('retire', 0, 120), ctx.int('sooner', 0, 120)
    ctx.assume(age <= later)
    ctx.assume(sooner <= retire)
    a = s(age=age, retirement_age=retire)
    b = s(age=later, retirement_age=retire)
    ctx.check(ctx.le(b.stocks, a.stocks), 'no more equity when older')
    c = s(age=age, retirement_age=sooner)
    ctx.check(ctx.le(c.stocks, a.stocks),
              'no more equity when retiring sooner')
    if not adjust:
        ctx.check(ctx.eq(c.stocks, a.stocks), 'retirement plan ignored')


def custom(ctx):
    """Three asset classes: bounds hold, the others keep their proportions."""
    w = [ctx.real('w%d' % i, 0, 1) for i in range(2)]
    ctx.assume(w[0] + w[1] <= 1)
    given = AssetAllocation(1 - w[0] - w[1], w[0], w[1])

    class Custom(AllocationStrategy):
        """ Any allocation. """
        @strategy_method('custom')
        def _custom(self, *args, **kwargs):
            return given
    s, n, lo, hi = make(ctx, 'custom', cls=Custom)
    a = s(age=50, retirement_age=65)
    sane(ctx, a, lo, hi)
    ctx.check(ctx.eq(a.stocks, clamp(ctx, given.stocks, lo, hi)),
              'share of equity')
    ctx.check(ctx.Or(ctx.And(w[0] == 0, w[1] == 0),
                     ctx.eq(a.bonds * w[1], a.other * w[0])),
              'others keep their proportions')


def invalid(ctx, given='both'):
    """Contradictory bounds are refused."""
    lo, hi = ctx.real('min', 0, 2), ctx.real('max', -1, 1)
    kw = dict(min_equity=lo, max_equity=hi)
    if given == 'min':
        del kw['max_equity']
        hi = 1
    elif given == 'max':
        del kw['min_equity']
        lo = 0
    r = ctx.raises(ValueError, AllocationStrategy, 'n-age', 100, **kw)
    if lo > hi:
        ctx.check(r, 'minimum above maximum is refused')
    else:
        ctx.check(not r, 'other bounds are accepted')


def returns(ctx, strategy, years, birth, via='call', month=6):
    """Accounts earn the return of the mix for that year and that age."""
    s, n, lo, hi = make(ctx, strategy, (0, 150) if strategy == 'n-age'
                        else (0, 1))
    r = {k: {y: ctx.real('%s%d' % (k, y), -.5, 1)
             for y in range(YEAR, YEAR + years)}
         for k in ('stock', 'bond', 'other')}
    sc = Scenario(YEAR, years, inflation=0, stock_return=r['stock'],
                  bond_return=r['bond'], other_return=r['other'],
                  management_fees=0)
    born = datetime(birth, month, 15)
    p = Person(YEAR, 'P', born, retirement_date=datetime(birth + 65, month, 20),
               raise_rate=0)
    f = s.rate_function(p, sc)
    want = {}
    for y in r['stock']:
        e = equity(ctx, strategy, n, lo, hi, y - birth, 65, True, 65, 20)
        want[y] = e * r['stock'][y] + (1 - e) * r['bond'][y]
    if via == 'call':
        for y in want:
            v = f(y)
            ctx.check(ctx.eq(v, want[y]), 'rate of return')
            ctx.check(ctx.And(
                ctx.le(v, ctx.max(r['stock'][y], r['bond'][y])),
                ctx.ge(v, ctx.min(r['stock'][y], r['bond'][y]))),
                'between the returns of the classes')
    else:
        a = Account(p, balance=1, rate=f, nper=1)
        for y in want:
            ctx.check(ctx.eq(a.rate, want[y]), 'rate of an account')
            if y + 1 in want:
                a.next_year()
        for y in want:
            ctx.check(ctx.eq(a.rate_history[y], want[y]), 'rates on record')


def changed(ctx, strategy, what):
    """Settings and plans which change count from then on."""
    s, n, lo, hi = make(ctx, strategy, (0, 150) if strategy == 'n-age'
                        else (0, 1))
    stock, bond = ctx.real('stock', -.5, 1), ctx.real('bond', -.5, 1)
    sc = Scenario(YEAR, 2, inflation=0, stock_return=stock, bond_return=bond,
                  other_return=0, management_fees=0)
    p = Person(YEAR, 'P', datetime(1955, 6, 15),
               retirement_date=datetime(2020, 6, 20), raise_rate=0)
    f = s.rate_function(p, sc)
    retire = 65

    def judge():
        for y in (YEAR, YEAR + 1):
            e = equity(ctx, strategy, n, lo, hi, y - 1955, retire, True, 65,
                       20)
            a = s(age=y - 1955, retirement_age=retire)
            ctx.check(ctx.eq(a.stocks, e), 'share of equity')
            ctx.check(ctx.eq(f(y), e * stock + (1 - e) * bond),
                      'rate of return')
    judge()
    if what == 'target':
        n = s.target = ctx.real('new', 0, 1) * (
            100 if strategy == 'n-age' else 1)
    elif what == 'min':
        lo = s.min_equity = ctx.real('new', 0, 1)
        ctx.assume(lo <= hi)
    elif what == 'max':
        hi = s.max_equity = ctx.real('new', 0, 1)
        ctx.assume(lo <= hi)
    elif what == 'plan':
        p.retirement_date = datetime(2024, 6, 20)
        retire = 69
    else:
        stock = ctx.real('new', -.5, 1)
        sc.stock_return = {YEAR: stock, YEAR + 1: stock}
    judge()


def weights(ctx):
    """Weights which do not add up to one are weighted averages still."""
    w = [ctx.real('w%d' % i, 0.01, 2) for i in range(3)]
    r = [ctx.real('r%d' % i, -.5, 1) for i in range(3)]
    from forecaster.strategy.allocation import RateFunction
    sc = SimpleNamespace(stock_return={YEAR: r[0]}, bond_return={YEAR: r[1]},
                         other_return={YEAR: r[2]})
    seen = []

    def strategy(age, retirement_age):
        seen.append((age, retirement_age))
        return AssetAllocation(*w)
    p = Person(YEAR, 'P', datetime(1950, 6, 15), retirement_date=2012,
               raise_rate=0)
    v = RateFunction(sc, p, strategy)(YEAR)
    ctx.check(ctx.eq(v * (w[0] + w[1] + w[2]), ctx.sum(
        a * b for a, b in zip(w, r))), 'weighted average')
    ctx.check(seen == [(60, 62)], "the person's age and retirement age")


def tasks(tier):
    full = tier == 'thorough'
    T = 'Transition to constant'
    t = []
    for s in ('n-age', T):
        for adj in (True, False):
            t += [(mix, dict(strategy=s, adjust=adj)),
                  (mix, dict(strategy=s, adjust=adj, standard=60, period=7,
                             sort='real')),
                  (older, dict(strategy=s, adjust=adj))]
        t += [(returns, dict(strategy=s, years=2, birth=b, via=v))
              for b in (1990, 1960, 1940) for v in ('call', 'account')]
    for s in ('n-age', T):
        t += [(changed, dict(strategy=s, what=w))
              for w in ('target', 'min', 'max', 'plan', 'return')]
    t += [(custom, {}), (invalid, {}), (invalid, dict(given='min')),
          (invalid, dict(given='max')), (weights, {})]
    if full:
        for s in ('n-age', T):
            t += [(mix, dict(strategy=s, adjust=a, standard=st, period=p))
                  for a in (True, False) for st in (60, 65)
                  for p in (1, 10, 30)]
            t += [(returns, dict(strategy=s, years=3, birth=b, via='account'))
                  for b in (1990, 1960, 1955, 1946, 1945)]
    return t
