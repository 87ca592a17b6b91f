"""C17: recorded values of past years hold still; inputs win."""
from datetime import datetime
from forecaster.ledger import Ledger, recorded_property, recorded_property_cached
from forecaster.accounts import Account
from forecaster.person import Person
from harness.common import person, YEAR

BOUNDS = ('ledgers with plain, cached, custom-setter and carried-forward '
          'recorded properties, two instances side by side, and real '
          'accounts and people; 2 or 3 years with every sequence of up to 3 '
          'operations per year out of {change state, read, read history, '
          'set, delete, clear cache}; symbolic values throughout; symbolic '
          'inputs for any of the years after the first.')
ASSUMPTIONS = ['exact real arithmetic']
AMT = 1000


class Record(Ledger):
    """A ledger whose properties are computed from `source`."""

    def __init__(self, source, **kw):
        super().__init__(YEAR, **kw)
        self.source = source
        self.counted = 0
        self.total = 0

    @recorded_property
    def live(self):
        """ Follows `source` until the year ends. """
        return self.source * 2

    @recorded_property_cached
    def kept(self):
        """ Computed once a year. """
        self.counted += 1
        return self.source * 3

    @recorded_property_cached
    def total(self):
        """ Carried forward from the year before. """
        return self._total_history[self.this_year - 1] + self.live

    @recorded_property
    def custom(self):
        """ Has its own setter. """
        return self.source + 7

    @custom.setter
    def custom(self, val):
        """ Changes the state behind it. """
        self.source = val


class Derived(Record):
    """ Overrides one property. """

    @recorded_property
    def live(self):
        """ Overridden. """
        return self.source * 5


MUL = {'live': 2, 'kept': 3}


class Model:
    """What should be reported for one property of one ledger."""

    def __init__(self, name, mul, given):
        self.name, self.mul, self.given = name, mul, given
        self.past = {}
        self.stored = None
        self.cached = name == 'kept'

    def value(self, year, source):
        if year in self.given:
            return self.given[year]
        if self.stored is not None:
            return self.stored
        v = source * self.mul
        if self.cached:
            self.stored = v
        return v

    def end(self, year, source):
        self.past[year] = self.value(year, source)
        self.stored = None


OPS = ('source', 'read', 'history', 'set', 'del', 'clear')


def sequence(ctx, name, years, ops, mask=0, derived=False):
    """Every sequence of operations on one property."""
    given = {y: ctx.real('input%d' % y, -AMT, AMT)
             for y in range(YEAR + 1, YEAR + years + 1)
             if mask & (1 << (y - YEAR - 1))}
    inputs = {name: dict(given)} if mask else None
    passed = inputs[name] if mask else {}
    src = ctx.real('source', -AMT, AMT)
    led = (Derived if derived else Record)(src, inputs=inputs)
    twin = (Derived if derived else Record)(src)
    mul = 5 if derived and name == 'live' else MUL[name]
    m = Model(name, mul, given)
    for y in range(YEAR, YEAR + years):
        for k in range(ops):
            op = ctx.pick('op%d_%d' % (y - YEAR, k), OPS)
            if op == 'source':
                src = ctx.real('s%d_%d' % (y - YEAR, k), -AMT, AMT)
                led.source = src
            elif op == 'read':
                ctx.check(ctx.eq(getattr(led, name), m.value(y, src)),
                          'value read')
            elif op == 'history':
                h = getattr(led, name + '_history')
                ctx.check(ctx.eq(h[y], m.value(y, src)), 'this year')
                for z, v in m.past.items():
                    ctx.check(ctx.eq(h[z], v), 'past values hold still')
            elif op == 'set':
                v = ctx.real('v%d_%d' % (y - YEAR, k), -AMT, AMT)
                setattr(led, name, v)
                if y not in given:
                    m.stored = v
            elif op == 'del':
                delattr(led, name)
                if y not in given:
                    m.stored = None
            else:
                led.clear_cache()
                if m.cached and y not in given:
                    m.stored = None
        led.total = 0
        led.next_year()
        m.end(y, src)
        ctx.check(led.this_year == y + 1, 'next year')
        h = getattr(led, name + '_history')
        ctx.check(ctx.eq(h[y + 1], m.value(y + 1, src)), 'new year')
        for z in range(YEAR, y + 1):
            ctx.check(z in h, 'history covers every past year')
            ctx.check(ctx.eq(h[z], m.past[z]), 'past values hold still')
    ctx.check(set(passed) == set(given), 'no inputs added or removed')
    ctx.check(ctx.And(*(ctx.eq(passed[z], v) for z, v in given.items())),
              'inputs not modified')
    ctx.check(ctx.eq(getattr(twin, name), mul * twin.source),
              'other ledgers not affected')
    ctx.check(set(getattr(twin, name + '_history')) == {YEAR},
              'other ledgers have their own history')


def custom(ctx, years, mask):
    """A property with its own setter reports what the setter makes of it."""
    given = {y: ctx.real('input%d' % y, -AMT, AMT)
             for y in range(YEAR + 1, YEAR + years)
             if mask & (1 << (y - YEAR - 1))}
    led = Record(ctx.real('source', -AMT, AMT), inputs={'custom': given})
    want = {}
    for y in range(YEAR, YEAR + years):
        v = ctx.real('v%d' % y, -AMT, AMT)
        before = led.source
        led.custom = v
        if y in given:
            ctx.check(ctx.eq(led.custom, given[y]), 'input wins')
            ctx.check(ctx.eq(led.source, before), 'setter not run')
            want[y] = given[y]
        else:
            ctx.check(ctx.eq(led.custom, v + 7), 'value after setting')
            want[y] = v + 7
        led.total = 0
        led.next_year()
        for z in want:
            ctx.check(ctx.eq(led.custom_history[z], want[z]),
                      'past values hold still')


def once(ctx, years, reads):
    """Cached values are worked out at most once a year."""
    led = Record(ctx.real('source', -AMT, AMT))
    for y in range(YEAR, YEAR + years):
        first = led.kept
        for i in range(reads):
            led.source = ctx.real('s%d_%d' % (y, i), -AMT, AMT)
            ctx.check(ctx.eq(led.kept, first), 'kept for the year')
            ctx.check(ctx.eq(led.kept_history[y], first), 'same in history')
        led.total = 0
        led.next_year()
        ctx.check(led.counted == y - YEAR + 1, 'worked out once a year')
        ctx.check(ctx.eq(led.kept_history[y], first), 'recorded')


def carried(ctx, years, mask, look):
    """Values that build on the year before use what was recorded there."""
    given = {y: ctx.real('input%d' % y, -AMT, AMT)
             for y in range(YEAR + 1, YEAR + years + 1)
             if mask & (1 << (y - YEAR - 1))}
    led = Record(ctx.real('source', -AMT, AMT), inputs={'total': dict(given)})
    start = ctx.real('start', -AMT, AMT)
    led.total = start
    want = {YEAR: start}
    for y in range(YEAR, YEAR + years):
        if look & 1:
            ctx.check(ctx.eq(led.total, want[y]), 'carried forward')
        led.source = ctx.real('s%d' % y, -AMT, AMT)
        if look & 2:
            ctx.check(ctx.eq(led.total_history[y], want[y]), 'this year')
        led.next_year()
        # The next year's value is worked out from next year's state:
        led.source = ctx.real('n%d' % y, -AMT, AMT)
        want[y + 1] = given.get(y + 1, want[y] + led.source * 2)
        ctx.check(ctx.eq(led.total, want[y + 1]), 'carried forward')
        for z in want:
            ctx.check(ctx.eq(led.total_history[z], want[z]),
                      'past values hold still')


def account(ctx, years, mask, clear=False):
    """Inputs for an account's balance and rate in later years are used."""
    names = ('balance', 'rate', 'taxable_income')
    given = {}
    for i, n in enumerate(names):
        lo, hi = (-.5, 1) if n == 'rate' else (0, AMT)
        given[n] = {y: ctx.real('%s%d' % (n, y), lo, hi)
                    for y in range(YEAR + 1, YEAR + years + 1)
                    if mask & (1 << i) and (mask & 8 or y == YEAR + 1)}
    rates = {y: ctx.real('r%d' % y, -.5, 1)
             for y in range(YEAR, YEAR + years + 1)}
    bal = ctx.real('balance', 0, AMT)
    a = Account(person(), balance=bal, rate=rates, nper=1,
                inputs={k: dict(v) for k, v in given.items()})
    want = {'balance': {YEAR: bal}, 'rate': {YEAR: rates[YEAR]},
            'taxable_income': {}}
    for y in range(YEAR, YEAR + years):
        v = ctx.real('v%d' % y, 0, AMT)
        a.add_transaction(v, 0)
        b, r = want['balance'][y], want['rate'][y]
        want['taxable_income'][y] = given['taxable_income'].get(
            y, ctx.max((b + v) * r, 0))
        a.next_year()
        a.balance = ctx.real('ignored%d' % y, 0, AMT) if (
            y + 1 in given['balance']) else a.balance
        want['balance'][y + 1] = given['balance'].get(
            y + 1, (b + v) * (1 + r))
        want['rate'][y + 1] = given['rate'].get(y + 1, rates[y + 1])
        if clear:
            a.clear_cache()
        ctx.check(ctx.eq(a.balance, want['balance'][y + 1]), 'balance')
        ctx.check(ctx.eq(a.rate, want['rate'][y + 1]), 'rate')
    for n in names:
        h = getattr(a, n + '_history')
        for z in want[n]:
            ctx.check(ctx.eq(h[z], want[n][z]), n + ' history')
        ctx.check(set(range(YEAR, YEAR + years + 1)) <= set(h),
                  'history covers every year')


def earner(ctx, years, mask, retire):
    """The same for a person's income."""
    given = {y: ctx.real('g%d' % y, 0, AMT)
             for y in range(YEAR + 1, YEAR + years + 1)
             if mask & (1 << (y - YEAR - 1))}
    net = {y: ctx.real('n%d' % y, 0, AMT)
           for y in range(YEAR + 1, YEAR + years + 1)
           if mask & (1 << (y - YEAR - 1)) and mask & 8}
    raises = {y: ctx.real('raise%d' % y, -.5, 1)
              for y in range(YEAR, YEAR + years + 1)}
    inc = ctx.real('income', 0, AMT)
    p = Person(YEAR, 'P', datetime(1960, 5, 1),
               retirement_date=datetime(YEAR + retire, 6, 30),
               gross_income=inc, raise_rate=raises,
               inputs={'gross_income': dict(given), 'net_income': dict(net)})
    want, nets = {YEAR: inc}, {YEAR: inc}
    for y in range(YEAR, YEAR + years):
        p.next_year()
        computed = want[y] * (1 + raises[y + 1])
        if y + 1 > YEAR + retire:
            computed = 0
        want[y + 1] = given.get(y + 1, computed)
        nets[y + 1] = net.get(y + 1, want[y + 1])
        ctx.check(ctx.eq(p.gross_income, want[y + 1]), 'income')
        ctx.check(ctx.eq(p.net_income, nets[y + 1]), 'net income')
    for z in want:
        ctx.check(ctx.eq(p.gross_income_history[z], want[z]),
                  'income history')
        ctx.check(ctx.eq(p.net_income_history[z], nets[z]), 'net history')


def tasks(tier):
    full = tier == 'thorough'
    t = []
    for n in ('live', 'kept'):
        t += [(sequence, dict(name=n, years=2, ops=2)),
              (sequence, dict(name=n, years=2, ops=2, mask=1)),
              (sequence, dict(name=n, years=1, ops=3)),
              (sequence, dict(name=n, years=3, ops=1)),
              (sequence, dict(name=n, years=3, ops=1, mask=2)),
              (sequence, dict(name=n, years=2, ops=1, mask=3, derived=True))]
    t += [(custom, dict(years=3, mask=m)) for m in range(4)]
    t += [(once, dict(years=3, reads=2))]
    t += [(carried, dict(years=2, mask=m, look=k))
          for m in range(4) for k in range(4)]
    t += [(account, dict(years=2, mask=m, clear=c))
          for m in (0, 1, 2, 7, 9, 15) for c in (False, True)]
    t += [(earner, dict(years=3, mask=m, retire=r))
          for m in (0, 1, 10, 15) for r in (0, 1, 5)]
    if full:
        for n in ('live', 'kept'):
            t += [(sequence, dict(name=n, years=2, ops=3, mask=m))
                  for m in (0, 1)]
            t += [(sequence, dict(name=n, years=3, ops=2, mask=m))
                  for m in (0, 2)]
            t += [(sequence, dict(name=n, years=1, ops=4))]
        t += [(carried, dict(years=3, mask=m, look=k))
              for m in range(8) for k in range(4)]
        t += [(account, dict(years=3, mask=m)) for m in range(16)]
    return t
