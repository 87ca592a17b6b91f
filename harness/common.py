"""Helpers shared by harnesses (no solver, no proxies here)."""
from datetime import datetime
from forecaster.person import Person

YEAR = 2010


class Ordered(Person):
    """A person whose place in a set is known (sets of others are in the
    order of their addresses, so any order has to do)."""
    place = 0

    def __hash__(self):
        return self.place

    def __eq__(self, other):
        return self is other


def person(year=YEAR, birth=1980, retire=2040, name='Person', place=None,
           **kw):
    if place is not None:
        cls = type('Ordered%d' % place, (Ordered,), {'place': place})
    else:
        cls = Person
    return cls(
        initial_year=year, name=name,
        birth_date=datetime(birth, 6, 15),
        retirement_date=datetime(retire, 6, 15) if retire else None, **kw)


def growth(ctx, rate, nper, t):
    """A(t): the accumulation factor over time t (textbook definition)."""
    if nper is None:
        import math
        return ctx.pow(math.e, rate * t)
    return ctx.pow(1 + rate / nper, t * nper)


def times(ctx, n, prefix='t', lo=0, hi=1, distinct=False):
    ts = [ctx.real('%s%d' % (prefix, i), lo, hi) for i in range(n)]
    if distinct:
        for i in range(n - 1):
            ctx.assume(ts[i] < ts[i + 1])
    return ts


def inflation(ctx, years, base=None, lo=0.5, hi=3, prefix='idx'):
    """A symbolic price index and the inflation_adjust function built on it:
    adjust(target_year, base_year) turns base-year money into target-year
    money."""
    idx = {y: (1 if y == base else ctx.real('%s%d' % (prefix, y), lo, hi))
           for y in years}

    def adjust(target_year, base_year):
        if target_year == base_year:
            return 1
        return idx[target_year] / idx[base_year]
    return idx, adjust
