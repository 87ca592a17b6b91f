"""A datetime whose year, month and day may be symbolic."""
import calendar
import sys
from datetime import datetime, timedelta
try:
    from symx import core
    from symx.core import Unsupported
except ImportError:         # no solver: a concrete run
    core = None

MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def isleap(y):
    """Gregorian leap years."""
    if core is None or not isinstance(y, core.Sym):
        return calendar.isleap(y)
    r = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
    return bool(r)


def monthrange(y, m):
    """Only the length of the month is known."""
    if core is None or not (isinstance(y, core.Sym) or isinstance(m, core.Sym)):
        return calendar.monthrange(y, m)
    if m == 2:
        return (0, 29 if isleap(y) else 28)
    short = (m == 4) | (m == 6) | (m == 9) | (m == 11)
    return (0, 30 if short else 31)


class SymDelta:
    """Difference of two dates."""
    seconds = microseconds = 0

    def __init__(self, days):
        self.days = days

    def total_seconds(self):
        return self.days * 86400

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self.days / (o.total_seconds() / 86400)
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return (self.days * 86400) // int(o.total_seconds())
        return NotImplemented


class SymDate(datetime):
    """year-month-day at midnight."""

    def __new__(cls, y, m, d):
        o = datetime.__new__(cls, 2000, 1, 1)
        o._y, o._m, o._d = y, m, d
        return o

    year = property(lambda self: self._y)
    month = property(lambda self: self._m)
    day = property(lambda self: self._d)
    hour = minute = second = microsecond = 0

    def _key(self):
        return (self._y, self._m, self._d)

    def replace(self, year=None, month=None, day=None, **kw):
        if any(kw.values()):
            raise Unsupported('time of day')
        y = self._y if year is None else year
        m = self._m if month is None else month
        d = self._d if day is None else day
        if d > monthrange(y, m)[1]:
            raise ValueError('day is out of range for month')
        return SymDate(y, m, d)

    def toordinal(self):
        p = self._y - 1
        n = p * 365 + p // 4 - p // 100 + p // 400 + self._d
        for k in range(1, 12):
            if self._m > k:
                n = n + (monthrange(self._y, k)[1] if k == 2
                         else MONTHS[k - 1])
        return n

    def __add__(self, o):
        if isinstance(o, timedelta):
            if o:
                raise Unsupported('adding days')
            return self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, datetime):
            return SymDelta(self.toordinal() - as_sym(o).toordinal())
        if isinstance(o, timedelta):
            if o:
                raise Unsupported('subtracting days')
            return self
        return NotImplemented

    def __rsub__(self, o):
        return as_sym(o) - self

    def __eq__(self, o):
        return isinstance(o, datetime) and self._key() == as_sym(o)._key()

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._key() < as_sym(o)._key()

    def __le__(self, o):
        return self._key() <= as_sym(o)._key()

    def __gt__(self, o):
        return self._key() > as_sym(o)._key()

    def __ge__(self, o):
        return self._key() >= as_sym(o)._key()

    def __hash__(self):
        return 7

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def as_sym(o):
    if isinstance(o, SymDate):
        return o
    return SymDate(o.year, o.month, o.day)


def _refuse(name):
    def method(self, *a, **kw):
        raise Unsupported('datetime.%s of a symbolic date' % name)
    return method


for _n in dir(datetime):
    if _n not in SymDate.__dict__ and not _n.startswith('__') and callable(
            getattr(datetime, _n)) and _n not in ('min', 'max'):
        if _n not in ('resolution', 'fromisoformat', 'today', 'now',
                      'utcoffset', 'dst', 'tzname'):
            setattr(SymDate, _n, _refuse(_n))
for _n in ('__str__', '__repr__', '__format__', '__reduce__',
           '__reduce_ex__'):
    setattr(SymDate, _n, _refuse(_n))


class _Calendar:
    """Stands in for `calendar` inside dateutil.relativedelta."""
    monthrange = staticmethod(monthrange)
    isleap = staticmethod(isleap)


def install():
    """Makes dateutil.relativedelta work on symbolic dates."""
    import dateutil.relativedelta as rd
    from symx import sym
    mod = sys.modules['dateutil.relativedelta']
    mod.int = sym.IntShim
    mod.calendar = _Calendar
    mod._sign = lambda x: 1 if x >= 0 else -1
    return rd


def date(ctx, name, lo=1900, hi=2100):
    """Any valid day: symbolic, or a plain datetime in a concrete run."""
    y = ctx.int(name + '_y', lo, hi)
    m = ctx.int(name + '_m', 1, 12)
    d = ctx.int(name + '_d', 1, 31)
    if ctx.symbolic:
        install()
        ctx.assume(d <= monthrange(y, m)[1])
        return SymDate(y, m, d)
    ctx.assume(d <= calendar.monthrange(y, m)[1])
    return datetime(y, m, d)
