"""A number type that, like Decimal, refuses to mix with float."""
import math
from fractions import Fraction


class Hi:
    """Wraps a number (symbolic or not); only mixes with itself and int."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _other(self, o):
        if isinstance(o, Hi):
            return o.v
        if isinstance(o, bool) or not isinstance(o, int):
            raise TypeError('mixing Hi and %s' % type(o).__name__)
        return o

    def __add__(self, o):
        return Hi(self.v + self._other(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Hi(self.v - self._other(o))

    def __rsub__(self, o):
        return Hi(self._other(o) - self.v)

    def __mul__(self, o):
        return Hi(self.v * self._other(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Hi(self.v / self._other(o))

    def __rtruediv__(self, o):
        return Hi(self._other(o) / self.v)

    def __floordiv__(self, o):
        return Hi(self.v // self._other(o))

    def __mod__(self, o):
        return Hi(self.v % self._other(o))

    def __pow__(self, o):
        return Hi(self.v ** self._other(o))

    def __rpow__(self, o):
        return Hi(self._other(o) ** self.v)

    def __neg__(self):
        return Hi(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return Hi(abs(self.v))

    def __lt__(self, o):
        return self.v < plain(o)

    def __le__(self, o):
        return self.v <= plain(o)

    def __gt__(self, o):
        return self.v > plain(o)

    def __ge__(self, o):
        return self.v >= plain(o)

    def __eq__(self, o):
        if o is None:
            return False
        return self.v == plain(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return bool(self.v)

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    def __round__(self, n=None):
        return Hi(round(self.v, n)) if n is not None else round(self.v)

    def __repr__(self):
        return 'Hi(%r)' % (self.v,)


def hi(x):
    """The converter: what a user passes as `high_precision`."""
    if isinstance(x, str):
        return Hi(Fraction(x))
    if isinstance(x, float) and not math.isinf(x):
        return Hi(Fraction(str(x)))
    return x if isinstance(x, Hi) else Hi(x)


def plain(x):
    return x.v if isinstance(x, Hi) else x


def mixed(x):
    """Neither of the type nor an exact integer (or infinity)."""
    if isinstance(x, Hi) or isinstance(x, int):
        return False
    return not (isinstance(x, float) and math.isinf(x))
