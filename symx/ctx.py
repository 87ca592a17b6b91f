"""The interface harnesses are written against, and its concrete version.

A harness is an ordinary function `h(ctx, **config)`.  It asks `ctx` for
inputs, drives the real code, and states obligations with `ctx.check`.  The
same function runs symbolically (symx.sym.SymCtx) and concretely
(ConcreteCtx, used to replay counterexamples on the unmodified code).
"""
import builtins
import math
from decimal import Decimal
from fractions import Fraction

INF = float('inf')
TOL = 1e-5


class AssumeFailed(BaseException):
    """The inputs are outside the harness's stated domain."""


class Stop(BaseException):
    """Concrete run: a check failed and the harness must stop."""


class BaseCtx:
    symbolic = False

    # --- logic that works for symbolic and concrete truth values
    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def raises(self, exc, fn, *args, **kwargs):
        """True iff the call raises `exc` (other exceptions propagate)."""
        try:
            fn(*args, **kwargs)
        except exc:
            return True
        return False


class ConcreteCtx(BaseCtx):
    """Runs a harness on concrete inputs."""

    def __init__(self, inputs, mode='float', default_hp=None):
        self.inputs = inputs
        self.mode = mode
        self.failures = []
        self.observed = []
        self.reached = {}
        self.counters = {}

    def _get(self, name, default):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        full = name if n == 0 else '%s#%d' % (name, n)
        return self.inputs.get(full, default)

    def num(self, x):
        if x is None or builtins.isinstance(x, bool):
            return x
        if type(x) is float and math.isinf(x):
            return x
        if self.mode == 'float':
            return float(x)
        return x if builtins.isinstance(x, Fraction) else Fraction(str(x))

    lift = num

    @property
    def hp(self):
        return self.num

    def decimal(self, x):
        return Decimal(x)

    def digits(self, name, places, lo, hi):
        n = builtins.int(self._get(name, lo * 10 ** places))
        return Decimal(n).scaleb(-places)

    def text(self, x):
        return str(x)

    def real(self, name, lo=None, hi=None):
        v = self._get(name, lo if lo is not None else 0)
        return self.num(v if builtins.isinstance(v, Fraction)
                        else Fraction(str(v)))

    def int(self, name, lo=None, hi=None):
        return builtins.int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return builtins.bool(self._get(name, False))

    def pick(self, name, options):
        options = list(options)
        i = builtins.int(self._get(name, 0))
        return options[i]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label, detail=''):
        self.reached[label] = self.reached.get(label, 0) + 1
        if not c:
            self.failures.append((label, str(detail)))

    def observe(self, name, value):
        self.observed.append((name, value))

    def eq(self, a, b, tol=TOL):
        if a is None or b is None:
            return a is b
        if type(a) is float and math.isinf(a) or (
                type(b) is float and math.isinf(b)):
            return a == b
        return abs(float(a) - float(b)) <= tol * 0.5

    def le(self, a, b, tol=TOL):
        return float(a) <= float(b) + tol * 0.5

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, *xs):
        return min(*xs) if len(xs) > 1 else min(xs[0])

    def max(self, *xs):
        return max(*xs) if len(xs) > 1 else max(xs[0])

    def abs(self, x):
        return abs(x)

    def pow(self, b, e):
        return b ** e

    def floor(self, x):
        return math.floor(x)
