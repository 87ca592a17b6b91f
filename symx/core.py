"""Symbolic execution of ordinary Python code by re-execution.

Numbers are replaced by `Sym` proxies that build z3 terms; `bool()` of a
symbolic condition is a *decision*: the engine asks z3 which outcomes are
feasible under the path condition, follows one, and re-executes the program
for the other.  A program is explored completely when no decision has an
unexplored feasible outcome left.

Everything here runs the real code object by object: nothing about the code
under test is modelled apart from the primitives (`+ - * / ** < == int float
min max math.*`) that are listed in this file.
"""
import builtins
import math as _math
import time
from fractions import Fraction

import z3

INF = float('inf')


class EngineError(BaseException):
    """The machinery (not the code under test) could not continue."""


class Unsupported(EngineError):
    """The code did something the proxies cannot express."""


class PathAbort(BaseException):
    """The current path is infeasible or was assumed away."""


class LimitExceeded(EngineError):
    """A bound on paths/time was hit before the exploration was complete."""


ENGINE = None          # the engine of the current process


def _frac(x):
    """Exact rational for a concrete number (floats: their decimal meaning)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    try:
        return Fraction(str(x))
    except Exception:                       # Decimal etc. go through str
        raise Unsupported('cannot lift %r' % (x,))


def _z3real(fr):
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))


_CONCRETE = (int, float, Fraction)


def _is_num(x):
    if isinstance(x, (Sym, int, float, Fraction)):
        return True
    return type(x).__name__ == 'Decimal'


def _is_inf(x):
    return type(x) is float and (x == INF or x == -INF)


class SymBool:
    """A symbolic truth value.  bool() of it is a decision."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.decide(self.e)

    def __and__(self, o):
        return _mkbool(z3.And(self.e, _bexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return _mkbool(z3.Or(self.e, _bexpr(o)))
    __ror__ = __or__

    def __invert__(self):
        return _mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return _mkbool(self.e == _bexpr(o))

    def __ne__(self, o):
        return _mkbool(self.e != _bexpr(o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    # arithmetic on truth values (sum of conditions)
    def _num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__


def _bexpr(o):
    if isinstance(o, SymBool):
        return o.e
    return z3.BoolVal(builtins.bool(o))


def _mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


_HASH = 0x5E17          # every Sym hashes alike: equality decides (and forks)


class Sym:
    """A symbolic (or lifted constant) exact real or integer."""
    __slots__ = ('e', 'c', 'isint')

    def __init__(self, e, c=None, isint=None):
        self.e = e
        self.c = c
        self.isint = (e.sort() == z3.IntSort()) if isint is None else isint

    # ---- construction
    @staticmethod
    def const(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x._num()
        isint = isinstance(x, int)
        f = _frac(x)
        if isint:
            return Sym(z3.IntVal(int(f)), f, True)
        return Sym(_z3real(f), f, False)

    @staticmethod
    def _wrap(e):
        """Wraps a z3 term, folding constants."""
        if z3.is_rational_value(e):
            return Sym(e, Fraction(e.numerator_as_long(),
                                   e.denominator_as_long()), False)
        if z3.is_int_value(e):
            return Sym(e, Fraction(e.as_long()), True)
        return Sym(e)

    def real(self):
        return z3.ToReal(self.e) if self.isint else self.e

    # ---- arithmetic
    def _bin(self, o, fconst, fsym):
        if not isinstance(o, Sym):
            if isinstance(o, SymBool):
                o = o._num()
            elif not _is_num(o):
                return NotImplemented
            else:
                o = Sym.const(o)
        isint = self.isint and o.isint
        if self.c is not None and o.c is not None:
            v = fconst(self.c, o.c)
            return (Sym(z3.IntVal(int(v)), v, True) if isint
                    else Sym(_z3real(v), v, False))
        if isint:
            return Sym(fsym(self.e, o.e), None, True)
        return Sym(fsym(self.real(), o.real()), None, False)

    def __add__(self, o):
        if _is_inf(o):
            return o
        if not isinstance(o, Sym) and isinstance(o, _CONCRETE) and o == 0 \
                and not (self.isint and not isinstance(o, int)):
            return self
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if _is_inf(o):
            return -o
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        if _is_inf(o):
            return o
        return (-self) + o

    def __neg__(self):
        if self.c is not None:
            return Sym.const(-self.c if not self.isint else int(-self.c))
        return Sym(-self.e, None, self.isint)

    def __pos__(self):
        return self

    def _sign_times_inf(self, inf):
        if builtins.bool(self > 0):
            return inf
        if builtins.bool(self < 0):
            return -inf
        return float('nan')

    def __mul__(self, o):
        if _is_inf(o):
            return self._sign_times_inf(o)
        if not isinstance(o, Sym) and _is_num(o):
            o = Sym.const(o)
        if isinstance(o, Sym):
            for a, b in ((self, o), (o, self)):
                if a.c is not None:
                    if a.c == 0:
                        return Sym.const(
                            0 if a.isint and b.isint else Fraction(0))
                    if a.c == 1 and (a.isint or not b.isint):
                        return b
            if (self.c is None and o.c is None
                    and (z3.is_app_of(self.e, z3.Z3_OP_ITE)
                         or z3.is_app_of(o.e, z3.Z3_OP_ITE))):
                r = ENGINE.mul_ite(self, o)
                if r is not None:
                    return r
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _is_inf(o):
            return Sym.const(Fraction(0))
        if not isinstance(o, Sym):
            if not _is_num(o):
                return NotImplemented
            o = Sym.const(o)
        if o.c is not None:
            if o.c == 0:
                raise ZeroDivisionError('division by zero')
            if self.c is not None:
                return Sym.const(self.c / o.c)
            inv = 1 / o.c
            return Sym(self.real() * _z3real(inv), None, False)
        if builtins.bool(o == 0):
            raise ZeroDivisionError('division by zero')
        return ENGINE.divide(self, o)

    def __rtruediv__(self, o):
        if _is_inf(o):
            if builtins.bool(self == 0):
                raise ZeroDivisionError('division by zero')
            return self._sign_times_inf(o)
        if not _is_num(o):
            return NotImplemented
        return Sym.const(o).__truediv__(self)

    def __floordiv__(self, o):
        q = self / o
        return sym_floor(q)

    def __rfloordiv__(self, o):
        return sym_floor(Sym.const(o) / self)

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        return Sym.const(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o, mod=None):
        if not _is_num(o):
            return NotImplemented
        return ENGINE.power(self, Sym.const(o))

    def __rpow__(self, o):
        if not _is_num(o):
            return NotImplemented
        return ENGINE.power(Sym.const(o), self)

    def __abs__(self):
        if self.c is not None:
            return self if self.c >= 0 else -self
        if ENGINE.fork:
            return self if builtins.bool(self >= 0) else -self
        return Sym(z3.If(self.e >= 0, self.e, -self.e), None, self.isint)

    # ---- comparison
    def _cmp(self, o, op):
        if not isinstance(o, Sym):
            if isinstance(o, SymBool):
                o = o._num()
            elif not _is_num(o):
                return NotImplemented
            elif type(o) is float and o != o:
                return op == '!='
            elif _is_inf(o):
                return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0,
                        '==': False, '!=': True}[op]
            else:
                o = Sym.const(o)
        a, b = self, o
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                    '==': x == y, '!=': x != y}[op]
        if a.isint and b.isint:
            x, y = a.e, b.e
        else:
            x, y = a.real(), b.real()
        e = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
             '>=': lambda: x >= y, '==': lambda: x == y,
             '!=': lambda: x != y}[op]()
        return _mkbool(e)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return r

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return _HASH

    def __bool__(self):
        r = self._cmp(0, '!=')
        return builtins.bool(r)

    # ---- conversions
    def __float__(self):
        raise Unsupported('float() of a symbolic value outside the shims')

    def __int__(self):
        raise Unsupported('int() of a symbolic value outside the shims')

    def __index__(self):
        if not self.isint:
            raise TypeError('real used as an index')
        return ENGINE.concretize(self)

    def __round__(self, ndigits=None):
        if ndigits is None:
            return sym_round(self)
        s = Fraction(10) ** ndigits
        return sym_round(self * s) / s

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def is_integer(self):
        return self == sym_floor(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Sym(%s)' % (self.c if self.c is not None
                            else str(self.e)[:60].replace('\n', ' '))

    def __str__(self):
        return ENGINE.text(self)

    def __format__(self, spec):
        return repr(self)


def sym_floor(x):
    if not isinstance(x, Sym):
        return _math.floor(x)
    if x.isint:
        return x
    if x.c is not None:
        return Sym.const(_math.floor(x.c))
    if ENGINE.fork:
        return ENGINE.integer_part(x, False)
    return Sym(z3.ToInt(x.e), None, True)


def sym_trunc(x):
    if not isinstance(x, Sym):
        return builtins.int(x)
    if x.isint:
        return x
    if x.c is not None:
        return Sym.const(_math.trunc(x.c))
    if ENGINE.fork:
        return ENGINE.integer_part(x, not builtins.bool(x >= 0))
    return Sym(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)), None, True)


def sym_round(x):
    """Round half to even, as Python's round()."""
    if x.isint:
        return x
    if x.c is not None:
        return Sym.const(round(x.c))
    half = x.e + z3.RealVal('1/2')
    fl = z3.ToInt(half)
    tie = z3.ToReal(fl) == half
    return Sym(z3.If(z3.And(tie, fl % 2 == 1), fl - 1, fl), None, True)


def ite(c, a, b):
    """Non-forking choice."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return _mkbool(z3.If(c.e, _bexpr(a), _bexpr(b)))
    if _is_inf(a) or _is_inf(b) or not (_is_num(a) and _is_num(b)):
        return a if builtins.bool(c) else b
    a, b = Sym.const(a), Sym.const(b)
    if a.isint and b.isint:
        return Sym._wrap(z3.If(c.e, a.e, b.e))
    return Sym._wrap(z3.If(c.e, a.real(), b.real()))


def sym_minmax(is_min, args, fork=False):
    """min/max of numbers (first of equal ones, as Python)."""
    best = args[0]
    for x in args[1:]:
        if isinstance(x, Sym) or isinstance(best, Sym):
            c = (x < best) if is_min else (x > best)
            if fork:
                best = x if builtins.bool(c) else best
            else:
                best = ite(c, x, best)
        elif (x < best) if is_min else (x > best):
            best = x
    return best


class Engine:
    """Explores every feasible path of one program."""

    FIRST_MS = 3000          # incremental solver; then one-shot strategies

    def __init__(self, solver_timeout_ms=20000, fork=False):
        self.fork = fork     # settle min/max/abs by deciding, not if-then-else
        self.intparts = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FIRST_MS)
        self.timeout_ms = solver_timeout_ms
        self.stack = []          # [kind, z3 expr, value, other outcome open?]
        self.pos = 0
        self.model = None
        self.counters = {}
        self.powers = {}
        self.logs = {}
        self.quots = {}
        self.fresh_n = 0
        self.stats = dict(queries=0, solver_s=0.0, decisions=0, paths=0,
                          unknown=0, obligations=0, discharged=0,
                          fallback=0)
        self.inputs = {}
        self.deadline = None
        self.choose = None       # optional rng for branch order

    # ------------------------------------------------------------- solving
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        if r == z3.unknown:
            r = self._fallback(extra)
        else:
            self._lastmodel = self.solver.model() if r == z3.sat else None
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def _fallback(self, extra):
        """Try one-shot solvers when the incremental one gives up."""
        self.stats['fallback'] += 1
        makers = (
            lambda: z3.Tactic('qfnra-nlsat').solver(),
            lambda: z3.Then('simplify', 'purify-arith', 'elim-term-ite',
                            'propagate-values', 'solve-eqs', 'smt').solver(),
            lambda: z3.Then('simplify', 'purify-arith', 'elim-term-ite',
                            'solve-eqs', 'tseitin-cnf',
                            'qfnra-nlsat').solver(),
            z3.SimpleSolver)
        for limit in (3000, self.timeout_ms):
            for mk in makers:
                try:
                    s = mk()
                    s.set('timeout', limit)
                    s.add(self.solver.assertions())
                    s.add(*extra)
                    r = s.check()
                    if r != z3.unknown:
                        self._lastmodel = s.model() if r == z3.sat else None
                        return r
                except z3.Z3Exception:
                    continue
        return z3.unknown

    # ------------------------------------------------------------- stack
    def _prefix(self, kind, e):
        """Entry at the current position, if we are replaying a prefix."""
        if self.pos < len(self.stack):
            ent = self.stack[self.pos]
            if ent[0] != kind or not (ent[1].eq(e) or
                                      self._same(ent[1], e)):
                raise EngineError(
                    'nondeterministic execution: %s %s vs %s %s' % (
                        ent[0], str(ent[1])[:200], kind, str(e)[:200]))
            self.pos += 1
            return ent
        return None

    @staticmethod
    def _same(a, b):
        """Equivalent up to the order of arguments (which simplify() does
        not always keep)."""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(z3.Xor(a, b))
        return s.check() == z3.unsat

    def _push(self, kind, e, value, alt):
        self.solver.push()
        if kind == 'dec':
            self.solver.add(e if value else z3.Not(e))
        elif kind in ('assume', 'def'):
            self.solver.add(e)
        self.stack.append([kind, e, value, alt])
        self.pos += 1

    def assume(self, e):
        """Restricts the claim to executions where `e` holds."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if self._prefix('assume', e) is not None:
            return
        if z3.is_false(e):
            raise PathAbort()
        if self.model is not None and not z3.is_true(
                self.model.eval(e, model_completion=True)):
            self.model = None
        if self.model is None:
            r = self._check(e)
            if r == z3.unsat:
                raise PathAbort()
            self.model = self._lastmodel
        self._push('assume', e, True, False)

    def define(self, e):
        """Adds a definitional axiom about fresh symbols (always sat)."""
        if self._prefix('def', e) is not None:
            return
        if self.model is not None and not z3.is_true(
                self.model.eval(e, model_completion=True)):
            self.model = None
        self._push('def', e, True, False)

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        ent = self._prefix('dec', e)
        if ent is not None:
            return ent[2]
        if self.deadline and time.time() > self.deadline:
            raise LimitExceeded('time limit')
        self.stats['decisions'] += 1
        can = [None, None]
        models = [None, None]
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                can[1], models[1] = True, self.model
            elif z3.is_false(v):
                can[0], models[0] = True, self.model
        for val in (1, 0):
            if can[val] is None:
                if can[1 - val] is False:
                    can[val] = True      # the path itself is feasible
                    continue
                r = self._check(e if val else z3.Not(e))
                can[val] = r != z3.unsat
                if r == z3.sat:
                    models[val] = self._lastmodel
        if not can[0] and not can[1]:
            raise PathAbort()
        val = bool(can[1])
        if self.choose is not None and can[0] and can[1]:
            val = self.choose()
        self.model = models[1 if val else 0]
        self._push('dec', e, val, can[0] and can[1])
        return val

    def concretize(self, s, limit=400):
        """Forks over every feasible value of an integer term."""
        if s.c is not None:
            return int(s.c)
        for _ in range(limit):
            # Pick a candidate deterministically: replay stack, else model.
            if self.pos < len(self.stack):
                ent = self.stack[self.pos]
                v = self._conc_val(ent[1], s.e)
            else:
                if self.model is None:
                    if self._check() != z3.sat:
                        raise Unsupported('cannot concretize %s' % s)
                    self.model = self._lastmodel
                v = self.model.eval(s.e, model_completion=True).as_long()
            if self.decide_raw(s.e == v):
                return v
        raise Unsupported('too many values for %s' % s)

    def decide_raw(self, e):
        """decide() on an unsimplified equality (used by concretize)."""
        ent = self._prefix('dec', e)
        if ent is not None:
            return ent[2]
        r = self._check(z3.Not(e))
        m_false = self._lastmodel if r == z3.sat else None
        alt = r != z3.unsat
        r2 = self._check(e)
        if r2 == z3.unsat:
            if not alt:
                raise PathAbort()
            self.model = m_false
            self._push('dec', e, False, False)
            return False
        self.model = self._lastmodel if r2 == z3.sat else None
        self.stats['decisions'] += 1
        self._push('dec', e, True, alt)
        return True

    @staticmethod
    def _conc_val(eq, term):
        if z3.is_eq(eq):
            a, b = eq.children()
            if a.eq(term) and z3.is_int_value(b):
                return b.as_long()
        raise EngineError('nondeterministic execution (concretize)')

    # ------------------------------------------------------------- terms
    def fresh(self, prefix, sort='real'):
        self.fresh_n += 1
        name = '%s!%d' % (prefix, self.fresh_n)
        return z3.Real(name) if sort == 'real' else z3.Int(name)

    def mul_ite(self, a, b):
        """Distribute a product over if-then-else with numeral branches."""
        for x, y in ((a, b), (b, a)):
            if z3.is_app_of(x.e, z3.Z3_OP_ITE):
                c, t, f = x.e.children()
                t, f = Sym._wrap(z3.simplify(t)), Sym._wrap(z3.simplify(f))
                if t.c is not None or f.c is not None:
                    return ite(_mkbool(c), t * y, f * y)
        return None

    def integer_part(self, x, up):
        """floor (or ceiling) of a real term as a fresh integer."""
        e = z3.simplify(x.e, som=True)
        key = (e.get_id(), up)
        if key in self.intparts:
            return Sym(self.intparts[key][0], None, True)
        k = self.fresh('int', 'int')
        self.intparts[key] = (k, e)
        r = z3.ToReal(k)
        self.define(z3.And(r >= e, r < e + 1) if up
                    else z3.And(r <= e, e < r + 1))
        return Sym(k, None, True)

    def text(self, x):
        """A number as text: a literal that nothing else is written as."""
        if x.isint and x.c is not None:
            return str(x.c)
        for t, y in self.texts.items():
            if y.isint == x.isint and (
                    y.c is not None and y.c == x.c if y.c is not None
                    or x.c is not None else y.e.eq(x.e)):
                return t
        n = len(self.texts)
        t = ('7%04d91827364554637281908' if x.isint else
             '7.%04d91827364554637281908e-211') % n
        self.texts[t] = x
        return t

    def rounded(self, x):
        """The nearest float (in double precision, leaving out subnormals
        and overflow): an unknown number near it, the same for the same x.
        """
        if x.c is not None:
            return Sym.const(Fraction(builtins.float(x.c)))
        e = z3.simplify(x.real(), som=True)
        key = e.get_id()
        if key not in self.roundings:
            k = self.fresh('rnd')
            self.roundings[key] = (k, e)
            tiny = z3.Q(1, 2 ** 53)
            size = z3.If(e >= 0, e, -e)
            exact = z3.And(z3.IsInt(e), size <= 2 ** 53)
            self.define(z3.And(
                k - e <= size * tiny, e - k <= size * tiny,
                z3.Implies(exact, k == e),
                z3.Implies(z3.IsInt(e), z3.IsInt(k))))
        return Sym(self.roundings[key][0], None, False)

    def divide(self, a, b):
        na, nb = z3.simplify(a.real(), som=True), z3.simplify(b.real(), som=True)
        if na.eq(nb):
            return Sym.const(Fraction(1))
        key = (na.get_id(), nb.get_id())
        if key in self.quots:
            q, _, _ = self.quots[key]
            return Sym(q, None, False)
        if a.c is not None and a.c == 0:
            return Sym.const(Fraction(0))
        q = self.fresh('q')
        self.quots[key] = (q, na, nb)
        self.define(q * nb == na)
        return Sym(q, None, False)

    POW_UNROLL = 24

    def power(self, base, exp):
        if exp.c is not None and base.c is not None:
            if exp.c.denominator == 1:
                if base.c == 0 and exp.c < 0:
                    raise ZeroDivisionError('0 to a negative power')
                if abs(exp.c) <= 400:
                    v = base.c ** int(exp.c)
                    if base.isint and exp.isint and exp.c >= 0:
                        return Sym.const(int(v))
                    return Sym.const(Fraction(v))
            if base.c < 0:
                raise Unsupported('negative base, fractional power')
            if base.c == 0:
                if exp.c < 0:
                    raise ZeroDivisionError('0 to a negative power')
                return Sym.const(Fraction(0))
            if base.c == 1:
                return Sym.const(Fraction(1))
            v = Sym.const(float(base.c) ** float(exp.c))
            nb, ne = base.real(), exp.real()
            n, d = exp.c.numerator, exp.c.denominator
            if d < 20 and v.c ** d == base.c ** n:       # exact
                self.powers[(nb.get_id(), ne.get_id())] = (v.real(), nb, ne)
            return v
        if exp.c is not None and exp.c.denominator == 1 \
                and abs(exp.c) <= self.POW_UNROLL:
            n = int(exp.c)
            if n < 0:
                return Sym.const(1) / self.power(base, Sym.const(-n))
            r = Sym.const(1)
            for _ in range(n):
                r = r * base
            return r
        # Abstract power: a fresh positive symbol plus true facts about it.
        if builtins.bool(base <= 0):
            if builtins.bool(base == 0):
                if builtins.bool(exp > 0):
                    return Sym.const(Fraction(0))
                if builtins.bool(exp == 0):
                    return Sym.const(Fraction(1))
                raise ZeroDivisionError('0 to a negative power')
            raise Unsupported('negative base, fractional power')
        nb = z3.simplify(base.real(), som=True)
        ne = z3.simplify(exp.real(), som=True)
        key = (nb.get_id(), ne.get_id())
        if key in self.powers:
            return Sym(self.powers[key][0], None, False)
        p = self.fresh('pow')
        one = z3.RealVal(1)
        self.define(p > 0)
        self.define(z3.Implies(ne == 0, p == 1))
        self.define(z3.Implies(ne == 1, p == nb))
        self.define(z3.Implies(z3.And(nb > 1, ne > 0), p > 1))
        self.define(z3.Implies(z3.And(nb > 1, ne < 0), p < 1))
        self.define(z3.Implies(z3.And(nb < 1, ne > 0), p < 1))
        self.define(z3.Implies(z3.And(nb < 1, ne < 0), p > 1))
        self.define(z3.Implies(nb == one, p == 1))
        for (q, b2, e2) in list(self.powers.values()):
            if b2.eq(nb):
                self.define(z3.Implies(ne == e2, p == q))
                self.define(z3.Implies(ne == -e2, p * q == 1))
                self.define(z3.Implies(z3.And(nb > 1, ne < e2), p < q))
                self.define(z3.Implies(z3.And(nb > 1, ne > e2), p > q))
                self.define(z3.Implies(z3.And(nb < 1, ne < e2), p > q))
                self.define(z3.Implies(z3.And(nb < 1, ne > e2), p < q))
                d = z3.simplify(ne - e2, som=True)
                if z3.is_int_value(d) or z3.is_rational_value(d) and \
                        d.denominator_as_long() == 1:
                    k = d.numerator_as_long()
                    if 0 < abs(k) <= 12:
                        lo, hi = (q, p) if k > 0 else (p, q)
                        for _ in range(abs(k)):
                            lo = lo * nb
                        self.define(lo == hi)
        olds = [v for v in self.powers.values() if v[1].eq(nb)]
        for i, (q, _, e2) in enumerate(olds):
            for (r, _, e3) in olds[i:]:
                for (x, y, z, ez, exy) in (
                        (q, r, p, ne, e2 + e3), (p, q, r, e3, ne + e2),
                        (p, r, q, e2, ne + e3)):
                    d = z3.simplify(ez - exy, som=True)
                    if z3.is_rational_value(d):
                        if d.numerator_as_long() == 0:
                            self.define(x * y == z)
        self.powers[key] = (p, nb, ne)
        return Sym(p, None, False)

    def log_base(self, x, base):
        """The l with base ** l == x."""
        if x.c is not None and base.c is not None:
            return Sym.const(_math.log(x.c, base.c))
        if builtins.bool(x <= 0) or builtins.bool(base <= 0):
            raise ValueError('math domain error')
        if builtins.bool(base == 1):
            raise ZeroDivisionError('float division by zero')
        if builtins.bool(x == 1):
            return Sym.const(0)
        key = (z3.simplify(x.real(), som=True).get_id(),
               z3.simplify(base.real(), som=True).get_id())
        if key not in self.logs:
            l = Sym(self.fresh('log'), None, False)
            self.logs[key] = (l, x, base)
            p = self.power(base, l)
            self.define(p.real() == x.real())
        return self.logs[key][0]

    def log(self, x):
        if x.c is not None:
            return Sym.const(_math.log(x.c))
        if builtins.bool(x <= 0):
            raise ValueError('math domain error')
        raise Unsupported('log of a symbolic value')

    # ------------------------------------------------------------- running
    def input(self, name, sort, lo=None, hi=None):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        full = name if n == 0 else '%s#%d' % (name, n)
        v = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](full)
        self.inputs[full] = (sort, v)
        if lo is not None:
            self.assume(v >= (_z3real(_frac(lo)) if sort == 'real' else lo))
        if hi is not None:
            self.assume(v <= (_z3real(_frac(hi)) if sort == 'real' else hi))
        return SymBool(v) if sort == 'bool' else Sym(v)

    def begin(self):
        global ENGINE
        ENGINE = self
        self.pos = 0
        self.counters = {}
        self.powers = {}
        self.logs = {}
        self.quots = {}
        self.intparts = {}
        self.texts = {}
        self.roundings = {}
        self.fresh_n = 0
        self.inputs = {}

    def backtrack(self):
        """Moves to the next unexplored path; False when none is left."""
        while self.stack:
            kind, e, val, alt = self.stack.pop()
            self.solver.pop()
            if alt:
                self.solver.push()
                self.solver.add(z3.Not(e) if val else e)
                self.stack.append([kind, e, not val, False])
                self.model = None
                return True
        return False

    def path_model(self, *extra):
        """A model of the path condition (plus `extra`), or None."""
        if self._check(*extra) == z3.sat:
            return self._lastmodel
        return None

    def obligation(self, e, key):
        """Proves `e` on this path.  Returns (status, model)."""
        self.stats['obligations'] += 1
        e = z3.simplify(e)
        if z3.is_true(e):
            self.stats['discharged'] += 1
            return 'proved', None
        r = self._check(z3.Not(e))
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return 'proved', None
        if r == z3.sat:
            return 'failed', self._lastmodel
        return 'unknown', None


def model_value(model, v):
    """Concrete Fraction/int/bool of a z3 term under a model."""
    r = model.eval(v, model_completion=True)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineError('no concrete value for %s' % v)
