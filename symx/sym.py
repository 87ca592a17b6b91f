"""Symbolic context, builtin shims and the per-harness exploration loop."""
import builtins
import importlib
import math
import numbers
import sys
import time
import types
from fractions import Fraction

import z3

from . import core, state
from .core import (
    Sym, SymBool, Engine, EngineError, Unsupported, PathAbort, LimitExceeded,
    model_value, ite, sym_minmax, sym_trunc, sym_floor, _frac, _bexpr, _mkbool,
    _is_inf)
from .ctx import BaseCtx, TOL, AssumeFailed

INF = float('inf')


# --------------------------------------------------------------- shims
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.float) or (
            builtins.isinstance(o, Sym) and not o.isint)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        if builtins.isinstance(x, Sym):
            if not x.isint:
                return x
            return Sym._wrap(z3.simplify(x.real())) if x.c is None \
                else Sym.const(Fraction(x.c))
        if builtins.isinstance(x, str) and x.strip() in core.ENGINE.texts:
            return core.ENGINE.rounded(core.ENGINE.texts[x.strip()])
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.int) or (
            builtins.isinstance(o, Sym) and o.isint)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if builtins.isinstance(x, Sym):
            return sym_trunc(x)
        if builtins.isinstance(x, str) and x.strip() in core.ENGINE.texts:
            n = core.ENGINE.texts[x.strip()]
            if not n.isint:
                raise ValueError(x)
            return n
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


def _mm(is_min):
    orig = builtins.min if is_min else builtins.max

    def shim(*args, **kw):
        if kw.get('key') is not None:
            return orig(*args, **kw)
        if len(args) == 1:
            vals = list(args[0])
            if not vals:
                return orig(vals, **kw)
        else:
            vals = list(args)
        if not builtins.any(builtins.isinstance(v, Sym) for v in vals):
            return orig(vals)
        if not builtins.all(core._is_num(v) for v in vals):
            return orig(vals)
        return sym_minmax(is_min, vals, core.ENGINE.fork)
    shim.__name__ = orig.__name__
    return shim


class MathShim(types.ModuleType):
    """`math` with symbolic versions of the functions the code may use."""

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        return getattr(math, name)

    def log(self, x, base=None):
        if not builtins.isinstance(x, Sym) and not builtins.isinstance(
                base, Sym):
            return math.log(x) if base is None else math.log(x, base)
        e = core.ENGINE
        if base is None:
            return e.log(Sym.const(x))
        return e.log_base(Sym.const(x), Sym.const(base))

    def exp(self, x):
        if builtins.isinstance(x, Sym):
            return Sym.const(math.e) ** x
        return math.exp(x)

    def pow(self, a, b):
        if builtins.isinstance(a, Sym) or builtins.isinstance(b, Sym):
            return Sym.const(a) ** b
        return math.pow(a, b)

    def sqrt(self, x):
        if builtins.isinstance(x, Sym):
            return x ** Fraction(1, 2)
        return math.sqrt(x)

    def floor(self, x):
        return sym_floor(x)

    def ceil(self, x):
        return -sym_floor(-x) if builtins.isinstance(x, Sym) \
            else math.ceil(x)

    def trunc(self, x):
        return sym_trunc(x)

    def fabs(self, x):
        return abs(x)

    def isinf(self, x):
        return False if builtins.isinstance(x, Sym) else math.isinf(x)

    def isnan(self, x):
        return False if builtins.isinstance(x, Sym) else math.isnan(x)

    def isfinite(self, x):
        return True if builtins.isinstance(x, Sym) else math.isfinite(x)

    def fsum(self, xs):
        return builtins.sum(xs)

    def prod(self, xs, *, start=1):
        for x in xs:
            start = start * x
        return start

    def copysign(self, a, b):
        if builtins.isinstance(a, Sym) or builtins.isinstance(b, Sym):
            return ite(b >= 0, abs(a), -abs(a))
        return math.copysign(a, b)

    def isclose(self, a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not (builtins.isinstance(a, Sym) or builtins.isinstance(b, Sym)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if _is_inf(a) or _is_inf(b):
            return False
        big = sym_minmax(False, [abs(a) * Sym.const(rel_tol),
                                 abs(b) * Sym.const(rel_tol),
                                 Sym.const(abs_tol)])
        return abs(a - b) <= big


class _IdCounter:
    """Deterministic replacement for identity hashes and id()."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 1000
        self.ids = {}
        self.keep = []

    def get(self, o):
        k = builtins.id(o)
        if k not in self.ids:
            self.n += 1
            self.ids[k] = self.n
            self.keep.append(o)         # keeps the address from being reused
        return self.ids[k]


IDS = _IdCounter()


def _id_shim(o):
    return IDS.get(o)


def _hash_shim(self):
    return IDS.get(self)


MATH = MathShim()
SHIMS = {'float': FloatShim, 'int': IntShim, 'min': _mm(True),
         'max': _mm(False), 'id': _id_shim}
_PKG = 'forecaster'


def install_shims():
    """Rebinds a few builtins in the namespaces of the code under test."""
    numbers.Real.register(Sym)
    sys.modules['math'] = MATH          # for imports within functions
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == _PKG or name.startswith(_PKG + '.')):
            continue
        state.symbolic_caches(mod, name)
        for k, v in SHIMS.items():
            if k not in mod.__dict__:
                setattr(mod, k, v)
        for k, v in list(mod.__dict__.items()):
            if v is math:
                setattr(mod, k, MATH)
            if isinstance(v, types.BuiltinFunctionType) and \
                    getattr(v, '__module__', None) == 'math':
                setattr(mod, k, getattr(MATH, v.__name__))
            if isinstance(v, type) and v.__module__ == name and \
                    v.__hash__ is object.__hash__ and not issubclass(v, type):
                try:
                    v.__hash__ = _hash_shim
                except TypeError:
                    pass


class Claim(SymBool):
    """A truth value that knows stronger ways of being false."""
    __slots__ = ('hard',)

    def __init__(self, e, hard=()):
        super().__init__(e)
        self.hard = list(hard)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, run):
        self.run = run
        self.eng = run.engine
        self.observed = []

    # ---- inputs
    def num(self, x):
        """Lifts a constant, so that it mixes with symbolic dict keys."""
        if x is None or builtins.isinstance(x, (bool, Sym)):
            return x
        if _is_inf(x):
            return x
        if builtins.isinstance(x, SymBool):
            return x
        return Sym.const(_frac(x))

    lift = num

    @property
    def hp(self):
        return self.num

    def decimal(self, x):
        """A number of the most precise type, also from its text."""
        if builtins.isinstance(x, str):
            x = self.eng.texts.get(x.strip(), x)
        if builtins.isinstance(x, str) and not x.strip().lstrip(
                '+-')[:1].isdigit():
            x = builtins.float(x)
        if builtins.isinstance(x, builtins.float) and not math.isinf(x):
            x = Fraction(x)
        x = self.num(x)
        return FloatShim(x) if builtins.isinstance(x, Sym) else x

    def digits(self, name, places, lo, hi):
        """An unknown number with that many digits after the point."""
        return self.decimal(self.int(name, lo * 10 ** places,
                                     hi * 10 ** places)
                            * Fraction(1, 10 ** places))

    def text(self, x):
        """A number as text."""
        return str(x)

    def real(self, name, lo=None, hi=None):
        return self.eng.input(name, 'real', lo, hi)

    def int(self, name, lo=None, hi=None):
        return self.eng.input(name, 'int', lo, hi)

    def bool(self, name):
        return self.eng.input(name, 'bool')

    def pick(self, name, options):
        options = list(options)
        i = self.eng.input(name, 'int', 0, len(options) - 1)
        return options[self.eng.concretize(i)]

    def assume(self, c):
        if isinstance(c, SymBool):
            self.eng.assume(c.e)
        elif not c:
            raise PathAbort()

    # ---- obligations
    def check(self, c, label, detail=''):
        self.run.check(c, label)

    def observe(self, name, value):
        self.observed.append((name, value))

    # ---- comparisons with tolerance
    def eq(self, a, b, tol=TOL):
        if a is None or b is None:
            return a is b
        if _is_inf(a) or _is_inf(b):
            return a == b
        d = Sym.const(a) - Sym.const(b)
        if d.c is not None:
            return abs(d.c) <= _frac(tol)
        de = z3.simplify(d.real(), som=True)
        if z3.is_rational_value(de):
            v = Fraction(de.numerator_as_long(), de.denominator_as_long())
            return abs(v) <= _frac(tol)

        def off(t):
            t = core._z3real(_frac(t))
            return z3.Or(de > t, de < -t)
        return Claim(z3.Not(off(tol)), [off(t) for t in (1, 0.01)])

    def le(self, a, b, tol=TOL):
        if _is_inf(a) or _is_inf(b):
            return a <= b
        d = Sym.const(a) - Sym.const(b)
        if d.c is not None:
            return d.c <= _frac(tol)
        de = z3.simplify(d.real(), som=True)

        def off(t):
            return de > core._z3real(_frac(t))
        return Claim(z3.Not(off(tol)), [off(t) for t in (1, 0.01)])

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    # ---- logic
    def And(self, *cs):
        es = [_bexpr(c) for c in cs]
        return _mkbool(z3.And(*es))

    def Or(self, *cs):
        return _mkbool(z3.Or(*[_bexpr(c) for c in cs]))

    def Not(self, c):
        return _mkbool(z3.Not(_bexpr(c)))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def min(self, *xs):
        xs = list(xs) if len(xs) > 1 else list(xs[0])
        return sym_minmax(True, xs)

    def max(self, *xs):
        xs = list(xs) if len(xs) > 1 else list(xs[0])
        return sym_minmax(False, xs)

    def abs(self, x):
        return abs(x)

    def pow(self, b, e):
        return Sym.const(b) ** e

    def floor(self, x):
        return sym_floor(x)


class Run:
    """Explores one (harness, config) task exhaustively."""

    def __init__(self, harness, config, *, max_paths=20000, time_limit=300,
                 solver_timeout_ms=20000, samples=6, max_candidates=3,
                 fork=False):
        self.harness = harness
        self.config = config
        self.engine = Engine(solver_timeout_ms, fork)
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.samples = samples
        self.max_candidates = max_candidates
        self.candidates = []       # dicts
        self.unknowns = []
        self.reached = {}
        self.witnesses = []
        self.functions = set()
        self.aborted = 0
        self.error = None

    # ---- obligations
    def check(self, c, label):
        eng = self.engine
        self.reached[label] = self.reached.get(label, 0) + 1
        if eng.pos < len(eng.stack):
            return                      # settled when the prefix was explored
        if isinstance(c, SymBool):
            status, model = eng.obligation(c.e, label)
        else:
            eng.stats['obligations'] += 1
            if c:
                eng.stats['discharged'] += 1
                return
            status, model = 'failed', None
        if status == 'proved':
            return
        if status == 'unknown':
            self.unknowns.append(label)
            if len(self.unknowns) <= 4:
                # the solver gave up; still try the path's own model
                m = eng.model or eng.path_model()
                if m is not None:
                    self.candidates.append(
                        {'label': label, 'models': [self.values(m)],
                         'guess': True})
            return
        self.fail(label, c, model)

    def fail(self, label, c, model):
        eng = self.engine
        known = [x for x in self.candidates if x['label'] == label]
        if len(known) >= self.max_candidates:
            return
        models = []
        extra = [] if not isinstance(c, SymBool) else [z3.Not(c.e)]
        for h in getattr(c, 'hard', ()):
            m = eng.path_model(h)
            if m is not None:
                models.append(self.values(m))
                break
        # A "tame" model: values that are multiples of 1/4.
        for den in (1, 4):
            tame = []
            for name, (sort, v) in eng.inputs.items():
                if sort == 'real':
                    tame.append(z3.IsInt(v * den))
            if tame and not eng.powers and len(tame) <= 12:
                eng.solver.set('timeout', 2000)
                hard = list(getattr(c, 'hard', ()))[:1]
                m = eng.path_model(*(extra + hard + tame))
                eng.solver.set('timeout', eng.FIRST_MS)
                if m is not None:
                    models.insert(0, self.values(m))
                    break
        if model is None:
            model = eng.path_model(*extra)
        if model is not None:
            models.append(self.values(model))
        if not models:
            self.unknowns.append(label)
            return
        self.candidates.append({'label': label, 'models': models})

    def values(self, model):
        return {n: enc(model_value(model, v))
                for n, (s, v) in self.engine.inputs.items()}

    # ---- the loop
    def go(self):
        eng = self.engine
        t0 = time.time()
        eng.deadline = t0 + self.time_limit
        first = True
        start = state.State()
        while True:
            eng.begin()
            start.restore()
            IDS.reset()
            ctx = SymCtx(self)
            self.ctx = ctx
            try:
                if first:
                    sys.setprofile(self._profile)
                try:
                    self.harness(ctx, **self.config)
                finally:
                    if first:
                        sys.setprofile(None)
                first = False
                eng.stats['paths'] += 1
                self._witness(ctx)
            except (PathAbort, AssumeFailed):
                self.aborted += 1
            except EngineError as e:
                self.error = '%s: %s' % (type(e).__name__, e)
                import traceback
                self.error_tb = traceback.format_exc()[-1500:]
                if isinstance(e, LimitExceeded):
                    break
                if not self.candidates:
                    break
                break
            except Exception as e:      # raised by the code under test
                eng.stats['paths'] += 1
                label = 'exception:%s' % type(e).__name__
                self.reached[label] = self.reached.get(label, 0) + 1
                import traceback
                tb = traceback.format_exc()[-1800:]
                n = len(self.candidates)
                if eng.pos >= len(eng.stack):
                    eng.stats['obligations'] += 1
                    self.fail(label, False, None)
                    if len(self.candidates) > n:
                        self.candidates[-1]['traceback'] = tb
            if eng.stats['paths'] + self.aborted > self.max_paths:
                self.error = 'LimitExceeded: more than %d paths' % \
                    self.max_paths
                break
            if time.time() > eng.deadline:
                self.error = 'LimitExceeded: time'
                break
            if not eng.backtrack():
                break
        self.wall = time.time() - t0
        return self

    def _witness(self, ctx):
        n = self.engine.stats['paths']
        if len(self.witnesses) >= self.samples:
            return
        if n > 3 and (n & (n - 1)):      # paths 1,2,3,4,8,16,...
            return
        eng = self.engine
        m = eng.model or eng.path_model()
        if m is None:
            m = eng.path_model()
        if m is None:
            return
        obs = []
        if not eng.powers:
            for name, v in ctx.observed:
                try:
                    obs.append((name, enc(self._val(m, v))))
                except EngineError:
                    obs.append((name, None))
        self.witnesses.append({'inputs': self.values(m), 'obs': obs})

    @staticmethod
    def _val(m, v):
        if isinstance(v, Sym):
            return v.c if v.c is not None else model_value(m, v.e)
        if isinstance(v, SymBool):
            return model_value(m, v.e)
        if isinstance(v, (bool, int, float, Fraction, str)) or v is None:
            return v
        return None

    def _profile(self, frame, event, arg):
        if event == 'call':
            mod = frame.f_globals.get('__name__', '')
            if mod.startswith(_PKG):
                self.functions.add(
                    mod + ':' + frame.f_code.co_qualname)

    def result(self):
        return dict(stats=self.engine.stats, candidates=self.candidates,
                    unknowns=self.unknowns, reached=self.reached,
                    witnesses=self.witnesses, aborted=self.aborted,
                    functions=sorted(self.functions), error=self.error,
                    error_tb=getattr(self, 'error_tb', ''),
                    wall=getattr(self, 'wall', 0.0))


def enc(v):
    if isinstance(v, Fraction):
        return '%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, float):
        return repr(v)
    return v
