"""Undoes what a run leaves behind in the modules under test.

Every symbolic path and every replayed case starts from the state the modules
are in after being imported: module globals, class attributes, containers held
by them (or by defaults, closures and attributes of functions), and caches of
functools.  What a run keeps in an object lives and dies with that object.
"""
import collections
import functools
import sys
import types

_CONTAINERS = (dict, list, set, bytearray, collections.deque)
_KEPT = {'__dict__', '__weakref__', '__doc__', '__module__', '__builtins__',
         '__abstractmethods__', '_abc_impl', '__annotations__', '__slots__',
         '__firstlineno__', '__static_attributes__'}
_LRU = type(functools.lru_cache(lambda: None))


def _mine(name, packages):
    return any(name == p or name.startswith(p + '.') for p in packages)


class State:
    """What there is to go back to."""

    def __init__(self, packages=('forecaster', 'harness')):
        self.packages = packages
        self.seen = set()
        self.keep = []
        self.spaces = []        # (owner, get vars, saved)
        self.boxes = []         # (container, saved)
        self.caches = []
        for name, mod in list(sys.modules.items()):
            if mod is not None and _mine(name, packages):
                if name.split('.')[0] != 'harness':
                    self.spaces.append((mod, dict(vars(mod))))
                for v in list(vars(mod).values()):
                    self._visit(v, name.split('.')[0] != 'harness')

    def _visit(self, v, boxes=True):
        if v is None or isinstance(v, (int, str, float, bytes,
                                       types.ModuleType)):
            return
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        self.keep.append(v)
        if isinstance(v, _LRU) or getattr(v, 'is_symbolic_cache', False):
            self.caches.append(v)
            self._visit(v.__wrapped__)
        elif isinstance(v, type):
            if _mine(v.__module__, self.packages):
                self.spaces.append((v, dict(vars(v))))
                for k, x in list(vars(v).items()):
                    if k not in _KEPT:
                        self._visit(x)
        elif isinstance(v, _CONTAINERS):
            if boxes:
                self.boxes.append((v, v.copy()))
                for x in (list(v.values()) if isinstance(v, dict)
                          else list(v)):
                    if isinstance(x, _CONTAINERS):
                        self._visit(x)
        elif isinstance(v, types.FunctionType):
            if not _mine(v.__module__ or '', self.packages):
                return
            for x in (v.__defaults__ or ()):
                self._visit(x)
            for x in (v.__kwdefaults__ or {}).values():
                self._visit(x)
            for c in (v.__closure__ or ()):
                try:
                    self._visit(c.cell_contents)
                except ValueError:
                    pass
            self._visit(v.__dict__)
        elif isinstance(v, (staticmethod, classmethod)):
            self._visit(v.__func__)
        elif isinstance(v, property):
            for x in (v.fget, v.fset, v.fdel):
                self._visit(x)
            self._visit(getattr(v, '__dict__', None))
        elif _mine(type(v).__module__, self.packages) and boxes:
            self._visit(getattr(v, '__dict__', None))
            for x in list(getattr(v, '__dict__', {}).values()):
                self._visit(x)

    @staticmethod
    def _same(now, then):
        if len(now) != len(then):
            return False
        if isinstance(now, dict):
            return all(a is b for a, b in zip(now, then)) and all(
                a is b for a, b in zip(now.values(), then.values()))
        return all(a is b for a, b in zip(now, then))

    def restore(self):
        """Back to how everything was."""
        for owner, then in self.spaces:
            now = vars(owner)
            if self._same(now, then):
                continue
            for k in list(now):
                if k not in then and k not in _KEPT and not isinstance(
                        now[k], types.ModuleType):
                    delattr(owner, k)
            for k, v in then.items():
                if k not in _KEPT and (k not in now or now[k] is not v):
                    setattr(owner, k, v)
        for box, then in self.boxes:
            if not self._same(box, then):
                box.clear()
                (box.update if isinstance(box, (dict, set))
                 else box.extend)(then)
        for c in self.caches:
            c.cache_clear()


class SymbolicCache:
    """functools.lru_cache for arguments which may be symbolic: two calls
    share a result if their arguments are equal, which may depend."""

    is_symbolic_cache = True

    def __init__(self, lru):
        functools.update_wrapper(self, lru.__wrapped__)
        self.__wrapped__ = lru.__wrapped__
        self.maxsize = lru.cache_parameters()['maxsize']
        self.calls = []

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kwargs):
        hash((args, tuple(kwargs.items())))
        if self.maxsize != 0:
            for i, (a, k, v) in enumerate(self.calls):
                if len(a) == len(args) and list(k) == list(kwargs) and all(
                        x is y or x == y for x, y in zip(
                            [*a, *k.values()], [*args, *kwargs.values()])):
                    self.calls.append(self.calls.pop(i))
                    return v
        v = self.__wrapped__(*args, **kwargs)
        if self.maxsize != 0:
            self.calls.append((args, kwargs, v))
            if self.maxsize is not None and len(self.calls) > self.maxsize:
                self.calls.pop(0)
        return v

    def cache_clear(self):
        """ Forgets. """
        self.calls.clear()

    def cache_info(self):
        """ Not counted. """
        return functools._CacheInfo(0, 0, self.maxsize, len(self.calls))


_MADE = {}


def _made(lru):
    if id(lru) not in _MADE:
        _MADE[id(lru)] = lru, SymbolicCache(lru)
    return _MADE[id(lru)][1]


def symbolic_caches(mod, name):
    """Replaces the caches of functools in a module."""
    for owner in [mod] + [v for v in vars(mod).values() if isinstance(v, type)
                          and v.__module__ == name]:
        for k, v in list(vars(owner).items()):
            if isinstance(v, _LRU):
                setattr(owner, k, _made(v))
            elif isinstance(v, (staticmethod, classmethod)) and isinstance(
                    v.__func__, _LRU):
                setattr(owner, k, type(v)(_made(v.__func__)))
            elif type(v) is property and any(isinstance(
                    f, _LRU) for f in (v.fget, v.fset, v.fdel)):
                setattr(owner, k, property(*[
                    _made(f) if isinstance(f, _LRU) else f
                    for f in (v.fget, v.fset, v.fdel)], v.__doc__))
