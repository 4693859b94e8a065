"""
functools for instrumented modules: caches compare symbolic arguments by their
values, and they are empty again at the start of each path.
"""

import functools
import types

from .core import ENG
from .values import issym


def _same(x, y):
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same(p, q) for p, q in zip(x, y))
    if not issym(x) and not issym(y):
        if hash(x) != hash(y):
            return False
    return bool(x == y)


class Cache:
    def __init__(self, f, typed=False):
        self.f = f
        self.typed = typed
        self.entries = []
        self.hits = self.misses = 0
        functools.update_wrapper(self, f)
        if not ENG.active:  # otherwise it ends with the path
            ENG.caches.append(self)

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        for x in a + tuple(k.values()):
            if not issym(x):
                hash(x)
        for e, v in self.entries:
            if len(e[0]) != len(a) or [n for n, _ in e[1]] != [n for n, _ in key[1]]:
                continue
            if self.typed and [type(x) for x in e[0]] != [type(x) for x in a]:
                continue
            if _same(e, key):
                self.hits += 1
                return v
        v = self.f(*a, **k)
        self.misses += 1
        self.entries.append((key, v))
        return v

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.entries = []
        self.hits = self.misses = 0

    def cache_info(self):
        return functools._CacheInfo(self.hits, self.misses, None, len(self.entries))

    def cache_parameters(self):
        return {"maxsize": None, "typed": self.typed}


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Cache(maxsize, typed)
    return lambda f: Cache(f, typed)


def cache(f):
    return Cache(f)


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None
        self.__doc__ = func.__doc__

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, o, owner=None):
        if o is None:
            return self
        d = object.__getattribute__(o, "__dict__")
        if self.attrname in d:
            return d[self.attrname]
        v = self.func(o)
        ENG.jattr(o, self.attrname)
        d[self.attrname] = v
        return v


MODULE = types.ModuleType("functools")
MODULE.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})
MODULE.__dict__.update(lru_cache=lru_cache, cache=cache, cached_property=cached_property)
