"""
Run-time support called by instrumented code (see instrument.py).

Everything here has the meaning of the plain Python operation it replaces; it
only adds the cases the C implementation cannot handle because a symbolic value
is involved.
"""

import builtins
import collections
import hashlib
import logging
import operator
import os
import re
import sys
import types

import numpy

import z3

from . import regex
from . import values as V
from .core import ENG, MISSING, Inconclusive, SxControl
from .values import FakeArray, SymBytes, SymInt, SymReal, SymStr, is_strlike, issym

HOOKS = {}  # function object (or unbound method) -> replacement


def hook(*targets):
    def deco(f):
        for t in targets:
            HOOKS[t] = f
        return f

    return deco


_BUILTIN = types.BuiltinFunctionType
_CMETHOD = type(re.compile('a').match)  # differs from _BUILTIN in some versions
_METHOD = types.MethodType
_DICTMETH = {
    "get",
    "pop",
    "setdefault",
    "update",
    "clear",
    "popitem",
    "__contains__",
    "__getitem__",
    "__setitem__",
    "fromkeys",
    "copy",
    "move_to_end",
}
_LISTMUT = {"append", "extend", "insert", "pop", "remove", "sort", "clear", "reverse"}
_SETMETH = {"add", "discard", "remove", "update", "__contains__", "pop", "clear"}


def call(f, /, *a, **k):
    t = type(f)
    if t is _BUILTIN or t is _CMETHOD:
        s = f.__self__
        if isinstance(s, str):
            if _anysym(a, k) or f.__name__ in ("join", "format"):
                return str_method(s, f.__name__, a, k)
            return f(*a, **k)
        if isinstance(s, dict):
            if f.__name__ in _DICTMETH:
                return dict_method(s, f, f.__name__, a, k)
            return f(*a, **k)
        if isinstance(s, list):
            if f.__name__ in _LISTMUT:
                ENG.touch(s)
            return f(*a, **k)
        if isinstance(s, set):
            if f.__name__ in _SETMETH:
                return set_method(s, f, f.__name__, a, k)
            return f(*a, **k)
        if isinstance(s, re.Pattern):
            return re_method(s, f, f.__name__, a, k)
        try:
            h = HOOKS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if t is _METHOD:
        h = HOOKS.get(f.__func__)
        if h is not None:
            return h(f.__self__, *a, **k)
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and _anysym(a, k):
            # e.g. str.lower(x), map-like use of unbound methods
            n = f.__name__
            if f.__objclass__ is str and isinstance(a[0], SymStr):
                return getattr(a[0], n)(*a[1:], **k)
            if f.__objclass__ is str and isinstance(a[0], str):
                return str_method(a[0], n, a[1:], k)
        return f(*a, **k)
    try:
        h = HOOKS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    return f(*a, **k)


def _anysym(a, k):
    for x in a:
        if issym(x):
            return True
    for x in k.values():
        if issym(x):
            return True
    return False


# ------------------------------------------------------------------- strings


def str_method(s, name, a, k):
    if name == "join":
        items = list(a[0])
        if any(isinstance(x, SymStr) for x in items):
            return SymStr.join(_sym(s), items)
        return s.join(items)
    if name == "format":
        return str_format(s, a, k)
    if not any(issym(x) for x in a):
        return getattr(s, name)(*a, **k)
    return getattr(_sym(s), name)(*a, **k)


def _sym(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(map(ord, s)))


def tostr(x=""):
    """str(x)"""
    if isinstance(x, (str, SymStr)):
        return x if not isinstance(x, str) else builtins.str(x)
    if getattr(type(x), "_sx", False):
        return x._sx_str()
    if isinstance(x, (list, tuple)) and _deepsym(x):
        return seq_repr(x)
    if type(x) is dict and _deepsym(x):
        return dict_repr(x)
    m = getattr(type(x), "__str__", None)
    if isinstance(m, types.FunctionType):
        # user-defined __str__ may return a symbolic string
        return m(x)
    if isinstance(x, BaseException) and any(issym(y) for y in x.args):
        return tostr(x.args[0]) if len(x.args) == 1 else seq_repr(x.args)
    return builtins.str(x)


def _deepsym(x):
    if issym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deepsym(y) for y in x)
    if type(x) is dict:
        return any(_deepsym(y) for y in x.values()) or id(x) in ENG.symdicts
    return False


def _hexdigit(d):
    return z3.If(d < 10, d + 48, d + 87)


def str_repr(x):
    """repr of a symbolic string, one branch per kind of character"""
    br = ENG.branch
    zs = [V._z(c) for c in x._c]
    single = br(V.Or([c == 39 for c in zs]))
    quote = 39
    if single and not br(V.Or([c == 34 for c in zs])):
        quote = 34
    out = [quote]
    special = V.Or(
        [V.Not(V.in_ranges(c, V.ranges_of("print", str.isprintable))) for c in x._c]
        + [V.Or([c == 92, c == 39]) for c in zs]
    )
    if not br(special):
        return V.mkstr([quote] + list(x._c) + [quote])
    for c, z in zip(x._c, zs):
        if br(V.in_ranges(c, V.ranges_of("print", str.isprintable))):
            if br(z == 92):
                out += [92, 92]
            elif quote == 39 and br(z == 39):
                out += [92, 39]
            else:
                out.append(c)
        elif br(z == 9):
            out += [92, ord("t")]
        elif br(z == 10):
            out += [92, ord("n")]
        elif br(z == 13):
            out += [92, ord("r")]
        elif br(z < 256):
            out += [92, ord("x"), _hexdigit(z / 16), _hexdigit(z % 16)]
        elif br(z < 65536):
            out += [92, ord("u")]
            out += [_hexdigit((z / k) % 16) for k in (4096, 256, 16, 1)]
        else:
            out += [92, ord("U"), 48, 48]
            out += [_hexdigit((z / k) % 16) for k in (1048576, 65536, 4096, 256, 16, 1)]
    return V.mkstr(out + [quote])


def torepr(x):
    if isinstance(x, SymStr):
        return str_repr(x)
    if getattr(type(x), "_sx", False):
        return x._sx_str()
    if isinstance(x, (list, tuple)) and _deepsym(x):
        return seq_repr(x)
    if type(x) is dict and _deepsym(x):
        return dict_repr(x)
    return builtins.repr(x)


def dict_repr(x):
    out = "{"
    for i, (k, v) in enumerate(x.items()):
        if i:
            out = out + ", "
        out = out + torepr(k) + ": " + torepr(v)
    return out + "}"


def seq_repr(x):
    o, c = ("[", "]") if isinstance(x, list) else ("(", ")")
    out = o
    for i, y in enumerate(x):
        if i:
            out = out + ", "
        out = out + torepr(y)
    if isinstance(x, tuple) and len(x) == 1:
        out = out + ","
    return out + c


_SPEC = re.compile(r"%(?:\((.*?)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])")


def str_mod(fmt, args):
    if not isinstance(args, tuple):
        seq = (args,)
    else:
        seq = args
    if isinstance(fmt, (bytes, SymBytes)):
        raise Inconclusive("bytes %")
    if isinstance(fmt, SymStr):
        fmt = fmt._concrete()
    if not _deepsym(seq) and not any(_userstr(x) for x in seq):
        return fmt % args
    out, pos, i = "", 0, 0
    for m in _SPEC.finditer(fmt):
        out = out + fmt[pos : m.start()]
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out = out + "%"
            continue
        if key is not None:
            v = getitem(args, key)
        else:
            if i >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[i]
            i += 1
        out = out + _conv(v, flags, width, prec, conv)
    if key_none_left(fmt, i, seq):
        raise TypeError("not all arguments converted during string formatting")
    return out + fmt[pos:]


def key_none_left(fmt, i, seq):
    return i < len(seq) and not (len(seq) == 1 and isinstance(seq[0], dict))


def _userstr(x):
    return isinstance(getattr(type(x), "__str__", None), types.FunctionType)


def zpad(v, n):
    """decimal digits of a symbolic number that has at most n, with leading zeros"""
    if not ENG.branch(z3.And(v._e >= 0, v._e < 10**n)):
        return None
    return V.mkstr([V._simp(48 + (v._e / 10 ** (n - 1 - i)) % 10) for i in range(n)])


def _conv(v, flags, width, prec, conv):
    if conv == "s":
        t = tostr(v)
    elif conv in "ra":
        t = torepr(v)
    elif conv in "di":
        if isinstance(v, SymInt):
            t = zpad(v, int(width)) if width and flags == "0" else None
            if t is None:
                t = v._sx_str()
        elif is_strlike(v) or isinstance(v, SymBytes):
            raise TypeError(
                "%%%s format: a real number is required, not %s" % (conv, "str")
            )
        else:
            return ("%" + flags + (width or "") + conv) % v
    elif issym(v):
        return "<%s>" % conv  # formatted number: opaque text
    else:
        return (
            "%" + flags + (width or "") + ("." + prec if prec else "") + conv
        ) % v
    if prec and conv == "s":
        t = t[: int(prec)]
    if width:
        w = int(width)
        if len(t) < w:
            pad = ("0" if "0" in flags and conv == "d" else " ") * (w - len(t))
            t = t + pad if "-" in flags else pad + t
    return t


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        return str_mod(a, b)
    return a % b


def _fmt_value(v, conversion, spec):
    if conversion == 115:
        v = tostr(v)
    elif conversion in (114, 97):
        v = torepr(v)
    if isinstance(spec, SymStr):
        spec = spec._concrete()
    if spec:
        if isinstance(v, SymStr):
            m = re.fullmatch(r"(.)?([<>^])?(\d+)?s?", spec)
            if m and m.group(3):
                w = int(m.group(3))
                fill = m.group(1) or " "
                return v.rjust(w, fill) if m.group(2) == ">" else v.ljust(w, fill)
            return format(v._concrete(), spec)
        if isinstance(v, SymInt):
            if spec in ("d",):
                return v._sx_str()
            m = re.fullmatch(r"0(\d)d", spec)
            t = zpad(v, int(m.group(1))) if m else None
            if t is not None:
                return t
            return format(v.__index__(), spec)
        if isinstance(v, SymReal):
            return "<%s>" % spec
        return format(v, spec)
    if isinstance(v, SymStr):
        return v
    if getattr(type(v), "_sx", False):
        return v._sx_str()
    fm = type(v).__format__
    if fm is object.__format__ or isinstance(v, (list, tuple)):
        return tostr(v)
    return format(v, "")


def fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, tuple):
            p = _fmt_value(*p)
        out = out + p
    return out


_FIELD = re.compile(r"\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::([^{}]*))?\}")


def str_format(s, a, k):
    if not _deepsym(a) and not _deepsym(tuple(k.values())):
        if not any(_userstr(x) for x in list(a) + list(k.values())):
            return s.format(*a, **k)
    out, pos, auto = "", 0, 0
    for m in _FIELD.finditer(s):
        out = out + s[pos : m.start()]
        pos = m.end()
        if m.group() in ("{{", "}}"):
            out = out + m.group()[0]
            continue
        name, conv, spec = m.groups()
        first, *rest = re.split(r"\.|\[", name)
        if first == "":
            v = a[auto]
            auto += 1
        elif first.isdigit():
            v = a[int(first)]
        else:
            v = k[first]
        for r in rest:
            if r.endswith("]"):
                r = r[:-1]
                v = v[int(r)] if r.isdigit() else v[r]
            else:
                v = getattr(v, r)
        out = out + _fmt_value(v, ord(conv) if conv else -1, spec or "")
    return out + s[pos:]


# --------------------------------------------------------------------- dicts


def _hassym(d):
    return id(d) in ENG.symdicts


def find_key(d, key):
    """the key object of d equal to key on this path, or MISSING"""
    if not issym(key):
        if key in d:
            return key
        if not _hassym(d):
            return MISSING
        for k in ENG.symdicts[id(d)][1]:
            if k in d and _keyeq(k, key):
                return k
        return MISSING
    if isinstance(key, SymStr):
        # one question first: equal to any of the (same length) keys?
        cands, terms = [], []
        n = len(key)
        for k in d:
            if k is key:
                return k
            if is_strlike(k) and len(k) == n:
                t = V.seq_eq(key._c, V.chars_of(k))
                if t is not False:
                    cands.append((k, t))
                    terms.append(t)
        if not terms or not ENG.branch(V.Or(terms)):
            return MISSING
        for k, t in cands[:-1]:
            if ENG.branch(t):
                return k
        # the last one must match (keys are distinct, one of them matches)
        return cands[-1][0] if ENG.branch(cands[-1][1]) else MISSING
    for k in list(d):
        if k is key or _keyeq(k, key):
            return k
    return MISSING


def _keyeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_keyeq(x, y) for x, y in zip(a, b))
    if isinstance(b, (SymStr, SymInt, SymBytes)):
        return b == a
    return a == b


def dict_set(d, key, value):
    ENG.touch(d)
    if issym(key) or _hassym(d):
        k = find_key(d, key)
        if k is not MISSING:
            key = k
        elif issym(key):
            ent = ENG.symdicts.setdefault(id(d), (d, []))
            ent[1].append(key)
    if type(d) is dict:
        dict.__setitem__(d, key, value)
    else:
        d.__setitem__(key, value)


def dict_get(d, key):
    if issym(key) or _hassym(d):
        if not issym(key):
            hash(key)
        k = find_key(d, key)
        if k is MISSING:
            miss = getattr(type(d), "__missing__", None)
            if miss is None:
                raise KeyError(key)
            fac = getattr(d, "default_factory", None)
            if fac is None:
                raise KeyError(key)
            v = fac()
            dict_set(d, key, v)
            return v
        return dict.__getitem__(d, k)
    if isinstance(d, collections.defaultdict):
        ENG.touch(d)
    return d[key]


def _check_hashable(key):
    if isinstance(key, FakeArray):
        raise TypeError("unhashable type: 'numpy.ndarray'")


def dict_method(d, f, name, a, k):
    if a:
        _check_hashable(a[0]) if name in ("get", "pop", "setdefault", "__contains__") else None
    sym = (a and issym(a[0])) or _hassym(d)
    if name == "get":
        if not sym:
            return f(*a, **k)
        kk = find_key(d, a[0])
        if kk is MISSING:
            return a[1] if len(a) > 1 else k.get("default")
        return dict.__getitem__(d, kk)
    if name == "__contains__":
        return f(*a) if not sym else find_key(d, a[0]) is not MISSING
    if name == "__getitem__":
        return dict_get(d, a[0])
    ENG.touch(d)
    if name == "__setitem__":
        return dict_set(d, *a)
    if name == "pop":
        if not sym:
            return f(*a)
        kk = find_key(d, a[0])
        if kk is MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return d.pop(kk)
    if name == "setdefault":
        if not sym:
            return f(*a, **k)
        kk = find_key(d, a[0])
        if kk is MISSING:
            v = a[1] if len(a) > 1 else None
            dict_set(d, a[0], v)
            return v
        return dict.__getitem__(d, kk)
    if name == "update":
        for src in a:
            items = src.items() if hasattr(src, "items") else src
            for kk, v in list(items):
                dict_set(d, kk, v)
        for kk, v in k.items():
            dict_set(d, kk, v)
        return None
    if name == "copy":
        c = f()
        if _hassym(d):
            ENG.symdicts[id(c)] = (c, list(ENG.symdicts[id(d)][1]))
        return c
    return f(*a, **k)


def set_method(s, f, name, a, k):
    ENG.touch(s)
    if name in ("pop", "clear"):
        return f(*a)
    if name == "update":
        for src in a:
            for x in src:
                set_add(s, x)
        return None
    x = a[0]
    if not issym(x) and not _hassym(s):
        return f(*a)
    if name == "add":
        return set_add(s, x)
    k2 = set_find(s, x)
    if name == "__contains__":
        return k2 is not MISSING
    if k2 is MISSING:
        if name == "remove":
            raise KeyError(x)
        return None
    set.discard(s, k2)
    return None


def set_find(s, x):
    if not issym(x):
        if x in s:
            return x
        if not _hassym(s):
            return MISSING
    for y in list(s):
        if y is x or _keyeq(y, x):
            return y
    return MISSING


def set_add(s, x):
    if issym(x) or _hassym(s):
        if set_find(s, x) is not MISSING:
            return
        if issym(x):
            ENG.symdicts.setdefault(id(s), (s, []))[1].append(x)
    set.add(s, x)


def mkset(items):
    s = set()
    for x in items:
        set_add(s, x)
    return s


def mkdict(pairs, into=None):
    d = {} if into is None else into
    for k, v in pairs:
        if k is MISSING:  # ** expansion
            for kk in v.keys():
                dict_set(d, kk, v[kk])
        else:
            dict_set(d, k, v)
    return d


def contains(x, c):
    """x in c"""
    if isinstance(c, dict):
        _check_hashable(x)
        if issym(x) or _hassym(c):
            return find_key(c, x) is not MISSING
        return x in c
    if isinstance(c, (set, frozenset)):
        _check_hashable(x)
        if issym(x) or _hassym(c):
            return set_find(c, x) is not MISSING
        return x in c
    if isinstance(c, type({}.keys())):
        m = getattr(c, "mapping", None)
        if issym(x) or any(issym(k) for k in c):
            for k in c:
                if k is x or _keyeq(k, x):
                    return True
            return False
        _ = m
        return x in c
    if isinstance(c, str) and isinstance(x, SymStr):
        return ENG.branch(V.contains_formula(V.chars_of(c), x._c))
    if isinstance(c, (list, tuple)) and isinstance(x, SymStr):
        # one question for "any of them"
        terms = [
            V.seq_eq(x._c, V.chars_of(y)) for y in c if is_strlike(y)
        ]
        return ENG.branch(V.Or(terms))
    return x in c


def getitem(o, k):
    if isinstance(o, dict):
        _check_hashable(k)
        return dict_get(o, k)
    if isinstance(o, str) and isinstance(k, SymInt):
        return o[k.__index__()]
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict):
        _check_hashable(k)
        return dict_set(o, k, v)
    if isinstance(o, list):
        ENG.touch(o)
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict):
        ENG.touch(o)
        if issym(k) or _hassym(o):
            kk = find_key(o, k)
            if kk is MISSING:
                raise KeyError(k)
            k = kk
    elif isinstance(o, list):
        ENG.touch(o)
    del o[k]


def setattr_(o, name, v):
    if isinstance(name, SymStr):
        name = name._concrete()
    if ENG.active:
        if isinstance(o, type):
            old = vars(o).get(name, MISSING)
        else:
            d = None
            try:
                d = object.__getattribute__(o, "__dict__")
            except AttributeError:
                pass
            old = d.get(name, MISSING) if d is not None else MISSING
        ENG.journal.append(("a", o, name, old))
    setattr(o, name, v)


def delattr_(o, name):
    if ENG.active and not isinstance(o, type):
        d = getattr(o, "__dict__", {})
        ENG.journal.append(("a", o, name, d.get(name, MISSING)))
    delattr(o, name)


HOOKS[setattr] = setattr_
HOOKS[delattr] = delattr_


# ------------------------------------------------------------------ builtins

_INTLIKE = (int,)


def _sx_classes(o):
    """the classes a symbolic object stands for"""
    if isinstance(o, SymStr):
        return (str,)
    if isinstance(o, SymBytes):
        return (numpy.bytes_, bytes)
    if isinstance(o, SymInt):
        return (numpy.int64,) if o._np else (int,)
    if isinstance(o, SymReal):
        return (float,)
    if isinstance(o, FakeArray):
        return (numpy.ndarray,)
    return None


@hook(isinstance)
def isinstance_(o, cls):
    cs = _sx_classes(o)
    if cs is None:
        return isinstance(o, cls)
    if isinstance(cls, tuple):
        return any(isinstance_(o, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(isinstance_(o, c) for c in cls.__args__)
    return any(issubclass(c, cls) for c in cs) or isinstance(o, cls)


@hook(type)
def type_(*a):
    if len(a) == 1:
        cs = _sx_classes(a[0])
        return type(a[0]) if cs is None else cs[0]
    return type(*a)


@hook(str)
def str_(x="", *enc, **k):
    if enc or k:
        if isinstance(x, SymBytes):
            return x.decode(*enc, **k)
        return str(x, *enc, **k)
    return tostr(x)


HOOKS[repr] = torepr


@hook(numpy.str_)
def npstr_(x=""):
    return tostr(x) if issym(x) else numpy.str_(x)


@hook(format)
def format_(v, spec=""):
    return _fmt_value(v, -1, spec)


@hook(int)
def int_(x=0, *base):
    if isinstance(x, SymBytes):
        x = x.text
    if isinstance(x, SymStr):
        if not base and len(x):
            if ENG.branch(V.And([V.in_ranges(c, [(48, 57)]) for c in x._c])):
                e = 0
                for c in x._c:
                    e = e * 10 + (c - 48)
                return V.mkint(e)
            if len(x) > 1 and ENG.branch(
                V.And(
                    [V.Or([V.ceq(x._c[0], 45), V.ceq(x._c[0], 43)])]
                    + [V.in_ranges(c, [(48, 57)]) for c in x._c[1:]]
                )
            ):
                e = 0
                for c in x._c[1:]:
                    e = e * 10 + (c - 48)
                return V.mkint(-e if ENG.branch(V.ceq(x._c[0], 45)) else e)
            # other spellings need a digit somewhere
            if not ENG.branch(
                V.Or([V.in_ranges(c, V.ranges_of("decimal", str.isdecimal)) for c in x._c])
            ):
                raise ValueError("invalid literal for int() with base 10")
        return int(x._concrete(), *base)
    if isinstance(x, SymInt):
        return SymInt(x._e)
    if isinstance(x, FakeArray):
        return int_(x.item())
    return int(x, *base)


@hook(float)
def float_(x=0.0):
    if isinstance(x, SymInt):
        return V.toreal(x)
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymStr):
        return float(x._concrete())
    return float(x)


@hook(bytes)
def bytes_(*a, **k):
    if a and isinstance(a[0], SymStr):
        return SymBytes(a[0])
    if a and isinstance(a[0], SymBytes):
        return a[0]
    return bytes(*a, **k)


@hook(dict)
def dict_(*a, **k):
    if not a:
        return dict(**k)
    src = a[0]
    pairs = src.items() if hasattr(src, "keys") else src
    d = mkdict([(x, y) for x, y in pairs])
    d.update(k)
    return d


@hook(collections.OrderedDict)
def odict_(*a, **k):
    d = collections.OrderedDict()
    if a:
        src = a[0]
        mkdict([(x, y) for x, y in (src.items() if hasattr(src, "keys") else src)], d)
    d.update(k)
    return d


@hook(dict.fromkeys)
def fromkeys_(keys, v=None):
    return mkdict([(x, v) for x in keys])


@hook(set)
def set_(*a):
    return mkset(a[0]) if a else set()


@hook(frozenset)
def frozenset_(*a):
    s = mkset(a[0]) if a else set()
    return s if any(issym(x) for x in s) else frozenset(s)


@hook(collections.Counter)
def counter_(*a, **k):
    if a and not hasattr(a[0], "keys"):
        items = list(a[0])
        if any(issym(x) for x in items):
            c = collections.Counter()
            for x in items:
                key = find_key(c, x)
                dict_set(c, x, (dict.__getitem__(c, key) if key is not MISSING else 0) + 1)
            return c
        return collections.Counter(items)
    return collections.Counter(*a, **k)


@hook(sys.intern)
def intern_(x):
    return x if issym(x) else sys.intern(x)


@hook(os.fspath)
def fspath_(x):
    if issym(x):
        return x
    m = getattr(type(x), "__fspath__", None)
    return m(x) if isinstance(m, types.FunctionType) else os.fspath(x)


@hook(print)
def print_(*a, sep=" ", end="\n", **k):
    if k.get("file") is not None:
        ENG.out.append(("err",) + a)
        return
    out = ""
    for i, x in enumerate(a):
        if i:
            out = out + (sep or " ")
        out = out + tostr(x)
    ENG.out.append(out)


@hook(operator.index)
def index_(x):
    return x if isinstance(x, SymInt) else operator.index(x)


@hook(getattr)
def getattr_(o, name, *d):
    if isinstance(name, SymStr):
        name = name._concrete()
    return getattr(o, name, *d)


@hook(hasattr)
def hasattr_(o, name):
    if isinstance(name, SymStr):
        name = name._concrete()
    cs = _sx_classes(o)
    if cs is not None:
        return hasattr(cs[0], name)
    return hasattr(o, name)


@hook(hash)
def hash_(x):
    _check_hashable(x)
    return hash(x)


@hook(ord)
def ord_(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return V.mkint(x._c[0])
    return ord(x)


@hook(chr)
def chr_(x):
    if isinstance(x, SymInt):
        return V.mkstr((x._e,))
    return chr(x)


@hook(max)
def max_(*a, **k):
    return max(*a, **k)


@hook(sum)
def sum_(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


# ------------------------------------------------------------------- regexps


def re_method(rx, f, name, a, k):
    s = None
    if name in ("match", "fullmatch", "search", "findall", "split", "finditer"):
        s = a[0] if a else k.get("string")
    elif name == "sub":
        s = a[1] if len(a) > 1 else k.get("string")
    if isinstance(s, (FakeArray, list, SymInt)):
        raise TypeError("expected string or bytes-like object")
    if not issym(s):
        return f(*a, **k)
    if isinstance(s, SymBytes):
        raise TypeError("cannot use a string pattern on a bytes-like object")
    if name in ("match", "fullmatch", "search"):
        if len(a) > 1:
            raise Inconclusive("re pos")
        return regex.do_match(rx, s, name)
    if name == "sub":
        return regex.do_sub(rx, a[0], s, *a[2:])
    if name == "split":
        return regex.do_split(rx, s, *a[1:])
    if name == "findall":
        return regex.do_findall(rx, s)
    raise Inconclusive("re." + name)


def _re_fn(name):
    orig = getattr(re, name)

    def fn(pattern, *a, flags=0, **k):
        if isinstance(pattern, SymStr):
            pattern = pattern._concrete()
        if name in ("match", "fullmatch", "search") and len(a) > 1:
            flags = a[1]
            a = a[:1]
        rx = re.compile(pattern, flags)
        return re_method(rx, getattr(rx, name), name, a, k)

    HOOKS[orig] = fn


for _n in "match fullmatch search sub split findall finditer".split():
    _re_fn(_n)


@hook(re.escape)
def escape_(p):
    return re.escape(p._concrete() if isinstance(p, SymStr) else p)


# ---------------------------------------------------------------- environment


def _nolog(self, *a, **k):
    return None


for _n in "debug info warning error critical exception log".split():
    HOOKS[getattr(logging.Logger, _n)] = _nolog
    if _n not in ("debug", "log"):
        def _loglog(self, *a, _name=_n, **k):
            ENG.out.append(("log", _name) + a)

        HOOKS[getattr(logging.Logger, _n)] = _loglog
    if hasattr(logging, _n):
        def _rootlog(*a, _name=_n, **k):
            ENG.out.append(("log", _name) + a)

        HOOKS[getattr(logging, _n)] = _rootlog


class FakeHash:
    """a collision-free hash: equal digests exactly for equal content"""

    _sx = True

    def __init__(self, data=b""):
        self.text = ""
        self.update(data)

    def update(self, data):
        if isinstance(data, SymBytes):
            data = data.text
        else:
            data = bytes(data).decode("utf8")
        self.text = self.text + data

    def hexdigest(self):
        return SymBytesDigest(self.text)

    digest = hexdigest


class SymBytesDigest:
    def __init__(self, text):
        self.text = text

    def __eq__(self, o):
        return isinstance(o, SymBytesDigest) and o.text == self.text

    def __ne__(self, o):
        return not self == o

    __hash__ = None


for _n in "md5 sha1 sha256 blake2b".split():
    HOOKS[getattr(hashlib, _n)] = lambda data=b"", **k: FakeHash(data)


def enter(name):
    ENG.entered.add(name)


_ = (SxControl,)
