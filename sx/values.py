"""
Symbolic values: strings (known length, unknown characters), byte strings,
integers, reals, and a stand-in for small numpy arrays.

Comparisons fork at once and return real Python booleans, so the code under
test needs no knowledge of symbolic truth values.
"""

import sys

import numpy
import z3

from .core import ENG, Inconclusive

# ---------------------------------------------------------------- characters

_RANGES = {}


def ranges_of(name, pred, limit=0x2FFFF):
    """code point ranges where pred(chr) holds"""
    if name not in _RANGES:
        out, start = [], None
        for cp in range(limit + 1):
            if 0xD800 <= cp <= 0xDFFF:
                ok = False
            else:
                ok = bool(pred(chr(cp)))
            if ok and start is None:
                start = cp
            elif not ok and start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, limit))
        _RANGES[name] = out
    return _RANGES[name]


# alphabet of the run: code point ranges, in order; every table is cut to it
ALPHABET = [(1, 0x24F)]
QUICK = [(1, 0x24F), (0x660, 0x669), (0x2028, 0x2029), (0x212A, 0x212A)]
DEEP = [(1, 0x2FFF), (0xFF10, 0xFF1F)]
_CLIP = {}


def set_alphabet(ranges):
    ALPHABET[:] = ranges
    _CLIP.clear()
    _CASE.clear()


def clip(ranges):
    key = None
    if len(ranges) > 4:
        key = id(ranges)  # the tables live as long as the process
        if key in _CLIP:
            return _CLIP[key][1]
    out = []
    for a, b in ranges:
        for x, y in ALPHABET:
            lo, hi = max(a, x), min(b, y)
            if lo <= hi:
                out.append((lo, hi))
    if key is not None:
        _CLIP[key] = (ranges, out)
    return out


def in_ranges(c, ranges):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ranges)
    alts = []
    for a, b in clip(ranges):
        alts.append(c == a if a == b else z3.And(c >= a, c <= b))
    return Or(alts)


class Table:
    """a set of characters, known over the alphabet"""

    def __init__(self, pred):
        self.pred = pred
        self.made = None

    def test(self, c):
        if isinstance(c, int):
            return bool(self.pred(chr(c)))
        if self.made is None or self.made[0] != tuple(ALPHABET):
            out = []
            for a, b in ALPHABET:
                for cp in range(a, b + 1):
                    if not 0xD800 <= cp <= 0xDFFF and self.pred(chr(cp)):
                        if out and out[-1][1] == cp - 1:
                            out[-1] = (out[-1][0], cp)
                        else:
                            out.append((cp, cp))
            self.made = (tuple(ALPHABET), out)
        return Or([c == a if a == b else z3.And(c >= a, c <= b) for a, b in self.made[1]])


_CASE = {}


def case_map(name):
    """the change of case over the alphabet: [(delta, ranges)], [expanding code points]"""
    if name not in _CASE:
        deltas, multi = {}, []
        f = getattr(str, name)
        for a, b in ALPHABET:
            for cp in range(a, b + 1):
                if 0xD800 <= cp <= 0xDFFF:
                    continue
                r = f(chr(cp))
                if len(r) != 1:
                    multi.append(cp)
                elif ord(r) != cp:
                    rs = deltas.setdefault(ord(r) - cp, [])
                    if rs and rs[-1][1] == cp - 1:
                        rs[-1] = (rs[-1][0], cp)
                    else:
                        rs.append((cp, cp))
        _CASE[name] = (sorted(deltas.items()), multi)
    return _CASE[name]


def And(xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(ys)


def Or(xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(ys)


def Not(x):
    if x is True or x is False:
        return not x
    return z3.Not(x)


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def clt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return a < b


# ------------------------------------------------------------------- strings


def mkstr(chars):
    chars = tuple(chars)
    for c in chars:
        if not isinstance(c, int):
            return SymStr(chars)
    return "".join(map(chr, chars))


def chars_of(s):
    if isinstance(s, SymStr):
        return s._c
    return tuple(map(ord, s))


def is_strlike(x):
    return isinstance(x, (str, SymStr))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    terms = []
    for x, y in zip(a, b):
        if x is y:
            continue
        t = ceq(x, y)
        if t is False:
            return False
        terms.append(t)
    return And(terms)


def seq_lt(a, b):
    n = min(len(a), len(b))
    res = len(a) < len(b)
    for i in reversed(range(n)):
        lt = clt(a[i], b[i])
        eq = ceq(a[i], b[i])
        res = Or([lt, And([eq, res])])
    return res


def _unsup(name):
    def method(self, *a, **k):
        ENG.unmodelled[name] = ENG.unmodelled.get(name, 0) + 1
        return getattr(self._concrete(), name)(*a, **k)

    return method


class SymStr:
    __slots__ = ("_c", "_h")
    _sx = True

    def __init__(self, chars):
        self._c = tuple(chars)
        ENG.fresh_n += 1
        self._h = hash(("SymStr", ENG.fresh_n))

    # identity hash: dict access with symbolic keys goes through the hooks
    def __hash__(self):
        return self._h

    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return len(self._c) > 0

    def __eq__(self, o):
        if self is o:
            return True
        if not is_strlike(o):
            return False if not hasattr(o, "_sx_eq") else o._sx_eq(self)
        return ENG.branch(seq_eq(self._c, chars_of(o)))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return ENG.branch(seq_lt(self._c, chars_of(o)))

    def __gt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return ENG.branch(seq_lt(chars_of(o), self._c))

    def __le__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return not self.__gt__(o)

    def __ge__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return not self.__lt__(o)

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkstr(self._c + chars_of(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkstr(chars_of(o) + self._c)

    def __mul__(self, n):
        return mkstr(self._c * int(n))

    __rmul__ = __mul__

    def __contains__(self, o):
        if not is_strlike(o):
            raise TypeError(
                "'in <string>' requires string as left operand, not "
                + type(o).__name__
            )
        return ENG.branch(contains_formula(self._c, chars_of(o)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self._c[i])
        return mkstr((self._c[i],))

    def __iter__(self):
        for c in self._c:
            yield mkstr((c,))

    def __repr__(self):
        return "<sym %s>" % "".join(chr(c) if isinstance(c, int) else "?" for c in self._c)

    def __str__(self):
        return self._concrete()

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __mod__(self, args):
        from . import hooks

        return hooks.str_mod(self, args)

    def _concrete(self):
        """concretise (forks over values; last resort)"""
        res = []
        for c in self._c:
            res.append(c if isinstance(c, int) else ENG.enum_int(c, "character"))
        return "".join(map(chr, res))

    # -- methods
    def startswith(self, p, start=None, end=None):
        c = self._c[slice(start, end)]
        if isinstance(p, tuple):
            return ENG.branch(Or([_starts(c, chars_of(x)) for x in p]))
        return ENG.branch(_starts(c, chars_of(p)))

    def endswith(self, p, start=None, end=None):
        c = self._c[slice(start, end)]
        if isinstance(p, tuple):
            return ENG.branch(Or([_ends(c, chars_of(x)) for x in p]))
        return ENG.branch(_ends(c, chars_of(p)))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if p and self.endswith(p) else self

    def find(self, sub, start=0, end=None):
        sub = chars_of(sub)
        n = len(self._c) if end is None else min(end, len(self._c))
        if start < 0:
            start = max(0, len(self._c) + start)
        for i in range(start, n - len(sub) + 1):
            if ENG.branch(seq_eq(self._c[i : i + len(sub)], sub)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = chars_of(sub)
        n = len(self._c) if end is None else min(end, len(self._c))
        for i in reversed(range(start, n - len(sub) + 1)):
            if ENG.branch(seq_eq(self._c[i : i + len(sub)], sub)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        if not len(sub):
            return len(self) + 1
        n, i = 0, 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += len(sub)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        if not len(sep):
            raise ValueError("empty separator")
        out, start = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(mkstr(self._c[start:i]))
            start = i + len(sep)
        out.append(mkstr(self._c[start:]))
        return out

    def _split_ws(self, maxsplit):
        out, cur = [], []
        for i, c in enumerate(self._c):
            if ENG.branch(in_ranges(c, ranges_of("space", str.isspace))):
                if cur:
                    out.append(mkstr(cur))
                    cur = []
            else:
                if 0 <= maxsplit == len(out) and not cur:
                    out.append(mkstr(self._c[i:]))
                    return out
                cur.append(c)
        if cur:
            out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 or sep is None:
            return self.split(sep)
        out, end = [], len(self._c)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.insert(0, mkstr(self._c[i + len(sep) : end]))
            end = i
        out.insert(0, mkstr(self._c[:end]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def splitlines(self, keepends=False):
        return _unsup("splitlines")(self, keepends)

    def replace(self, a, b, n=-1):
        if not len(a):
            return self._concrete().replace(a, b, n)
        parts = self.split(a, n)
        out = ()
        for i, p in enumerate(parts):
            if i:
                out += chars_of(b)
            out += chars_of(p)
        return mkstr(out)

    def _strip(self, chars, left, right):
        if chars is None:
            rng = ranges_of("space", str.isspace)

            def test(c):
                return in_ranges(c, rng)

        else:
            cs = chars_of(chars)

            def test(c):
                return Or([ceq(c, x) for x in cs])

        i, j = 0, len(self._c)
        if left:
            while i < j and ENG.branch(test(self._c[i])):
                i += 1
        if right:
            while j > i and ENG.branch(test(self._c[j - 1])):
                j -= 1
        return mkstr(self._c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _case(self, name):
        out = []
        for c in self._c:
            if isinstance(c, int):
                out.extend(map(ord, getattr(chr(c), name)()))
                continue
            if not ENG.branch(c < 128):
                deltas, multi = case_map(name)
                if multi and ENG.branch(Or([c == m for m in multi])):
                    v = ENG.enum_int(c, "character")
                    out.extend(map(ord, getattr(chr(v), name)()))
                    continue
                r = c
                for d, ranges in deltas:
                    r = z3.If(
                        Or([c == a if a == b else z3.And(c >= a, c <= b) for a, b in ranges]),
                        c + d,
                        r,
                    )
                out.append(r)
            elif name == "upper":
                out.append(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))
            else:
                out.append(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
        return mkstr(out)

    def lower(self):
        return self._case("lower")

    def casefold(self):
        return self._case("casefold")

    def upper(self):
        return self._case("upper")

    def _allin(self, name, pred):
        if not self._c:
            return False
        r = ranges_of(name, pred)
        return ENG.branch(And([in_ranges(c, r) for c in self._c]))

    def isdigit(self):
        return self._allin("digit", str.isdigit)

    def isdecimal(self):
        return self._allin("decimal", str.isdecimal)

    def isnumeric(self):
        return self._allin("numeric", str.isnumeric)

    def isalpha(self):
        return self._allin("alpha", str.isalpha)

    def isalnum(self):
        return self._allin("alnum", str.isalnum)

    def isspace(self):
        return self._allin("space", str.isspace)

    def isascii(self):
        return ENG.branch(And([c < 128 for c in self._c]))

    def isprintable(self):
        return ENG.branch(
            And([in_ranges(c, ranges_of("print", str.isprintable)) for c in self._c])
        )

    def isidentifier(self):
        if not self._c:
            return False
        a = ranges_of("idstart", str.isidentifier)
        b = ranges_of("idcont", lambda ch: ("a" + ch).isidentifier())
        return ENG.branch(
            And([in_ranges(self._c[0], a)] + [in_ranges(c, b) for c in self._c[1:]])
        )

    def encode(self, enc="utf8", errors="strict"):
        return SymBytes(self)

    def join(self, seq):
        out = ()
        for i, p in enumerate(seq):
            if not is_strlike(p):
                raise TypeError(
                    "sequence item %d: expected str instance, %s found"
                    % (i, type(p).__name__)
                )
            if i:
                out += self._c
            out += chars_of(p)
        return mkstr(out)

    def ljust(self, w, fill=" "):
        return mkstr(self._c + chars_of(fill) * max(0, w - len(self)))

    def rjust(self, w, fill=" "):
        return mkstr(chars_of(fill) * max(0, w - len(self)) + self._c)

    def format(self, *a, **k):
        return self._concrete().format(*a, **k)


for _n in (
    "capitalize center expandtabs format_map islower istitle isupper "
    "swapcase title translate zfill"
).split():
    setattr(SymStr, _n, _unsup(_n))


def _starts(c, p):
    return len(p) <= len(c) and seq_eq(c[: len(p)], p)


def _ends(c, p):
    return len(p) <= len(c) and seq_eq(c[len(c) - len(p) :], p)


def contains_formula(c, p):
    return Or([seq_eq(c[i : i + len(p)], p) for i in range(len(c) - len(p) + 1)])


# --------------------------------------------------------------------- bytes


class SymBytes:
    """bytes whose UTF-8 decoding is a (symbolic or concrete) string"""

    _sx = True

    def __init__(self, text):
        self.text = text
        ENG.fresh_n += 1
        self._h = hash(("SymBytes", ENG.fresh_n))

    def __hash__(self):
        return self._h

    @property
    def dtype(self):
        import numpy

        return numpy.dtype("S%d" % max(1, len(self)))

    def decode(self, enc="utf8", errors="strict"):
        if not _is_utf8(enc):
            if isinstance(self.text, SymStr):
                for c in self.text._c:
                    if not ENG.branch(c < 128):
                        raise Inconclusive("decode " + str(enc))
            else:
                return self.text.encode("utf8").decode(enc, errors)
        return self.text

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.text == o.text
        if isinstance(o, bytes):
            try:
                return self.text == o.decode("utf8")
            except UnicodeDecodeError:
                return False
        return False

    def __ne__(self, o):
        return not self == o

    def __len__(self):
        if isinstance(self.text, str):
            return len(self.text.encode("utf8"))
        n = 0
        for c in self.text._c:
            if ENG.branch(c < 128):
                n += 1
            elif ENG.branch(c < 0x800):
                n += 2
            elif ENG.branch(c < 0x10000):
                n += 3
            else:
                n += 4
        return n

    def __bool__(self):
        return len(self.text) > 0

    def __add__(self, o):
        if isinstance(o, bytes):
            o = SymBytes(o.decode("utf8"))
        if not isinstance(o, SymBytes):
            return NotImplemented
        return SymBytes(self.text + o.text)

    def __radd__(self, o):
        if isinstance(o, bytes):
            return SymBytes(o.decode("utf8") + self.text)
        return NotImplemented

    def __getitem__(self, i):
        return str(self.text).encode("utf8")[i]

    def __iter__(self):
        return iter(str(self.text).encode("utf8"))

    def __repr__(self):
        return "<symbytes %r>" % (self.text,)

    def _sx_str(self):
        # str(b"abc") == "b'abc'": printable ascii without quotes and
        # backslashes is the plain case; anything else concretises
        t = self.text
        if isinstance(t, SymStr):
            plain = And(
                [And([c >= 32, c < 127, c != 39, c != 92]) for c in map(_z, t._c)]
            )
            if ENG.branch(plain):
                return "b'" + t + "'"
            t = t._concrete()
        return str(t.encode("utf8"))


def _z(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def _is_utf8(enc):
    return str(enc).lower().replace("-", "").replace("_", "") in ("utf8", "u8")


# ------------------------------------------------------------------ integers


def mkint(e, np=False):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return numpy.int64(e.as_long()) if np else e.as_long()
    return SymInt(e, np)


def iexpr(x):
    if isinstance(x, SymInt):
        return x._e
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    return None


class SymInt:
    __slots__ = ("_e", "_np", "_h")
    _sx = True

    def __init__(self, e, np=False):
        self._e = e
        self._np = np
        ENG.fresh_n += 1
        self._h = hash(("SymInt", ENG.fresh_n))

    def __hash__(self):
        return self._h

    def _cmp(self, o, op):
        if isinstance(o, (float, SymReal)):
            return op(SymReal(z3.ToReal(self._e)), o)
        x = iexpr(o)
        if x is None:
            return NotImplemented
        return ENG.branch(op(self._e, x))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ENG.branch(self._e != 0)

    def _ar(self, o, f):
        if isinstance(o, (float, SymReal)):
            return f(SymReal(z3.ToReal(self._e)), o)
        x = iexpr(o)
        if x is None:
            return NotImplemented
        return mkint(f(self._e, x), self._np)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self._e, self._np)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self._e)) / o

    def __rtruediv__(self, o):
        return toreal(o) / SymReal(z3.ToReal(self._e))

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def _divmod(self, o):
        x = iexpr(o)
        if not isinstance(x, int):
            x = ENG.enum_int(x)
        if x == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if x > 0:
            return mkint(self._e / x), mkint(self._e % x)
        # floor semantics for a negative divisor
        q, r = (-self._e) / (-x), (-self._e) % (-x)
        return mkint(q), mkint(-r)

    def __index__(self):
        return ENG.enum_int(self._e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return "<symint %s>" % self._e

    def _sx_str(self):
        e = self._e
        sign = ()
        if ENG.branch(e < 0):
            sign, e = (45,), -e
        n = 1
        while not ENG.branch(e < 10**n):
            n += 1
            if n > 20:
                raise Inconclusive("digits")
        digits = [48 + (e / 10**k) % 10 for k in reversed(range(n))]
        return mkstr(sign + tuple(_simp(d) for d in digits))

    def item(self):
        return SymInt(self._e)


def _simp(d):
    d = z3.simplify(d)
    return d.as_long() if z3.is_int_value(d) else d


def toreal(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x._e))
    if isinstance(x, (int, numpy.integer)):
        return SymReal(z3.RealVal(int(x)))
    if isinstance(x, (float, numpy.floating)):
        return SymReal(z3.RealVal(repr(float(x))))
    return None


class SymReal:
    """exact rational arithmetic; stands for float (rounding is out of scope)"""

    __slots__ = ("_e",)
    _sx = True

    def __init__(self, e):
        self._e = e

    __hash__ = None

    def _cmp(self, o, op):
        x = toreal(o)
        if x is None:
            return NotImplemented
        return ENG.branch(op(self._e, x._e))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ENG.branch(self._e != 0)

    def _ar(self, o, f):
        x = toreal(o)
        if x is None:
            return NotImplemented
        return SymReal(f(self._e, x._e))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        x = toreal(o)
        if x is None:
            return NotImplemented
        if ENG.branch(x._e == 0):
            raise ZeroDivisionError("float division by zero")
        return SymReal(self._e / x._e)

    def __rtruediv__(self, o):
        return toreal(o) / self

    def __neg__(self):
        return SymReal(-self._e)

    def __repr__(self):
        return "<symreal %s>" % self._e

    def _sx_str(self):
        return repr(self)


# -------------------------------------------------------------------- arrays


class FakeDtype:
    def __init__(self, kind, text=None, itemsize=8):
        self.kind = kind
        self.text = text or {"O": "object", "S": "|S%d" % itemsize, "i": "int64", "f": "float64", "U": "<U%d" % itemsize}[kind]
        self.itemsize = itemsize
        self.char = {"i": "l", "f": "d"}.get(kind, kind)
        self.name = self.text
        self.type = {
            "O": numpy.object_,
            "S": numpy.bytes_,
            "U": numpy.str_,
            "i": numpy.int64,
            "f": numpy.float64,
        }[kind]
        self.names = None
        self.metadata = None

    def __str__(self):
        return self.text

    def __eq__(self, o):
        return isinstance(o, FakeDtype) and (o.kind, o.itemsize) == (self.kind, self.itemsize) or o == self.text

    __hash__ = None


class FakeArray:
    """one-dimensional numpy.ndarray stand-in (kinds O, S, i, f)"""

    _sx = True

    def __init__(self, items, kind, itemsize=8, shape=None):
        self._items = list(items)
        self.dtype = FakeDtype(kind, itemsize=itemsize)
        self.shape = (len(self._items),) if shape is None else shape
        self.size = len(self._items)
        self.ndim = len(self.shape)

    __hash__ = None

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return FakeArray(self._items[i], self.dtype.kind, self.dtype.itemsize)
        if i == () and isinstance(i, tuple):
            return self
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, (str, SymStr)):
            raise IndexError("only integers, slices (`:`), ... are valid indices")
        try:
            return self._items[i]
        except IndexError:
            raise IndexError(
                "index %s is out of bounds for axis 0 with size %d" % (i, len(self._items))
            )

    def __bool__(self):
        if len(self._items) == 0:
            return False
        if len(self._items) == 1:
            return bool(self._items[0])
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous."
            " Use a.any() or a.all()"
        )

    def __eq__(self, o):
        if isinstance(o, (list, tuple, FakeArray)):
            o = list(o)
            if len(o) != len(self._items) and len(o) != 1 and len(self._items) != 1:
                raise ValueError("operands could not be broadcast together")
            if len(o) == 1:
                o = o * len(self._items)
            return BoolArray([a == b for a, b in zip(self._items, o)])
        return BoolArray([a == o for a in self._items])

    def __ne__(self, o):
        r = self.__eq__(o)
        return BoolArray([not x for x in r._items])

    def astype(self, t, *a, **k):
        if t in ("U", str, "str", "unicode", numpy.str_) or str(t).startswith(("U", "<U")):
            out = []
            for x in self._items:
                if isinstance(x, SymBytes):
                    out.append(_ascii_decode(x))
                elif isinstance(x, bytes):
                    out.append(x.decode("ascii"))
                elif is_strlike(x):
                    out.append(x)
                else:
                    out.append(x._sx_str() if hasattr(x, "_sx_str") else str(x))
            return FakeArray(out, "U", self.dtype.itemsize)
        raise Inconclusive("astype %r" % (t,))

    def tolist(self):
        out = []
        for x in self._items:
            if isinstance(x, SymInt):
                x = SymInt(x._e)
            elif isinstance(x, numpy.generic):
                x = x.item()
            out.append(x)
        return out

    def item(self, i=None):
        if i is None and len(self._items) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.tolist()[i or 0]

    def flatten(self):
        return self

    ravel = flatten

    @property
    def flat(self):
        return iter(self._items)

    def __repr__(self):
        return "<array %r>" % (self._items,)

    def _sx_str(self):
        if any(getattr(x, "_sx", False) for x in self._items):
            out = "["
            for i, x in enumerate(self._items):
                if i:
                    out = out + " "
                if is_strlike(x):
                    out = out + "'" + x + "'"
                elif hasattr(x, "_sx_str"):
                    out = out + x._sx_str()
                else:
                    out = out + str(x)
            return out + "]"
        return str(numpy.array(self._items, dtype=object if self.dtype.kind == "O" else None))


def _ascii_decode(b):
    t = b.text
    if isinstance(t, SymStr):
        if ENG.branch(And([c < 128 for c in t._c])):
            return t
        raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
    t.encode("ascii")
    return t


class BoolArray(FakeArray):
    def __init__(self, items):
        FakeArray.__init__(self, items, "i")
        self.dtype.kind = "b"

    def any(self):
        return any(self._items)

    def all(self):
        return all(self._items)


def issym(x):
    if getattr(type(x), "_sx", False):
        return True
    if type(x) in (tuple,):
        return any(issym(y) for y in x)
    return False


_ = sys
