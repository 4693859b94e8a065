"""
Python ``re`` on symbolic strings.

``exists(pattern, s, pos, full)`` is a formula (no forking) that says whether a
match exists; ``find_match`` walks the backtracking search with forks and gives
the exact span and groups Python would report.
"""

import re
import re._constants as C
import re._parser as P

from . import values as V
from .core import ENG, Inconclusive

_PARSED = {}


def parsed(p, flags):
    k = (p, flags)
    if k not in _PARSED:
        _PARSED[k] = P.parse(p, flags)
    return _PARSED[k]


_CAT = {
    C.CATEGORY_DIGIT: ("digit_re", lambda ch: ch.isdecimal()),
    C.CATEGORY_SPACE: ("space_re", lambda ch: re.match(r"\s", ch) is not None),
    C.CATEGORY_WORD: ("word_re", lambda ch: ch == "_" or ch.isalnum()),
}
_NCAT = {
    C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
    C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
    C.CATEGORY_NOT_WORD: C.CATEGORY_WORD,
}


def cat(c, code, flags):
    if code in _NCAT:
        return V.Not(cat(c, _NCAT[code], flags))
    name, pred = _CAT[code]
    if flags & re.ASCII:
        base = pred
        name, pred = name + "_a", (lambda ch: ord(ch) < 128 and base(ch))
    return V.in_ranges(c, V.ranges_of(name, pred))


def char_test(op, av, c, flags):
    if flags & re.IGNORECASE:
        return _icase(op, av, c, flags)
    if op is C.LITERAL:
        return V.ceq(c, av)
    if op is C.NOT_LITERAL:
        return V.Not(V.ceq(c, av))
    if op is C.ANY:
        return True if flags & re.DOTALL else V.Not(V.ceq(c, 10))
    if op is C.CATEGORY:
        return cat(c, av, flags)
    if op is C.RANGE:
        return V.in_ranges(c, [av])
    if op is C.IN:
        neg = False
        alts = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            else:
                alts.append(char_test(o, a, c, flags))
        r = V.Or(alts)
        return V.Not(r) if neg else r
    raise Inconclusive("regex op %s" % op)


_ICASE = {}


def _icase(op, av, c, flags):
    """one character, case ignored: asked of re itself, for the whole alphabet"""
    key = (repr((op, av)), flags & (re.ASCII | re.DOTALL | re.UNICODE))
    if key not in _ICASE:
        state = re._parser.State()
        state.flags = flags
        state.str = ""
        pat = re._compiler.compile(re._parser.SubPattern(state, [(op, av)]), flags)
        _ICASE[key] = V.Table(lambda ch: pat.fullmatch(ch) is not None)
    return _ICASE[key].test(c)


_CHAR_OPS = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


class _Formula:
    def __init__(self, chars, flags):
        self.s = chars
        self.n = len(chars)
        self.flags = flags
        self.memo = {}
        self.keep = []

    def seq(self, items, idx, i, k):
        """formula: items[idx:] match from i and then continuation k holds"""
        if idx == len(items):
            return k(i)
        op, av = items[idx]
        if op in _CHAR_OPS:
            if i >= self.n:
                return False
            t = char_test(op, av, self.s[i], self.flags)
            if t is False:
                return False
            return V.And([t, self.seq(items, idx + 1, i + 1, k)])

        def nxt(j):
            return self.seq(items, idx + 1, j, k)

        if op is C.AT:
            return V.And([self.at(av, i), nxt(i)])
        if op is C.SUBPATTERN:
            _g, add, rem, sub = av
            if not (add or rem):
                return self.seq(list(sub), 0, i, nxt)
            outer = self.flags
            inner = (outer | add) & ~rem

            def after(j):
                self.flags = outer
                r = nxt(j)
                self.flags = inner
                return r

            self.flags = inner
            r = self.seq(list(sub), 0, i, after)
            self.flags = outer
            return r
        if op is C.BRANCH:
            return V.Or([self.seq(list(b), 0, i, nxt) for b in av[1]])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            memo = {}

            def rep(count, j):
                c = min(count, lo) if hi is C.MAXREPEAT else count
                key = (c, j)
                if key in memo:
                    return memo[key]
                alts = []
                if count >= lo:
                    alts.append(nxt(j))
                if hi is C.MAXREPEAT or count < hi:
                    if not (alts and alts[0] is True):
                        alts.append(
                            self.seq(
                                sub,
                                0,
                                j,
                                lambda e: rep(count + 1, e)
                                if e > j
                                else (nxt(e) if count + 1 >= lo else rep(count + 1, e)),
                            )
                        )
                memo[key] = V.Or(alts)
                return memo[key]

            return rep(0, i)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction > 0:
                r = self.seq(list(sub), 0, i, lambda j: True)
            else:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Inconclusive("regex lookbehind")
                st = i - w[0]
                r = st >= 0 and self.seq(list(sub), 0, st, lambda j: j == i)
            return V.And([V.Not(r) if op is C.ASSERT_NOT else r, nxt(i)])
        raise Inconclusive("regex op %s" % op)

    def at(self, code, i):
        s, n = self.s, self.n
        if code in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                return True
            if code is C.AT_BEGINNING and self.flags & re.MULTILINE:
                return V.ceq(s[i - 1], 10)
            return False
        if code is C.AT_END:
            if i == n:
                return True
            if self.flags & re.MULTILINE:
                return V.ceq(s[i], 10)
            return i == n - 1 and V.ceq(s[i], 10)
        if code is C.AT_END_STRING:
            return i == n
        if code in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = cat(s[i - 1], C.CATEGORY_WORD, self.flags) if i > 0 else False
            b = cat(s[i], C.CATEGORY_WORD, self.flags) if i < n else False
            x = V.Or([V.And([a, V.Not(b)]), V.And([V.Not(a), b])])
            return V.Not(x) if code is C.AT_NON_BOUNDARY else x
        raise Inconclusive("regex at %s" % code)


def exists(pattern, flags, s, pos=0, full=False):
    tree = parsed(pattern, flags)
    chars = V.chars_of(s)
    f = _Formula(chars, flags | tree.state.flags)
    end = (lambda j: j == len(chars)) if full else (lambda j: True)
    return f.seq(list(tree), 0, pos, end)


class SymMatch:
    """match object; the span is only worked out when asked for"""

    def __init__(self, pattern, flags, s, pos, full, rx):
        self.string = s
        self.re = rx
        self.pos = 0
        self.endpos = len(s)
        self._a = (pattern, flags, s, pos, full)
        self._done = None

    def __bool__(self):
        return True

    def _run(self):
        if self._done is None:
            self._done = _backtrack(*self._a)
        return self._done

    def span(self, g=0):
        groups = self._run()
        if isinstance(g, str):
            g = parsed(self._a[0], self._a[1]).state.groupdict[g]
        return groups.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self.span(g)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        n = parsed(self._a[0], self._a[1]).state.groups
        out = []
        for g in range(1, n):
            v = self.group(g)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self):
        d = parsed(self._a[0], self._a[1]).state.groupdict
        return {k: self.group(v) for k, v in d.items()}


def _backtrack(pattern, flags, s, pos, full):
    tree = parsed(pattern, flags)
    fl = flags | tree.state.flags
    chars = V.chars_of(s)
    n = len(chars)
    F = _Formula(chars, fl)

    def m(items, idx, i, groups, k):
        if idx == len(items):
            return k(i, groups)
        op, av = items[idx]
        if op in _CHAR_OPS:
            if i < n and ENG.branch(char_test(op, av, chars[i], fl)):
                return m(items, idx + 1, i + 1, groups, k)
            return None

        def nxt(j, g):
            return m(items, idx + 1, j, g, k)

        if op is C.AT:
            return nxt(i, groups) if ENG.branch(F.at(av, i)) else None
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Inconclusive("regex groups with inline flags")

            def after(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return nxt(j, g)

            return m(list(sub), 0, i, groups, after)
        if op is C.BRANCH:
            for b in av[1]:
                r = m(list(b), 0, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(count, j, g):
                def more():
                    if hi is C.MAXREPEAT or count < hi:
                        return m(
                            sub,
                            0,
                            j,
                            g,
                            lambda e, g2: rep(count + 1, e, g2)
                            if e > j or count < lo
                            else None,
                        )
                    return None

                def stop():
                    return nxt(j, g) if count >= lo else None

                for f in (more, stop) if op is C.MAX_REPEAT else (stop, more):
                    r = f()
                    if r is not None:
                        return r
                return None

            return rep(0, i, groups)
        if op in (C.ASSERT, C.ASSERT_NOT):
            f = F.seq([(op, av)], 0, i, lambda j: True)
            return nxt(i, groups) if ENG.branch(f) else None
        raise Inconclusive("regex op %s" % op)

    def final(j, g):
        if full and j != n:
            return None
        g = dict(g)
        g[0] = (pos, j)
        return g

    r = m(list(tree), 0, pos, {}, final)
    if r is None:
        raise Inconclusive("regex span")
    return r


def do_match(rx, s, mode):
    """rx: re.Pattern; mode: match | fullmatch | search"""
    p, fl = rx.pattern, rx.flags
    if isinstance(s, V.SymBytes):
        raise TypeError("cannot use a string pattern on a bytes-like object")
    if mode in ("match", "fullmatch"):
        full = mode == "fullmatch"
        if ENG.branch(exists(p, fl, s, 0, full)):
            return SymMatch(p, fl, s, 0, full, rx)
        return None
    for i in range(len(s) + 1):
        if ENG.branch(exists(p, fl, s, i)):
            return SymMatch(p, fl, s, i, False, rx)
    return None


def do_sub(rx, repl, s, count=0):
    if not isinstance(repl, str) or "\\" in repl:
        raise Inconclusive("re.sub replacement")
    out, i, n = (), 0, 0
    chars = V.chars_of(s)
    while i <= len(chars):
        if (not count or n < count) and ENG.branch(exists(rx.pattern, rx.flags, s, i)):
            a, b = SymMatch(rx.pattern, rx.flags, s, i, False, rx).span()
            out += V.chars_of(repl)
            n += 1
            if b == a:
                if i < len(chars):
                    out += (chars[i],)
                i += 1
            else:
                i = b
        else:
            if i < len(chars):
                out += (chars[i],)
            i += 1
    return V.mkstr(out)


def do_split(rx, s, maxsplit=0):
    out, i, last = [], 0, 0
    n = len(s)
    while i < n and (not maxsplit or len(out) < maxsplit):
        if ENG.branch(exists(rx.pattern, rx.flags, s, i)):
            a, b = SymMatch(rx.pattern, rx.flags, s, i, False, rx).span()
            if b > a:
                out.append(s[last:a])
                i = last = b
                continue
        i += 1
    out.append(s[last:])
    return out


def do_findall(rx, s):
    out, i = [], 0
    while i <= len(s):
        if ENG.branch(exists(rx.pattern, rx.flags, s, i)):
            m = SymMatch(rx.pattern, rx.flags, s, i, False, rx)
            a, b = m.span()
            g = m.groups()
            out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
            i = b if b > a else i + 1
        else:
            i += 1
    return out
