"""T01-T04: the tree of an HDF5 file (h5tree.Hdf5TreeView, utils.isNeXusFile)"""

import numpy

from props.common import *  # noqa
from props.common import Scenario, THOROUGH
from props import tree
from sx import rawvals

PLAIN = [(0x20, 0x21), (0x23, 0x26), (0x28, 0x2E), (0x30, 0x5B), (0x5D, 0x7E), (0xC0, 0xFF), (0x3B1, 0x3C9)]
LENS = [1, 2, 3] if THOROUGH else [1, 2]
DESCENT = []


def setup(mode):
    pass


def text(val):
    """attribute value as shown"""
    k, d = val.kind, val.data
    if k in ("str", "bytes"):
        return '"' + d + '"'
    if k in ("strs", "bytess"):
        if len(d) == 0:
            return "None"
        r = '["' + d[0]
        for x in d[1:]:
            r = r + '", "' + x
        return r + '"]'
    if k in ("int", "bool"):
        return str(d)
    return None  # not compared


def nxclass(node):
    """the class a group states: text, or the first one of several"""
    v = node.attr("NX_class")
    if v is None:
        return None
    t = v.texts()
    if t is None or len(t) == 0:
        return None
    return t[0]


def is_nexus(root):
    """a group at the top (links followed) is an NXentry"""
    for k, c in root.children:
        t = tree.deref(root, c)
        if t is not None and t.kind == "group" and nxclass(t) == "NXentry":
            return True
    return False


def target_of(node):
    v = node.attr("target")
    if v is None or v.kind not in ("str", "bytes") or len(v.data) == 0:
        return None
    return v.data


TYPES = {"int": "int64", "ints": "int64", "float": "float64", "floats": "float64", "bool": "bool",
         "str": "CHAR", "strs": "CHAR", "bytes": "CHAR"}


def expect(root, fname, attrs):
    """lines of the tree (None: not compared) of files without arrays"""
    nexus = is_nexus(root)
    out = []

    def put_attrs(node, ind, extra):
        if not attrs:
            return
        for k, v in node.attrs:
            t = text(v)
            out.append(None if t is None else ind + "  @" + k + " = " + t)
        for k, v in extra:
            out.append(ind + "  @" + k + ' = "' + v + '"')

    def put_dataset(node, name, ind, extra):
        v = node.value
        ty = TYPES.get(v.kind)
        if ty is None:
            out.append(None)
        else:
            if nexus:
                ty = "NX_" + ty.upper()
            line = ind + name + ":" + ty
            d = v.data
            if v.kind in ("str", "bytes"):
                line = line + " = " + d
            elif v.kind == "strs":
                line = None
            elif v.kind == "ints":
                if len(d) == 1:
                    line = line + " = " + str(d[0])
                else:
                    line = line + "[" + str(len(d)) + "] = " + str(d)
            elif v.kind == "floats":
                line = None
            else:
                line = line + " = " + str(d)
            out.append(line)
        put_attrs(node, ind, extra)

    def put_group(node, froot, addr, name, ind, extra, above):
        nx = nxclass(node)
        line = ind + name
        if nx is not None and len(nx) > 0:
            line = line + ":" + nx
        out.append(line)
        put_attrs(node, ind, extra)
        if node in above:
            return
        base = "" if addr == "/" else addr
        groups = []
        deeper = ind + "  "
        for k, c in sorted(node.children, key=lambda kc: kc[0]):
            if c.kind == "soft":
                out.append(deeper + k + ": --> " + c.extra["path"])
                continue
            t = tree.deref(froot, c)
            where = base + "/" + k
            extra = []
            tr = froot
            if c.kind == "external":
                extra = [("file", c.extra["filename"]), ("path", c.extra["path"])]
                tr = c.extra.get("root")
                where = c.extra["path"]
            if t is None:
                out.append(deeper + k + ": missing external file")
                if attrs:
                    for a, b in extra:
                        out.append(deeper + "  @" + a + ' = "' + b + '"')
                continue
            to = target_of(t)
            if to is not None and to != where:
                out.append(deeper + k + " --> " + to)
            elif t.kind == "group":
                groups.append((t, tr, where, k, extra))
            elif t.kind == "dataset":
                put_dataset(t, k, deeper, extra)
            else:
                out.append(None)
                put_attrs(t, deeper, [])
        for t, tr, where, k, extra in groups:
            put_group(t, tr, where, k, deeper, extra, above + [node])

    top = fname
    if nexus:
        top = top + " : NeXus data file"
    put_group(root, root, "/", top, "", [], [])
    return out


def report(env, root, attrs=True, limit=None, p=None):
    from punx import h5tree

    p = p or env.h5file(root)
    st, mc = env.run(h5tree.Hdf5TreeView, p)
    if st != "ok":
        env.problem("crash", exc(mc), str(mc)[:200])
        return p, None
    if limit is not None:
        mc.array_items_shown = limit
    st, r = env.run(mc.report, attrs)
    if st != "ok":
        env.problem("crash", exc(r), str(r)[:200])
        return p, None
    return p, r


def observed(p, r):
    """the lines, without names of scratch files"""
    return [r[0][len(p):]] + [x for x in r[1:] if not x.strip().startswith("@file") and "= Empty(" not in x]


def compare(env, root, attrs=True):
    p, got = report(env, root, attrs)
    if got is None:
        return None
    want = expect(root, p, attrs)
    env.check(len(got) == len(want), "number of lines", len(got), len(want), got, want)
    for i in range(min(len(got), len(want))):
        if want[i] is not None:
            env.check(got[i] == want[i], "line", i, got[i], want[i])
    return observed(p, got)


# ---- T01 structure


def s_names(env):
    ch = env.ch
    n1 = ch.str("n1", LENS, exclude="/")
    n2 = ch.str("n2", LENS, exclude="/")
    an = ch.str("a", [1], exclude="")
    ch.assume(n1 != "." and n2 != "." and n1 != ".." and n2 != "..")
    shape = ch.pick("shape", ["deep", "siblings", "mixed"])
    attrs = ch.pick("attrs", [True, False])
    ch.assume(an not in ("b",))
    root = group(None)
    root.set(an, Val("int", 1))
    if shape == "deep":
        a = root.add(n1, group("NXentry"))
        b = a.add(n2, group("NXdata"))
        b.set(an, Val("str", "x"))
        d = b.add(n1, dataset())
        d.set(an, Val("str", "y"))
        d.set("b", Val("strs", ["p", "q"]))
    elif shape == "siblings":
        ch.assume(n1 != n2)
        a = root.add(n1, group("NXentry"))
        b = root.add(n2, group(None))
        a.set(an, Val("str", "x"))
        b.add(n1, dataset()).set(an, Val("int", 2))
        a.add(n2, group(None)).add(n1, group("NXdata")).set(an, Val("int", 2))
    else:
        ch.assume(n1 != n2 and n1 != "k" and n2 != "k")
        root.add(n1, group("NXnote")).add("z", dataset(Val("str", "text")))
        root.add(n2, dataset(Val("ints", [1, 2, 3]))).set(an, Val("bytes", "b"))
        root.add("k", dataset(Val("ints", [7])))
    env.reach(shape)
    return compare(env, root, attrs)


def s_class(env):
    ch = env.ch
    form = ch.pick("form", ["free", "NXentry+", "NXent+", "first of two", "other"])
    if form == "free":
        v = Val(ch.pick("kind", ["str", "bytes"]), ch.str("class", [0] + LENS))
    elif form == "NXentry+":
        v = Val("str", "NXentry" + ch.str("class", [0, 1]))
    elif form == "NXent+":
        v = Val("str", "NXent" + ch.str("class", [2]))
    elif form == "first of two":
        v = Val(ch.pick("kind", ["strs", "bytess"]), ["NXentr" + ch.str("class", [1]), "NXentry"])
    else:
        v = ch.pick("other", [Val("int", 3), Val("float", 1.5), Val("ints", [1, 2]), Val("strs", []), Val("empty"),
                              Val("floats", []), Val("bool", True)])
    if form in ("free", "first of two") and v.kind in ("bytes", "bytess"):
        for t in v.texts():
            ch.assume(t[-1:] != "\0")
    where = ch.pick("where", ["top", "inner", "dataset", "root", "linked", "second"])
    root = group(None)
    if where == "second":
        root.add("a0", group("NXnote"))
        root.add("a00", dataset())
    a = root.add("b", group(None))
    d = root.add("d", dataset())
    b = a.add("c", group(None))
    {"top": a, "inner": b, "dataset": d, "root": root, "linked": b, "second": a}[where].set("NX_class", v)
    if where == "linked":
        root.add("e", soft("/b/c"))
    env.reach(where)
    env.reach("NeXus" if is_nexus(root) else "not NeXus")
    return compare(env, root, True)


def s_attribute(env):
    """an attribute and an item of any name, of an object that is reached in any way"""
    ch = env.ch
    an = ch.str("a", list(range(1, 13 if THOROUGH else 9)), exclude="\0", alphabet=PLAIN)
    how = ch.pick("how", ["group", "dataset", "hard group", "hard dataset", "external group", "external dataset", "target", "root"])
    root = group(None)
    o = group("NXnote") if "group" in how else dataset(Val("int", 5))
    if how == "root":
        o = root
    elif how == "target":
        root.add("x", o)
        o.set("target", Val("str", "/other"))
        ch.assume(an != "target")
    elif how[:4] == "hard":
        root.add("b", o)
        root.add("x", hard(o))
    elif how[:8] == "external":
        other = group(None)
        other.add("g", o)
        x = external("other.h5", "/g")
        x.extra["root"] = other
        root.add("x", x)
    else:
        root.add("x", o)
    v = ch.pick("value", [Val("str", "y"), Val("int", 3)])
    if o.attr("NX_class") is not None:
        ch.assume(an != "NX_class")
    ch.assume(an != "target")
    o.set(an, v)
    if how[:8] == "external":
        env.h5file(other, "other.h5")
    env.reach(how)
    return compare(env, root, True)


LINKS = ["/a/b/d", "/a/b", "/a", "/", "d", "../b", "/nowhere", "/a/l", "/a/b/d/e", "./d", "/a/./b", "/a/../d", "no/./x", "..", "."]


def world():
    root = group(None)
    a = root.add("a", group("NXentry"))
    b = a.add("b", group("NXdata"))
    d = b.add("d", dataset(Val("int", 5)))
    return root, a, b, d


def s_links(env):
    ch = env.ch
    kind = ch.pick("kind", ["soft", "hard", "soft symbolic", "external", "external gone", "external garbage"])
    where = ch.pick("where", ["root", "a", "b"])
    attrs = ch.pick("attrs", [True, False])
    root, a, b, d = world()
    g = {"root": root, "a": a, "b": b}[where]
    if kind == "soft":
        g.add("l", soft(ch.pick("to", LINKS)))
    elif kind == "soft symbolic":
        path = ch.str("path", LENS)
        # HDF5 drops repeated and final slashes when it makes the link
        ch.assume("//" not in path and not (len(path) > 1 and path[-1:] == "/"))
        g.add("l", soft(path))
    elif kind == "hard":
        g.add("l", hard(ch.pick("hto", [0, 1, 2, 3]) and {1: a, 2: b, 3: d}[ch.pick("hto", [0, 1, 2, 3])] or root))
    elif kind == "external":
        other = group(None)
        og = other.add("g", group("NXnote"))
        og.set("x", Val("str", "y"))
        og.add("d", dataset(Val("int", 9)))
        og.add("up", hard(other))
        other.add("loop", soft("/loop"))
        name = "other.h5"
        op = env.h5file(other, name)
        fn = ch.pick("fn", [op, name])
        x = external(fn, ch.pick("ext", ["/g", "/g/d", "/nope", "/", "/loop", "g"]))
        if x.extra["path"] == "g":
            x.extra["path"] = "/g/"
        ch.assume(x.extra["path"] != "/g/")
        x.extra["root"] = other
        g.add("l", x)
    elif kind == "external gone":
        g.add("l", external(ch.pick("fn", ["/nowhere/x.h5", "x.h5"]), "/g"))
    else:
        p = env.garbage("garbage.h5")
        g.add("l", external(p, "/g"))
    env.reach(kind)
    return compare(env, root, attrs)


def s_target(env):
    """NeXus links: a target attribute that names another address"""
    ch = env.ch
    root, a, b, d = world()
    form = ch.pick("form", ["path", "symbolic", "other"])
    if form == "path":
        v = Val("str", ch.pick("path", ["/a/b/d", "/a/b", "/a", "/", "", "a", "/a/b/l", "/a/b/d/"]))
    elif form == "symbolic":
        v = Val("str", ch.pick("head", ["/a/b/", "/a/", "/"]) + ch.str("target", LENS))
    else:
        v = ch.pick("other", [Val("int", 1), Val("empty"), Val("strs", ["/a"]), Val("strs", []), Val("bytes", "/a/b")])
    where = ch.pick("where", ["d", "b", "a", "l"])
    if where == "l":
        b.add("l", hard(d))
    nexus = ch.pick("nexus", [True, False])
    if not nexus:
        a.attrs = []
    {"d": d, "b": b, "a": a, "l": d}[where].set("target", v)
    env.reach(where)
    return compare(env, root, ch.pick("attrs", [True, False]))


def s_cycles(env):
    ch = env.ch
    root, a, b, d = world()
    groups = [root, a, b]
    s = ch.pick("from", [0, 1, 2])
    t = ch.pick("to", [0, 1, 2])
    groups[s].add("l", hard(groups[t]))
    if ch.pick("two", [False, True]):
        groups[t].add("m", hard(groups[s]))
    env.reach("cycle" if t <= s else "no cycle")
    return compare(env, root, False)


def s_large(env):
    """many groups, datasets and attributes, and groups many levels deep"""
    ch = env.ch
    form = ch.pick("form", ["wide", "deep", "attributes", "lists"])
    name = ch.str("name", [2], [(0x61, 0x7A)])
    root = group(None)
    e = root.add("entry", group("NXentry"))
    n = ch.pick("n", [9, 16] if form == "deep" else [12, 30])
    at = ch.pick("at", [0, n // 2, n - 1])
    if form == "wide":
        for i in range(n):
            c = e.add("g%02d" % i if i != at else name, group("NXdata" if i % 3 else None))
            c.set("k", Val("int", i))
            c.add("d%d" % i, dataset(Val("int", i))).set("u", Val("str", "m"))
    elif form == "deep":
        same = ch.bool("same name")
        g = e
        for i in range(n):
            g = g.add(name if i == at or same else "g%d" % i, group("NXnote" if i % 3 else None))
            g.set("k", Val("int", i))
            if i % 2:
                g.add("z", dataset(Val("str", "t%d" % i)))
        g.add("d", dataset(Val("int", 1))).set(name, Val("str", "m"))
    elif form == "attributes":
        t = ch.pick("of", ["root", "group", "dataset"])
        o = {"root": root, "group": e, "dataset": e.add("d", dataset())}[t]
        for i in range(n):
            o.set(name if i == at else "a%02d" % i, Val("int", i))
    else:
        d = e.add("d", group("NXdata"))
        for i in range(n):
            if i % 4 == 3:
                d.add(name if i == at else "a%02d" % i, soft("/entry"))
            else:
                d.add(name if i == at else "a%02d" % i, dataset(Val("int", i)))
            root.add("e%02d" % i, group("NXentry")).add(name, group("NXnote"))
    env.reach(form)
    return compare(env, root)


T01 = [
    Scenario("attribute of any name", s_attribute, ["external group", "external dataset", "root", "hard group"]),
    Scenario("large files", s_large, ["wide", "deep", "attributes", "lists"]),
    Scenario("names", s_names, ["deep", "siblings", "mixed"]),
    Scenario("links", s_links, ["soft", "soft symbolic", "hard", "external", "external gone", "external garbage"]),
    Scenario("targets", s_target, ["d", "b", "a", "l"]),
    Scenario("cycles", s_cycles, ["cycle", "no cycle"]),
]

# ---- T02 robustness


def nd(a):
    return Val("nd", a)


VALUES = [
    Val("str", ""), Val("str", "x"), Val("bytes", "x"), Val("bytes", "é"), Val("strs", []), Val("strs", ["x"]),
    Val("strs", ["x", ""]), Val("bytess", ["x", "yy"]), Val("int", 0), Val("ints", []), Val("ints", [1]),
    Val("ints", [1, 2]), Val("float", 1.5), Val("floats", []), Val("bool", True), Val("empty"),
    nd(numpy.zeros((2, 2))), nd(numpy.zeros((0, 2))), nd(numpy.zeros((1, 1), dtype="i4")),
    nd(numpy.array([[b"a", b"bc"]])), nd(numpy.zeros((0, 2), dtype="S3")), nd(numpy.zeros((2, 0, 2))),
    nd(numpy.zeros((2, 2, 2, 2))), nd(numpy.zeros((1, 1, 1, 1, 1))), nd(numpy.array(True)),
    nd(numpy.zeros(2, dtype=[("a", "i4"), ("b", "f8")])), nd(numpy.zeros((), dtype=[("a", "i4")])),
    nd(numpy.array([1 + 2j])), nd(numpy.array(b"")), nd(numpy.zeros(1, dtype=[("a", "i4")])),
] + [Val("raw", k) for k in rawvals.MAKE]
ATTRS = ["NX_class", "target", "x"]


def s_any_attr(env):
    ch = env.ch
    name = ch.pick("name", ATTRS)
    val = ch.pick("value", VALUES)
    where = ch.pick("where", ["root", "a", "b", "d"])
    root, a, b, d = world()
    n = {"root": root, "a": a, "b": b, "d": d}[where]
    n.attrs = [kv for kv in n.attrs if kv[0] != name]
    n.set(name, val)
    root.add("n", group("NXentry"))
    env.reach(where)
    p, r = report(env, root, True)
    if r is None:
        return None
    env.check(len(r) > 0, "no lines")
    env.check(len([x for x in r if x.strip().startswith("@" + name + " = ")]) > 0 or name == "target", "attribute not shown", name, r)
    return observed(p, r)


def s_any_value(env):
    ch = env.ch
    val = ch.pick("value", VALUES)
    nexus = ch.pick("nexus", [True, False])
    limit = ch.int("limit", -1, 6)
    root, a, b, d = world()
    if not nexus:
        a.attrs = []
    d.value = val
    env.reach("NeXus" if nexus else "not NeXus")
    p, r = report(env, root, True, limit)
    if r is None:
        return None
    env.check(len([x for x in r if x.strip().startswith("d:")]) == 1, "dataset not shown once", r)
    return observed(p, r)


def s_datatype(env):
    ch = env.ch
    root, a, b, d = world()
    g = ch.pick("where", [0, 1])
    t = [root, a][g].add("t", Node("datatype"))
    if ch.pick("attr", [False, True]):
        t.set("x", Val("int", 1))
    p, r = report(env, root, True)
    if r is None:
        return None
    env.reach("named type")
    env.check(len([x for x in r if x.strip().startswith("t:") or x.strip() == "t"]) == 1, "named type not shown once", r)
    return observed(p, r)


def s_bad_links(env):
    ch = env.ch
    root, a, b, d = world()
    g = {"root": root, "a": a}[ch.pick("where", ["root", "a"])]
    kind = ch.pick("kind", ["soft", "external", "external loop", "self", "chain"])
    if kind == "soft":
        g.add("l", soft(ch.str("path", [1, 2] + ([3] if THOROUGH else []))))
    elif kind == "external":
        p = env.garbage("g.h5")
        g.add("l", external(p, ch.str("path", [1, 2])))
    elif kind == "external loop":
        other = group(None)
        x = external("data2.h5", "/l")
        x.extra["root"] = other
        other.add("l", soft("/l"))
        p = env.h5file(other, "o.h5")
        y = external(p, "/l")
        y.extra["root"] = other
        g.add("l", y)
    elif kind == "self":
        g.add("l", soft("/l"))
        g.add("k", soft("l"))
    else:
        g.add("l", soft("k"))
        g.add("k", soft("l"))
    env.reach(kind)
    p, r = report(env, root, True)
    if r is None:
        return None
    env.check(len([x for x in r if x.strip().startswith("l:") or x.strip() == "l"]) == 1, "link not shown once", r)
    return observed(p, r)


def s_refused(env):
    """missing and unreadable files"""
    from punx import h5tree

    ch = env.ch
    if ch.pick("what", ["missing", "garbage"]) == "missing":
        p = env.path("gone.h5")
        st, mc = env.run(h5tree.Hdf5TreeView, p)
        if st == "ok":
            st, r = env.run(mc.report)
            env.check(st != "ok" or r is None, "result for a missing file", r)
        env.reach("missing")
    else:
        p = env.garbage()
        st, mc = env.run(h5tree.Hdf5TreeView, p)
        if st == "ok":
            st, mc = env.run(mc.report)
        env.check(st == "exc" and isinstance(mc, OSError), "unreadable file not refused", st)
        env.reach("garbage")
    return st


T02 = [
    Scenario("any attribute value", s_any_attr, ["root", "a", "b", "d"]),
    Scenario("any dataset", s_any_value, ["NeXus", "not NeXus"]),
    Scenario("named datatype", s_datatype, ["named type"]),
    Scenario("links to nowhere", s_bad_links, ["soft", "external", "external loop", "self", "chain"]),
    Scenario("refused", s_refused, ["missing", "garbage"]),
]

# ---- T03 values


def shown(n, limit):
    """indices shown of n items; None: items left out"""
    if n <= limit:
        return list(range(n))
    return list(range(limit - 2)) + [None, n - 1]


def lines_of(a, limit):
    """the expected rendering, line by line without indentation"""
    if len(a.shape) == 1:
        return [str([("..." if i is None else a[i]) for i in shown(a.shape[0], limit)])]
    r = ["["]
    for i in shown(a.shape[0], limit):
        if i is None:
            r.append("...")
        else:
            r += lines_of(a[i], limit)
    r.append("]")
    return r


def line_of(got, name):
    for i in range(len(got)):
        if got[i].strip().startswith(name + ":"):
            return i
    return None


def s_array1(env):
    """one dimension: every length against every limit"""
    ch = env.ch
    n = ch.pick("n", [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 24])
    limit = ch.int("limit", -3, 22)
    kind = ch.pick("kind", ["i8", "f8", "u1", "bool"])
    a = numpy.arange(100, 100 + n).astype(kind) if kind != "bool" else (numpy.arange(n) % 3 == 0)
    root = group(None)
    root.add("x", dataset(nd(a)))
    p, got = report(env, root, True, limit)
    if got is None:
        return None
    i = line_of(got, "x")
    if not env.check(i is not None and len(got) == 2, "lines", got):
        return None
    head = "x:" + str(a.dtype)
    if n != 1:
        head = head + "[" + str(n) + "]"
    if n == 1:
        want = head + " = " + str(a[0])
        env.reach("single")
    elif limit <= 2:
        want = head + " = [ ... ]"
        env.reach("none")
    else:
        want = head + " = " + lines_of(a, limit)[0]
        env.reach("all" if n <= limit else "some")
    env.check(got[i].strip() == want, "array", got[i], want)
    return got[1:]


SHAPES = [(1, 1), (2, 3), (3, 2), (6, 7), (7, 4), (4, 7), (0, 2), (2, 0), (5, 5), (2, 2, 2), (6, 2, 3), (2, 6, 3), (2, 3, 8), (1, 9, 1), (1, 1, 1)]


def s_arrayn(env):
    ch = env.ch
    shape = ch.pick("shape", SHAPES)
    limit = ch.int("limit", 0, 10)
    n = 1
    for k in shape:
        n *= k
    a = numpy.arange(n, dtype="i4").reshape(shape)
    root = group(None)
    root.add("x", dataset(nd(a)))
    p, got = report(env, root, True, limit)
    if got is None:
        return None
    i = line_of(got, "x")
    if not env.check(i is not None, "lines", got):
        return None
    head = "x:int32[" + ",".join([str(k) for k in shape]) + "]"
    if limit <= 2:
        env.check(got[i].strip() == head + " = [ ... ]", "array left out", got[i])
        env.reach("none")
        return got[1:]
    env.check(got[i].strip() == head + " = __array", "array head", got[i])
    body = [x.strip() for x in "\n".join(got[i + 1:]).split("\n")]
    body = [x for x in body if len(x) > 0]
    want = lines_of(a, limit)
    want[0] = "__array = " + want[0]
    env.check(body == want, "array", body, want)
    env.reach("%d dimensions" % len(shape))
    return got[1:]


def s_scalars(env):
    ch = env.ch
    kind = ch.pick("kind", ["int", "bool", "float", "str", "bytes", "ints", "bytess"])
    nexus = ch.pick("nexus", [True, False])
    root = group(None)
    if nexus:
        root.add("e", group("NXentry"))
    pre = "NX_" if nexus else ""
    if kind == "int":
        n = ch.int("n", -9, 14)
        v, want = Val("int", n), "x:" + pre + ("INT64" if nexus else "int64") + " = " + str(n)
    elif kind == "ints":
        n = ch.int("n", -9, 14)
        v, want = Val("ints", [n, 5]), "x:" + pre + ("INT64" if nexus else "int64") + "[2] = [" + str(n) + ", 5]"
    elif kind == "bool":
        v, want = Val("bool", True), "x:" + pre + ("BOOL" if nexus else "bool") + " = True"
    elif kind == "float":
        v, want = Val("float", 2.5), "x:" + pre + ("FLOAT64" if nexus else "float64") + " = 2.5"
    elif kind == "bytess":
        s = ch.str("s", [1, 2])
        t = ch.str("t", [1])
        ch.assume(s[-1:] != "\0" and t != "\0")
        v, want = Val("bytess", [s, t]), '= ["' + s + '", "' + t + '"]'
    else:
        s = ch.str("s", [0] + LENS)
        v, want = Val(kind, s), "x:" + pre + "CHAR = " + s
    root.add("x", dataset(v))
    p, got = report(env, root, True)
    if got is None:
        return None
    line = got[1]
    env.reach(kind)
    if kind == "bytess":
        env.check(line.startswith("  x:") and line.endswith(want), "value", line, want)
    else:
        env.check(line == "  " + want, "value", line, want)
    return got[1:]


def s_attr_values(env):
    ch = env.ch
    kind = ch.pick("kind", ["str", "bytes", "strs", "bytess", "int"])
    where = ch.pick("where", ["root", "a", "d"])
    if kind == "int":
        v = Val("int", ch.int("n", -9, 14))
    elif kind in ("str", "bytes"):
        v = Val(kind, ch.str("s", [0] + LENS))
    else:
        v = Val(kind, [ch.str("s", [1, 2]), ch.str("t", [1])][: ch.pick("n", [1, 2])])
    root, a, b, d = world()
    n, pad = {"root": (root, ""), "a": (a, "  "), "d": (d, "      ")}[where]
    n.set("v", v)
    p, got = report(env, root, True)
    if got is None:
        return None
    want = pad + "  @v = " + text(v)
    env.check(want in got, "attribute value", got, want)
    env.reach(kind)
    return got[1:]


def s_long(env):
    """long texts in full, long arrays down to the limit, the limit in force when none is set"""
    from punx import h5tree

    ch = env.ch
    form = ch.pick("form", ["dataset text", "attribute text", "texts", "array", "no limit set", "two arrays"])
    root, a, b, d = world()
    a.attrs = []
    env.reach(form)
    if form in ("dataset text", "attribute text"):
        s = ch.str("s", [1, 2])
        n = ch.pick("n", [30, 80, 400])
        kind = ch.pick("kind", ["str", "bytes"])
        ch.assume(s[-1:] != "\0")
        val = Val(kind, "x" * n + s if ch.bool("behind") else s + "x" * n)
        if form == "dataset text":
            d.value = val
            want = "      d:CHAR = " + val.data
        else:
            d.set("v", val)
            want = "        @v = " + text(val)
        p, got = report(env, root, True)
        if got is not None:
            env.check(want in got, "text", got, want)
        return got and got[1:]
    if form == "texts":
        n = ch.pick("n", [2, 7, 25])
        at = ch.pick("at", [0, n // 2, n - 1])
        s = ch.str("s", [1, 60], [(0x61, 0x7A)]) if THOROUGH else ch.str("s", [1, 3], [(0x61, 0x7A)])
        kind = ch.pick("kind", ["strs", "bytess"])
        limit = ch.pick("limit", [0, 5, None])
        items = [s if i == at else "t%d" % i for i in range(n)]
        d.value = Val(kind, items)
        d.set("v", Val(kind, items))
        p, got = report(env, root, True, limit)
        if got is None:
            return None
        i = line_of(got, "d")
        if env.check(i is not None, "lines", got):
            q = "'" if kind == "strs" else '"'
            want = " = [" + q + (q + ", " + q).join(items) + q + "]"
            env.check(got[i].endswith(want), "texts", got[i], want)
        want = '        @v = ["' + '", "'.join(items) + '"]'
        env.check(want in got, "texts of the attribute", got, want)
        return got[1:]
    if form == "array":
        n = ch.pick("n", [100, 1001, 3000])
        limit = ch.pick("limit", [3, 5, 50, n - 1, n, n + 1])
        d.value = nd(numpy.arange(n, dtype="i4") * 3)
        p, got = report(env, root, True, limit)
    elif form == "no limit set":
        n = ch.int("n", 2, 12)
        n = [i for i in range(13) if i == n][0]
        d.value = nd(numpy.arange(n, dtype="i4") * 3)
        limit = h5tree.Hdf5TreeView.array_items_shown
        p, got = report(env, root, True)
    else:
        n, limit = 9, ch.int("limit", 0, 12)
        d.value = nd(numpy.arange(n, dtype="i4") * 3)
        b.add("c", dataset(nd(numpy.arange(6, dtype="i4"))))
        b.add("e", dataset(nd(numpy.arange(7, dtype="i4").reshape(7, 1))))
        p, got = report(env, root, True, limit)
        if got is not None:
            i = line_of(got, "c")
            want = "c:int32[6] = " + ("[ ... ]" if limit <= 2 else lines_of(numpy.arange(6, dtype="i4"), limit)[0])
            env.check(i is not None and got[i].strip() == want, "first array", got, want)
    if got is None:
        return None
    i = line_of(got, "d")
    want = "d:int32[" + str(n) + "] = " + ("[ ... ]" if limit <= 2 else lines_of(numpy.arange(n, dtype="i4") * 3, limit)[0])
    env.check(i is not None and got[i].strip() == want, "array", i, want)
    return got[1:]


T03 = [
    Scenario("long values", s_long, ["dataset text", "attribute text", "texts", "array", "no limit set", "two arrays"]),
    Scenario("arrays of one dimension", s_array1, ["single", "none", "all", "some"]),
    Scenario("arrays of more dimensions", s_arrayn, ["none", "2 dimensions", "3 dimensions"]),
    Scenario("scalars and texts", s_scalars, ["int", "bool", "float", "str", "bytes", "ints", "bytess"]),
    Scenario("attribute values", s_attr_values, ["str", "bytes", "strs", "bytess", "int"]),
]

# ---- T04 recognised as NeXus


def s_isnexus(env):
    from punx import h5tree, utils

    ch = env.ch
    form = ch.pick("form", ["free", "NXentry+", "NXent+", "other", "two"])
    if form == "free":
        v = Val(ch.pick("kind", ["str", "bytes"]), ch.str("class", [0] + LENS))
    elif form == "NXentry+":
        v = Val(ch.pick("kind", ["str", "bytes"]), ch.pick("head", ["", " ", "x"]) + "NXentry" + ch.str("class", [0, 1]))
    elif form == "NXent+":
        v = Val("str", "NXent" + ch.str("class", [2]))
    elif form == "two":
        v = Val(ch.pick("kind", ["strs", "bytess"]), ["NXentr" + ch.str("class", [1]), "NXentry"])
    else:
        v = ch.pick("other", [Val("int", 3), Val("floats", [1.5]), Val("ints", []), Val("strs", []), Val("empty"),
                              Val("bool", True)])
    if v.kind in ("bytes", "bytess"):
        for t in v.texts():
            ch.assume(t[-1:] != "\0")
    where = ch.pick("where", ["top", "inner", "dataset", "root", "soft", "external", "hard"])
    before = ch.pick("before", ["nothing", "dataset", "group", "loop", "gone", "datatype"])
    root = group(None)
    if before != "nothing":
        root.add("A", {"dataset": dataset(), "group": group("NXnote"), "loop": soft("/A"), "gone": external("/no/x", "/"),
                       "datatype": Node("datatype")}[before])
    a = root.add("b", group(None))
    d = root.add("d", dataset())
    b = a.add("c", group(None))
    if where == "external":
        other = group(None)
        og = other.add("g", group(None))
        og.set("NX_class", v)
        op = env.h5file(other, "other.h5")
        x = external(op, "/g")
        x.extra["root"] = other
        root.add("e", x)
    else:
        {"top": a, "inner": b, "dataset": d, "root": root, "soft": b, "hard": b}[where].set("NX_class", v)
    if where == "soft":
        root.add("e", soft("/b/c"))
    if where == "hard":
        root.add("e", hard(b))
    p = env.h5file(root)
    want = is_nexus(root)
    st, r = env.run(utils.isNeXusFile, p)
    if not env.check(st == "ok", "crash", exc(r) if st != "ok" else None):
        return None
    env.check((not not r) == want, "is NeXus", r, want, where, v)
    st, mc = env.run(h5tree.Hdf5TreeView, p)
    if st == "ok":
        env.check((not not mc.isNeXus) == want, "tree: is NeXus", want)
    else:
        env.problem("crash", exc(mc))
    env.reach(where + (" yes" if want else " no"))
    return [r, want]


def s_isnexus_links(env):
    """an NXentry at the end of links, or among many objects"""
    from punx import h5tree, utils

    ch = env.ch
    form = ch.pick("form", ["path", "relative", "links", "many"])
    cls = "NXent" + ch.str("class", [1, 2], alphabet=[(0x61, 0x7A)])
    root = group(None)
    a = root.add("b", group(None))
    if form == "many":
        n = ch.pick("n", [12, 60] if not THOROUGH else [12, 60, 300])
        at = ch.pick("at", ["first", "middle", "last"])
        at = {"first": 0, "middle": n // 2, "last": n - 1}[at]
        others = ["NXnote", None, "NXentries", "dataset", "NXsubentry", "soft", "NXdata"]
        for i in range(n):
            o = others[i % 7]
            root.add("k%03d" % i, group(cls) if i == at else dataset() if o == "dataset" else soft("/gone") if o == "soft" else group(o))
    elif form == "path":
        a.add("c", group(cls))
        path = ch.str("path", [2, 3, 4], alphabet=[(0x2E, 0x2F), (0x61, 0x64)])
        ch.assume("//" not in path)
        ch.assume("." not in path)
        ch.assume(path[-1:] != "/")
        root.add("e", soft(path))
    elif form == "relative":
        a.add("c", group(cls))
        root.add("e", soft(ch.pick("path", ["b/c", "/b/c", "b", "c", "b/c/c", "e", "b/c/"])))
    else:
        n = ch.pick("links", [1, 2, 5, 12])
        a.add("c", group(cls))
        for i in range(n):
            a.add("l%d" % i, soft("/b/l%d" % (i + 1) if i + 1 < n else ch.pick("end", ["/b/c", "/b/c/", "/b/l0", "/gone"])))
        if ch.bool("at the top"):
            root.add("e", soft("/b/l0"))
    p = env.h5file(root)
    want = is_nexus(root)
    st, r = env.run(utils.isNeXusFile, p)
    if not env.check(st == "ok", "crash", exc(r) if st != "ok" else None):
        return None
    env.check((not not r) == want, "is NeXus", r, want, form)
    st, mc = env.run(h5tree.Hdf5TreeView, p)
    if st == "ok":
        env.check((not not mc.isNeXus) == want, "tree: is NeXus", want)
    else:
        env.problem("crash", exc(mc))
    env.reach(form + (" yes" if want else " no"))
    return [r, want]


T04 = [
    Scenario("end of links", s_isnexus_links, [f + x for f in ("path", "relative", "links", "many") for x in (" yes", " no")]),
    Scenario("class of a group", s_isnexus, ["top yes", "top no", "soft yes", "external yes", "hard yes", "inner no", "dataset no", "root no"]),
]

BOUNDS_OF = {
    "T01": "files of at most 8 objects on 4 levels, and of up to 30 objects or attributes side by side or 17 levels "
           "with one symbolic name; names and soft link paths symbolic up to %d characters; links to "
           "every object of the file and of a second file, cycles of hard links; an attribute with a symbolic name of up to 8 characters" % LENS[-1],
    "T02": "one attribute with any of %d kinds of value at 4 places; a dataset of the same %d kinds with every limit "
           "from -1 to 6; links with symbolic paths up to %d characters" % (len(VALUES), len(VALUES), LENS[-1]),
    "T03": "arrays of 1 dimension with up to 24 items and every limit from -3 to 22; %d shapes of 2 and 3 dimensions "
           "with every limit up to 10; texts symbolic up to %d characters, or of up to 402 with a "
           "symbolic end; arrays of up to 3000 items; integers symbolic" % (len(SHAPES), LENS[-1]),
    "T04": "class texts symbolic up to %d characters or close to NXentry, 7 places, 6 kinds of object before; at the end of "
           "chains of up to 12 links, of symbolic links up to 4 characters, among up to 60 (thorough: 300) objects" % LENS[-1],
}
