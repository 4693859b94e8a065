"""V06: the default plot"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import nxdlref, tree
from sx import env as E

REFS = ["v3.3", "v2018.5", "a4fd52d"]
BOUNDS = (
    "files of at most 2 entries with 2 data groups each (5 entries of 4 groups for the selection by @default); symbolic texts of 1%s characters for "
    "the pointers and the item names; @signal/@default missing, as text, fixed-length text, "
    "number or array; fields, groups, links or nothing behind them" % ("-2" if THOROUGH else "")
)
ASSUMPTIONS = ["a group's @signal that is a number equal to an item's name is outside", "pointers that are paths (with '/'), or '.', are outside"]
LEN = [1, 2] if THOROUGH else [1]


def setup(mode):
    E.load_validators([(r, 0) for r in REFS])
    for r in REFS:
        nxdlref.fileset(r)


def text_of(val):
    return val.data if val is not None and val.kind in ("str", "bytes") else None


def is_one(val):
    if val.kind in ("str", "bytes"):
        return val.data == "1"
    return val.kind == "int" and val.data == 1


def expected(root, ref):
    """(status, addresses that may be named)"""
    es = tree.walk(root)
    v3 = []
    misleading = False
    for x in es:
        if x.is_attr and x.name == "signal" and x.cp == "/NXentry/NXdata@signal" and x.node.kind == "group":
            t = text_of(x.value)
            hit = None if t is None else tree.lookup(root, x.node, t)
            if hit is None:
                misleading = True
            elif hit.kind == "dataset":
                v3.append((x, t))
    if v3 and not misleading:
        addrs = [x.parent.addr + "/" + t for x, t in v3]
        chain = []
        for x, t in v3:
            g = x.parent
            e = g.parent
            d1 = text_of(e.parent.node.attr("default"))
            d2 = text_of(e.node.attr("default"))
            if d1 is not None and d2 is not None and d1 == e.name and d2 == g.name:
                chain.append(x.addr)
        if len(chain) == 1:
            return "OK", chain
        return "OK", addrs
    per = {}
    for x in es:
        if x.is_attr and x.name == "signal" and x.cp != NON and x.node.kind == "dataset" and is_one(x.value):
            per.setdefault(x.parent.parent.addr, []).append(x.parent.addr)
    single = [a[0] for a in per.values() if len(a) == 1]
    if single:
        return "OK", single
    if any(x.cp == "/NXentry" for x in es):
        m = nxdlref.fileset(ref)["NXentry"].groups["data"].min
        return ("ERROR" if int(m or 0) > 0 else "NOTE"), None
    return "ERROR", None


def compare(env, root, ref="v3.3"):
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    got = [f for f in v.validations if f.test_name == "NeXus default plot"]
    want, addrs = expected(root, ref)
    have = [(f.h5_address, str(f.status)) for f in got]
    env.check(have == [("/", want)], "default plot", have, want)
    if addrs is not None and len(got) == 1:
        ok = any([got[0].comment.endswith(" " + a) for a in addrs])
        env.check(ok, "address of the default plot", got[0].comment, addrs)
    env.reach(want)
    return [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations if "default plot" in f.test_name]


def behind(what):
    return {"field": dataset(), "group": group("NXnote"), "dead": soft("/gone"),
            "link": soft("/entry/far"), "linked group": soft("/entry/note")}[what]


SIG = [("str", None), ("bytes", None), ("int", 1), ("strs", ["y"]), ("empty", None), ("int", 2), ("ints", [1]), ("float", 1.0)]


def val(kind, d, t):
    return Val(kind, t if d is None and kind in ("str", "bytes") else d)


def s_one(env):
    """one entry, one data group: all pointers symbolic"""
    ch = env.ch
    s = ch.str("signal", LEN, exclude="/.")
    y = ch.str("y", LEN, exclude="/.")
    d1 = ch.str("default1", LEN, exclude="/.")
    kinds = ch.pick("kind", SIG)
    if kinds[0] in ("int", "ints", "float"):
        ch.assume(y not in ("1", "2"))
    what = ch.pick("what", ["field", "group", "dead", "link", "linked group"])
    cls = ch.pick("class", ["NXdata", "NXlog"])
    root = group(None)
    root.set("default", Val("str", d1))
    e = root.add("e", group("NXentry"))
    e.set("default", Val("str", "d"))
    e.add("far", dataset())
    e.add("note", group("NXnote"))
    d = e.add("d", group(cls))
    d.set("signal", val(kinds[0], kinds[1], s))
    t = behind(what)
    if t.kind == "soft" and t.extra["path"] != "/gone":
        t = soft("/e" + t.extra["path"][6:])
    d.add(y, t)
    return compare(env, root)


ENTRY = ["NXentry", "NXsubentry", None]


def s_two(env):
    """two entries with data groups; which one do the pointers select"""
    ch = env.ch
    r1 = ch.pick("root default", ["a", "b", "c", None])
    e1 = ch.pick("entry default", ["d", "f", None])
    s1 = ch.pick("s1", ["y", "z", "g", None])
    s2 = ch.pick("s2", ["y", "z", None])
    s3 = ch.pick("s3", ["y", "z", None])
    c2 = ch.pick("class2", ["NXentry", None])
    kind = ch.pick("kind", ["str", "bytes"])
    root = group(None)
    if r1 is not None:
        root.set("default", Val(kind, r1))
    a = root.add("a", group("NXentry"))
    b = root.add("b", group(c2))
    if e1 is not None:
        a.set("default", Val("str", e1))
        b.set("default", Val(kind, e1))
    for g, nm, s in ((a, "d", s1), (a, "f", s2), (b, "d", s3)):
        x = g.add(nm, group("NXdata"))
        x.add("y", dataset())
        x.add("g", group("NXnote"))
        if s is not None:
            x.set("signal", Val(kind, s))
    return compare(env, root)


def s_many(env):
    """many entries with several data groups: the defaults select one of them"""
    ch = env.ch
    n, m = ch.pick("entries", [3, 5]), ch.pick("groups", [3, 4])
    i, j = ch.pick("i", list(range(n))), ch.pick("j", list(range(m)))
    others = ch.pick("others", ["same", "other", "none"])
    gap = ch.pick("without signal", ["none", "first", "all but one", "fields too"])
    s = ch.str("signal", [1], [(0x61, 0x7A)])
    root = group(None)
    root.set("default", Val("str", "e%d" % i))
    for k in range(n):
        e = root.add("e%d" % k, group("NXentry"))
        if k == i or others == "same":
            e.set("default", Val("str", "d%d" % j))
        elif others == "other":
            e.set("default", Val("bytes", "d%d" % ((j + 1) % m)))
        for q in range(m):
            d = e.add("d%d" % q, group("NXdata"))
            y = d.add(s, dataset())
            d.add("x1", dataset())
            here = k == i and q == j
            if here or gap == "none" or (gap == "first" and k + q > 0) or gap == "fields too":
                d.set("signal", Val("str", s))
            if gap == "fields too":
                y.set("signal", Val("int", 1))
    return compare(env, root)


def s_v2(env):
    """@signal of fields"""
    ch = env.ch
    opts = [None, Val("str", "1"), Val("int", 1), Val("bytes", "1"), Val("int", 2), Val("str", "sym")]
    s = ch.str("text", LEN)
    n1, n2, n3 = [ch.pick("s%d" % i, opts) for i in (1, 2, 3)]
    cls = ch.pick("class", ["NXdata", "NXnote", None])
    v3 = ch.pick("v3", ["none", "good", "bad"])
    root = group(None)
    e = root.add("e", group("NXentry"))
    d = e.add("d", group(cls))
    f = e.add("f", group("NXdata"))
    if v3 != "none":
        f.set("signal", Val("str", "z" if v3 == "good" else "gone"))
    for g, nm, o in ((d, "x", n1), (d, "y", n2), (f, "z", n3)):
        x = g.add(nm, dataset())
        if o is not None:
            x.set("signal", Val("str", s) if o.data == "sym" else o)
    return compare(env, root)


def s_none(env):
    """nothing to plot"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    what = ch.pick("what", ["empty", "plain", "entry", "subentry", "data only", "data in plain", "link to entry", "signal in deeper group", "dataset NXentry", "plot"])
    cls = "NX" + ch.str("class", [1, 5])
    root = group(None)
    if what == "plain":
        root.add("entry", group(None))
    elif what == "entry":
        e = root.add("entry", group(cls))
        e.add("data", group("NXdata")).add("y", dataset())
    elif what == "subentry":
        root.add("entry", group("NXsubentry"))
    elif what in ("data only", "data in plain"):
        g = root if what == "data only" else root.add("p", group(None))
        d = g.add("data", group("NXdata"))
        d.set("signal", Val("str", "y"))
        d.add("y", dataset())
    elif what == "link to entry":
        p = root.add("p", group(None))
        e = p.add("e", group("NXentry"))
        d = e.add("data", group("NXdata"))
        d.set("signal", Val("str", "y"))
        d.add("y", dataset())
        root.add("l", soft("/p/e"))
    elif what == "signal in deeper group":
        e = root.add("entry", group("NXentry"))
        i = e.add("i", group("NXinstrument"))
        d = i.add("data", group("NXdata"))
        d.set("signal", Val("str", "y"))
        d.add("y", dataset())
    elif what == "dataset NXentry":
        root.add("NXentry", dataset())
    elif what == "plot":
        e = root.add("entry", group("NXentry"))
        d = e.add("data", group("NXdata"))
        d.set("signal", Val("str", "y"))
        d.add("y", dataset())
    env.reach(what)
    return compare(env, root, ref)


SCENARIOS = [
    Scenario("one data group", s_one, ["OK", "NOTE"]),
    Scenario("two entries", s_two, ["OK", "NOTE"]),
    Scenario("many entries", s_many, ["OK"]),
    Scenario("fields", s_v2, ["OK", "NOTE"]),
    Scenario("none", s_none, ["OK", "NOTE", "ERROR"]),
]
