"""V01: the catalog of addresses and NeXus class paths"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import tree
from sx import env as E

LENS = [1, 2] if not THOROUGH else [1, 2, 3]
BOUNDS = (
    "files of at most 9 objects on 4 levels, and files of up to 30 objects or attributes side by side "
    "or 17 levels with one symbolic name; object and attribute names symbolic up to "
    "%d characters, class texts symbolic up to %d characters; links: soft, hard, "
    "external, dangling, circular, to every object of the file" % (LENS[-1], LENS[-1] + 2)
)
ASSUMPTIONS = ["an item name that looks like another item's attribute ('x@y' beside x with attribute y) is outside"]


def setup(mode):
    E.load_validators([("v3.3", 0)])


def compare(env, root):
    v, e = validated(env, root)
    if e is not None:
        return exc(e)
    want = tree.walk(root)
    wa = {}
    wc = {}
    for x in want:
        if x.addr is not None:
            wa[x.addr] = x.cp
        wc.setdefault(x.cp, []).append(x.addr)
    got = [(a, i.classpath) for a, i in v.addresses.items() if a is not None]
    for a, cp in got:
        if a not in wa:
            env.problem("not in file", a, cp)
        else:
            env.check(wa[a] == cp, "class path", a, cp, wa[a])
    for a in wa:
        if a not in v.addresses:
            env.problem("missing address", a, wa[a])
    env.check(len(got) == len(wa), "number of addresses", len(got), len(wa))
    # by class path
    for cp, addrs in wc.items():
        if cp not in v.classpaths:
            env.problem("missing class path", cp)
            continue
        have = [i.h5_address for i in v.classpaths[cp]]
        env.check(len(have) == len(addrs), "items of class path", cp, have, addrs)
        for a in addrs:
            if a is not None:
                env.check(a in have, "item of class path", cp, a, have)
    env.check(len(v.classpaths) == len(wc), "number of class paths", list(v.classpaths.keys()))
    # every item knows its parent
    for x in want:
        if x.addr is not None and x.addr in v.addresses:
            i = v.addresses[x.addr]
            if x.parent is None:
                env.check(i.parent is None, "parent of the root", x.addr)
            else:
                env.check(
                    i.parent is not None and i.parent.h5_address == x.parent.addr,
                    "parent", x.addr, x.parent.addr,
                )
    return sorted(got)


KLASS = [Val("bytes", "NXnote"), Val("strs", ["NXnote"]), Val("bytess", ["NXnote", "NXdata"]),
         Val("int", 3), Val("empty"), Val("strs", []), Val("str", ""), Val("str", "nxnote"),
         Val("str", "NX"), Val("str", "NX/x"), Val("str", "NX_class"), Val("str", "NXa@b"), Val("float", 1.5),
         Val("str", "xNXnote"), Val("str", " NXnote"), Val("str", "NXnöte")]


def s_names(env):
    ch = env.ch
    n1 = ch.str("n1", LENS, exclude="/@")
    n2 = ch.str("n2", LENS, exclude="/@")
    an = ch.str("a", LENS, exclude="")
    ch.assume(n1 != "." and n2 != ".")
    shape = ch.pick("shape", ["deep", "siblings", "plain top"])
    root = group(None)
    root.set(an, Val("int", 1))
    if shape == "deep":
        a = root.add(n1, group("NXentry"))
        b = a.add(n2, group("NXdata"))
        b.set(an, Val("str", "x"))
        d = b.add(n1, dataset())
        d.set(an, Val("str", "y"))
    elif shape == "siblings":
        ch.assume(n1 != n2)
        a = root.add(n1, group("NXentry"))
        b = root.add(n2, group("NXentry"))
        a.set(an, Val("str", "x"))
        b.add(n1, dataset()).set(an, Val("int", 2))
        a.add(n2, group(None)).add(n1, group("NXdata")).set(an, Val("int", 2))
    else:
        a = root.add(n1, group(None))
        a.set(an, Val("str", "x"))
        b = a.add(n2, group("NXdata"))
        b.add(n1, dataset())
        root.add(n1 + "x", dataset())
    env.reach(shape)
    return compare(env, root)


def s_class(env):
    ch = env.ch
    form = ch.pick("form", ["NX+", "free"])
    if form == "NX+":
        s = "NX" + ch.str("class", [0] + LENS)
    else:
        s = ch.str("class", [0] + LENS + [LENS[-1] + 1])
    kind = ch.pick("kind", ["str", "bytes"])
    where = ch.pick("where", ["top", "inner", "dataset", "root", "inside plain"])
    root = group(None)
    a = root.add("a", group("NXentry"))
    b = a.add("b", group("NXnote"))
    b.add("d", dataset())
    p = a.add("p", group(None))
    q = p.add("q", group("NXnote"))
    q.add("d", dataset())
    t = {"top": a, "inner": b, "dataset": a.add("e", dataset()), "root": root, "inside plain": q}[where]
    t.attrs = [("NX_class", Val(kind, s)), ("units", Val("str", "m"))]
    env.reach(where)
    return compare(env, root)


def s_kind(env):
    ch = env.ch
    k1 = ch.pick("k1", KLASS)
    where = ch.pick("where", ["top", "inner", "dataset"])
    root = group(None)
    a = root.add("a", group("NXentry"))
    b = a.add("b", group("NXnote"))
    b.add("d", dataset())
    t = {"top": a, "inner": b, "dataset": a.add("e", dataset())}[where]
    t.attrs = [("z", Val("int", 1)), ("NX_class", k1), ("A", Val("ints", [1, 2]))]
    env.reach(where)
    return compare(env, root)


TARGETS = ["/", "/a", "/a/b", "/a/b/d", "/a/p", "/a/p/q", "/a/zz", "/zz/y", "/a/l", "/a/l/b", "/m", "a", ".", "/a/b/"]


def s_links(env):
    """two links anywhere, to anywhere: chains, circles, nowhere"""
    ch = env.ch
    t1 = ch.pick("t1", TARGETS)
    t2 = ch.pick("t2", TARGETS)
    w1 = ch.pick("w1", ["a", "b", "p"])
    first = ch.bool("first")
    root = group(None)
    a = root.add("a", group("NXentry"))
    spots = {"a": a}
    if first:
        a.add("l", soft(t1))
    b = a.add("b", group("NXnote"))
    b.set("k", Val("str", "v"))
    b.add("d", dataset()).set("k", Val("str", "v"))
    p = a.add("p", group(None))
    p.add("q", group("NXnote"))
    spots["b"], spots["p"] = b, p
    ch.assume(not (first and w1 != "a"))
    if not first:
        spots[w1].add("l", soft(t1))
    # a path without a leading slash starts at the link's group: kept to root
    ch.assume(not (t1 in ("a", ".") ))
    root.add("m", soft(t2))
    env.reach(w1)
    return compare(env, root)


def s_hard(env):
    ch = env.ch
    root = group(None)
    a = root.add("a", group("NXentry"))
    b = a.add("b", group("NXnote"))
    d = b.add("d", dataset())
    d.set("target", Val("str", "/a/b/d"))
    p = root.add("p", group(None))
    q = p.add("q", group("NXdata"))
    nodes = {"root": root, "a": a, "b": b, "d": d, "p": p, "q": q}
    names = ["root", "a", "b", "d", "p", "q"]
    t1, w1 = ch.pick("t1", names), ch.pick("w1", ["root", "a", "b", "p", "q"])
    t2, w2 = ch.pick("t2", names), ch.pick("w2", ["root", "b", "q"])
    nodes[w1].add("h1", hard(nodes[t1]))
    nodes[w2].add("h2", hard(nodes[t2]))
    env.reach(w1)
    return compare(env, root)


def s_external(env):
    ch = env.ch
    other = group(None)
    o = other.add("entry", group("NXentry"))
    od = o.add("data", group("NXdata"))
    od.set("signal", Val("str", "y"))
    od.add("y", dataset())
    od.add("z", soft("/entry/data/y"))
    p = env.h5file(other, "other.h5")
    path = ch.pick("path", ["/entry/data", "/entry/data/y", "/entry", "/", "/entry/data/z", "/nope"])
    fn = ch.pick("file", ["other.h5", "gone.h5"])
    where = ch.pick("where", ["entry", "data", "plain", "root"])
    nm = ch.pick("name", ["link", "data", "y"])
    root = group(None)
    e = root.add("entry", group("NXentry"))
    n = e.add("ndata", group("NXdata"))
    n.add("x", dataset())
    pl = e.add("plain", group(None))
    t = {"entry": e, "data": n, "plain": pl, "root": root}[where]
    x = external(fn, path)
    x.extra["root"] = other if fn == "other.h5" else None
    t.add(nm, x)
    env.reach(fn)
    return compare(env, root)


def s_attrs(env):
    """two attributes of one object"""
    ch = env.ch
    a1 = ch.str("a1", LENS)
    a2 = ch.str("a2", LENS)
    ch.assume(a1 != a2)
    for a in (a1, a2):
        ch.assume(a != "NX_class")
    where = ch.pick("where", ["root", "group", "dataset", "plain"])
    root = group(None)
    e = root.add("entry", group("NXentry"))
    d = e.add("d", dataset())
    p = e.add("p", group(None))
    t = {"root": root, "group": e, "dataset": d, "plain": p}[where]
    t.set(a1, Val("int", 1))
    t.set(a2, Val("str", "1"))
    env.reach(where)
    return compare(env, root)


def s_nested(env):
    """names and classes repeated from level to level"""
    ch = env.ch
    c1 = "NX" + ch.str("c1", [1] if not THOROUGH else [1, 2])
    c2 = "NX" + ch.str("c2", [1])
    n1 = ch.str("n1", [1, 3] if THOROUGH else [3], exclude="/@.")
    d = ch.str("d", [1, 3] if THOROUGH else [3], exclude="/@.")
    plain = ch.pick("plain", ["no", "middle", "last"])
    root = group(None)
    g1 = root.add(n1, group(c1))
    g2 = g1.add(n1, group(None if plain == "middle" else c1))
    g3 = g2.add(n1, group(None if plain == "last" else c2))
    g3.add(d, dataset()).set("x", Val("int", 1))
    ch.assume(d != n1)
    g2.add(d, dataset())
    env.reach(plain)
    return compare(env, root)


def s_large(env):
    """many groups, datasets and attributes, and groups many levels deep"""
    ch = env.ch
    form = ch.pick("form", ["wide", "deep", "attributes", "lists"])
    name = ch.str("name", [2], [(0x61, 0x7A)])
    root = group(None)
    e = root.add("entry", group("NXentry"))
    if form == "wide":
        n = ch.pick("n", [12, 30])
        at = ch.pick("at", [0, n // 2, n - 1])
        for i in range(n):
            c = e.add("g%02d" % i if i != at else name, group("NXdata" if i % 3 else None))
            c.set("k", Val("int", i))
            c.add("d%d" % i, dataset()).set("u", Val("str", "m"))
    elif form == "deep":
        n = ch.pick("n", [9, 16])
        at = ch.pick("at", [0, n // 2, n - 1])
        plain = ch.pick("plain", [None, 0, n // 2, n - 1])
        same = ch.bool("same name")
        g = e
        for i in range(n):
            nm = name if i == at or same else "g%d" % i
            g = g.add(nm, group(None if i == plain else "NXnote"))
            g.set("k", Val("int", i))
        g.add("d", dataset()).set(name, Val("str", "m"))
    elif form == "attributes":
        n = ch.pick("n", [12, 30])
        at = ch.pick("at", [0, n // 2, n - 1])
        t = ch.pick("of", ["root", "group", "dataset", "plain"])
        o = {"root": root, "group": e, "dataset": e.add("d", dataset()), "plain": e.add("p", group(None))}[t]
        for i in range(n):
            o.set(name if i == at else "a%02d" % i, Val("int", i))
    else:
        n = ch.pick("n", [12, 30])
        at = ch.pick("at", [0, n // 2, n - 1])
        d = e.add("d", group("NXdata"))
        for i in range(n):
            d.add(name if i == at else "a%02d" % i, dataset())
            root.add("e%02d" % i, group("NXentry")).add(name, group("NXnote"))
    env.reach(form)
    return compare(env, root)


SCENARIOS = [
    Scenario("large files", s_large, ["wide", "deep", "attributes", "lists"]),
    Scenario("attributes", s_attrs, ["root", "plain"]),
    Scenario("nested", s_nested, ["no", "middle", "last"]),
    Scenario("names", s_names, ["deep", "siblings", "plain top"]),
    Scenario("class text", s_class, ["top", "inner", "dataset", "root", "inside plain"]),
    Scenario("class value", s_kind, ["top", "inner", "dataset"]),
    Scenario("soft links", s_links, ["a", "b", "p"]),
    Scenario("hard links", s_hard, ["root", "q"]),
    Scenario("external links", s_external, ["other.h5", "gone.h5"]),
]
