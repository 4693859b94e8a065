"""V02: judgement of the names of groups, datasets, links, attributes, classes"""

from props.common import *  # noqa
from props.common import Scenario, THOROUGH
from sx import env as E

LENS = [1, 2, 3] if not THOROUGH else [1, 2, 3, 4]
BOUNDS = (
    "one item of symbolic name (1..%d characters, or up to 132 of which 1 or 2 are symbolic; every character of the alphabet "
    "except '/'; '.' alone excluded, HDF5 does not store it) in a file of at most 4 "
    "objects; class values of up to %d characters" % (LENS[-1], LENS[-1] + 2)
)
ASSUMPTIONS = [
    "file set v3.3 (the naming patterns are the same text in all shipped file sets)",
    "an item name with '@' directly inside an NXcollection may be WARN or ERROR",
]


def setup(mode):
    E.load_validators([("v3.3", 0)])


def s_child(env):
    """one item of symbolic name, as dataset / group / link, in several parents"""
    ch = env.ch
    kind = ch.pick("kind", ["dataset", "nxgroup", "plain", "soft", "hard"])
    where = ch.pick("where", ["NXentry", "NXcollection", "plain", "root", "below collection"])
    nm = ch.str("name", LENS if where != "below collection" else LENS[:2], exclude="/")
    ch.assume(nm != ".")
    root = group(None)
    if where == "root":
        parent, base = root, ""
    else:
        e = root.add("entry", group("NXentry"))
        parent, base = e, "/entry"
        if where == "NXcollection":
            parent, base = e.add("coll", group("NXcollection")), "/entry/coll"
        elif where == "plain":
            parent, base = e.add("coll", group(None)), "/entry/coll"
        elif where == "below collection":
            parent, base = e.add("coll", group("NXcollection")), "/entry/coll"
            for i in range(ch.pick("depth", [1, 2, 4])):
                parent, base = parent.add("g", group("NXnote")), base + "/g"
    if kind == "dataset":
        parent.add(nm, dataset())
    elif kind == "nxgroup":
        parent.add(nm, group("NXnote"))
    elif kind == "plain":
        parent.add(nm, group(None))
    else:
        ch.assume(not (where == "root" and nm == "zz"))
        z = root.add("zz", dataset())
        parent.add(nm, soft("/zz") if kind == "soft" else hard(z))
    v, e = validated(env, root)
    if e is not None:
        return exc(e)
    fs = findings(v)
    addr = base + "/" + nm
    got = at(fs, addr, "validItemName")
    # a plain group is not part of the collection's NeXus structure
    if where in ("NXcollection", "below collection") and kind != "plain":
        want = "WARN"
        if "@" in nm:
            env.check(got in (["WARN"], ["ERROR"]), "item name", addr, got, want)
            return fs
    else:
        want = name_status(nm)
    env.check(got == [want], "item name", addr, got, want)
    env.reach(kind + " " + want)
    return fs


def s_attr(env):
    """an attribute of symbolic name"""
    ch = env.ch
    where = ch.pick(
        "where", ["root", "entry", "dataset", "coll", "plain", "ownlink", "badtarget"]
    )
    nm = ch.str("name", LENS)
    kind = ch.pick("value", ["str", "int"])
    val = Val("str", "hello") if kind == "str" else Val("int", 7)
    root = group(None)
    e = root.add("entry", group("NXentry"))
    d = e.add("zz", dataset())
    c = e.add("coll", group("NXcollection"))
    p = e.add("plain", group(None))
    node, addr = {
        "root": (root, "/"),
        "entry": (e, "/entry"),
        "dataset": (d, "/entry/zz"),
        "coll": (c, "/entry/coll"),
        "plain": (p, "/entry/plain"),
        "ownlink": (d, "/entry/zz"),
        "badtarget": (d, "/entry/zz"),
    }[where]
    node.set(nm, val)
    if where == "ownlink":
        d.set("target", Val("str", "/entry/zz"))
        e.add("copy", soft("/entry/zz"))
    elif where == "badtarget":
        d.set("target", Val("int", 3))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    got = at(fs, addr + "@" + nm, "validItemName")
    want = "OK" if relaxed_name(nm) else "ERROR"
    if where == "plain":
        env.check(got == [], "attribute of non-NeXus group judged", addr, got)
    else:
        env.check(got == [want], "attribute name", addr, got, want)
    if where == "ownlink":
        # judged with the source, not with the link
        got = at(fs, "/entry/copy@" + nm, "validItemName")
        env.check(got == [], "attribute judged again at the link", got)
    env.reach(where + " " + want)
    return fs


def s_class(env):
    """@NX_class text: must match a class name pattern (in full)"""
    ch = env.ch
    where = ch.pick("where", ["root", "dataset", "group"])
    form = ch.pick("form", ["str", "bytes"])
    lens = [1, 2, 3, 4] if not THOROUGH else [1, 2, 3, 4, 5]
    if where == "group":
        s = "NX" + ch.str("class", [0] + lens[:-2])
    else:
        s = ch.str("class", [0] + lens)
    root = group(None)
    e = root.add("entry", group("NXentry"))
    d = e.add("zz", dataset())
    node, addr = {"root": (root, "/"), "dataset": (d, "/entry/zz"), "group": (None, "/g")}[where]
    if where == "group":
        node = root.add("g", group(None))
    node.set("NX_class", Val(form, s))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    got = at(fs, addr + "@NX_class", "validItemName")
    want = "OK" if class_name(s) else "ERROR"
    env.check(got == [want], "NX_class text", addr, got, want)
    env.reach(where + " " + want)
    return fs


def s_class_other(env):
    """@NX_class that is not a text"""
    ch = env.ch
    where = ch.pick("where", ["root", "dataset"])
    val = ch.pick(
        "value",
        [Val("int", 1), Val("empty"), Val("strs", ["NXroot", "NXentry"]), Val("strs", []),
         Val("floats", [1.0, 2.0]), Val("bytess", ["NXroot"])],
    )
    root = group(None)
    e = root.add("entry", group("NXentry"))
    d = e.add("zz", dataset())
    (root if where == "root" else d).set("NX_class", val)
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    addr = "/" if where == "root" else "/entry/zz"
    got = at(fs, addr + "@NX_class", "validItemName")
    env.check(got == ["ERROR"], "NX_class not a text", addr, got)
    env.reach(where)
    return fs


def s_once(env):
    """several items: every one judged exactly once, each by its own name"""
    ch = env.ch
    names = [
        ch.pick("n1", ["abc", "Abc", "1abc", "a b", "a-b", "_x9"]),
        ch.pick("n2", ["q", "Q", "é", "Zé"]),
        ch.pick("n3", ["signal", "axes", "NX_class", "target", "validItemName", "definition"]),
    ]
    deep = ch.bool("deep")
    root = group(None)
    e = root.add("entry", group("NXentry"))
    a, b, c = names
    want = {"/entry": name_status("entry")}
    e.add(a, dataset())
    want["/entry/" + a] = name_status(a)
    g = e.add(b, group("NXdata"))
    want["/entry/" + b] = name_status(b)
    if deep:
        h = g.add("k", group("NXcollection"))
        want["/entry/" + b + "/k"] = "WARN"
        h.add(c, dataset())
        want["/entry/" + b + "/k/" + c] = "WARN"
        i = g.add(c, group("NXnote"))
        want["/entry/" + b + "/" + c] = name_status(c)
        i.add(a, dataset())
        want["/entry/" + b + "/" + c + "/" + a] = name_status(a)
    else:
        g.add(c, dataset())
        want["/entry/" + b + "/" + c] = name_status(c)
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    for addr, w in want.items():
        env.check(at(fs, addr, "validItemName") == [w], "item name", addr, at(fs, addr, "validItemName"), w)
    total = len([f for f in fs if f[1] == "validItemName" and "@" not in f[0]])
    env.check(total == len(want), "number of name findings", total, len(want))
    env.reach("done")
    return fs


def s_long(env):
    """names of any length"""
    ch = env.ch
    n = ch.pick("n", [30, 61, 62, 63, 64, 130])
    s = ch.str("s", [1, 2], exclude="/")
    where = ch.pick("where", ["front", "middle", "behind"])
    fill = "abcdefghij" * 26
    i = {"front": 0, "middle": n // 2, "behind": n}[where]
    nm = fill[:i] + s + fill[i:n]
    kind = ch.pick("kind", ["dataset", "group", "attribute", "class"])
    root = group(None)
    e = root.add("entry", group("NXentry"))
    addr = "/entry/" + nm
    want = name_status(nm)
    if kind == "dataset":
        e.add(nm, dataset())
    elif kind == "group":
        e.add(nm, group("NXnote"))
    elif kind == "attribute":
        e.set(nm, Val("str", "x"))
        addr, want = "/entry@" + nm, "OK" if relaxed_name(nm) else "ERROR"
    else:
        nm = "NX" + nm
        d = e.add("d", dataset())
        d.set("NX_class", Val("str", nm))
        addr, want = "/entry/d@NX_class", "OK" if class_name(nm) else "ERROR"
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    got = at(fs, addr, "validItemName")
    env.check(got == [want], "long name", addr, got, want)
    env.reach(kind + " " + want)
    return fs


SCENARIOS = [
    Scenario("long names", s_long, ["dataset OK", "group NOTE", "attribute ERROR", "class OK"]),
    Scenario("child name", s_child, ["dataset OK", "dataset NOTE", "dataset ERROR", "soft OK", "nxgroup WARN", "plain ERROR"]),
    Scenario("attribute name", s_attr, ["entry OK", "entry ERROR", "dataset OK", "ownlink OK", "coll ERROR"]),
    Scenario("class text", s_class, ["root OK", "root ERROR", "dataset OK", "dataset ERROR", "group OK"]),
    Scenario("class not text", s_class_other, ["root", "dataset"]),
    Scenario("all items once", s_once, ["done"]),
]
