"""V04: validation gives a result for every readable HDF5 file"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import tree
from sx import env as E
from sx import rawvals

BOUNDS = (
    "files of at most 8 objects; one attribute of any name of the validator's vocabulary (or a "
    "symbolic one) with 43 kinds of value at 6 places; definition items of 14 kinds; links of 14 "
    "targets under 8 names; symbolic pointer texts up to %d characters" % (3 if THOROUGH else 2)
)
ASSUMPTIONS = ["NUL characters in HDF5 texts are outside"]
REFS = ["v3.3", "v2018.5", "a4fd52d"]
STATUS = ["OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL"]

ATTRS = ["signal", "axes", "target", "default", "NX_class", "units", "axis", "primary", "definition",
         "name", "x_indices", "file_name", "@", "a@b", "canSAS_class", "version"]
VALUES = [
    Val("str", ""), Val("str", "x"), Val("str", "/"), Val("str", "//"), Val("str", "/entry/data/"),
    Val("str", "1"), Val("str", "²"), Val("str", "a b"), Val("bytes", "x"), Val("bytes", "é"),
    Val("strs", []), Val("strs", ["x"]), Val("strs", ["x", "."]), Val("bytess", ["x", "yy"]),
    Val("int", 0), Val("int", 1), Val("ints", [1, 2]), Val("float", 1.5), Val("floats", []),
    Val("bool", True), Val("empty"),
] + [Val("raw", k) for k in rawvals.MAKE]


def setup(mode):
    E.load_validators([(r, 0) for r in REFS])


def judged(env, root, ref="v3.3", report=True):
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = findings(v)
    for f in fs:
        env.check(f[2] in STATUS, "unknown status", f)
        env.check(f[0] is not None, "finding without address", f)
    env.check(len(named(fs, "NeXus default plot")) == 1, "default plot finding", named(fs, "NeXus default plot"))
    if report:
        st, r = env.run(v.print_report)
        env.check(st == "ok", "report fails", exc(r) if st != "ok" else None)
    return fs


def base():
    root = group(None)
    e = root.add("entry", group("NXentry"))
    e.set("default", Val("str", "data"))
    d = e.add("data", group("NXdata"))
    d.set("signal", Val("str", "x"))
    x = d.add("x", dataset(Val("ints", [1, 2])))
    p = e.add("plain", group(None))
    p.add("y", dataset())
    return root, {"root": root, "entry": e, "data": d, "x": x, "plain": p, "y": p.children[0][1]}


def s_attr(env):
    ch = env.ch
    name = ch.pick("name", ATTRS)
    val = ch.pick("value", VALUES)
    where = ch.pick("where", ["root", "entry", "data", "x", "plain", "y"])
    root, nodes = base()
    n = nodes[where]
    n.attrs = [(k, v) for k, v in n.attrs if k != name]
    n.set(name, val)
    env.reach(where)
    return judged(env, root, "v3.3")


def s_attr_text(env):
    """symbolic text in the attributes with a meaning"""
    ch = env.ch
    name = ch.pick("name", ["signal", "axes", "target", "default", "NX_class"])
    val = Val(ch.pick("kind", ["str", "strs"]), None)
    where = ch.pick("where", ["root", "data", "x"])
    s = ch.str("text", [1, 2] if not THOROUGH else [1, 2, 3])
    if name == "target":
        s = "/" + s
    val.data = s if val.kind == "str" else [s, "x"]
    root, nodes = base()
    n = nodes[where]
    n.attrs = [(k, v) for k, v in n.attrs if k != name]
    n.set(name, val)
    env.reach(name)
    return judged(env, root, "v3.3", False)


def s_names(env):
    """a symbolic name for each kind of item"""
    ch = env.ch
    nm = ch.str("name", [1, 2] if not THOROUGH else [1, 2, 3], exclude="/")
    ch.assume(nm != "." and nm != "..")
    kind = ch.pick("kind", ["dataset", "group", "plain", "soft", "dead", "attribute"])
    where = ch.pick("where", ["root", "entry", "data", "plain"])
    root, nodes = base()
    n = nodes[where]
    for k, c in n.children:
        ch.assume(k != nm)
    if kind == "attribute":
        n.set(nm, Val("str", "x"))
    else:
        n.add(nm, {
            "dataset": dataset(), "group": group("NXnote"), "plain": group(None),
            "soft": soft("/entry/data"), "dead": soft("/gone"),
        }[kind])
    env.reach(kind)
    return judged(env, root, "v3.3", False)


DEFS = [
    Val("str", "NXsas"), Val("bytes", "NXsas"), Val("strs", ["NXsas"]), Val("strs", ["NXarpes", "NXsas"]),
    Val("strs", []), Val("int", 1), Val("ints", [1, 2]), Val("floats", []), Val("empty"), Val("str", ""),
    Val("str", "NXdata"), Val("str", "NXnothing"), Val("bytess", ["NXsas"]), Val("float", 2.5),
]


def s_definition(env):
    ch = env.ch
    form = ch.pick("form", ["dataset", "group", "link", "dead link", "loop", "attribute"])
    val = ch.pick("value", DEFS) if form in ("dataset", "link") else DEFS[0]
    where = ch.pick("where", ["entry", "subentry"])
    ref = ch.pick("ref", REFS)
    root, nodes = base()
    e = nodes["entry"]
    if where == "subentry":
        e = e.add("sub", group("NXsubentry"))
    if form == "dataset":
        e.add("definition", dataset(val))
    elif form == "group":
        e.add("definition", group("NXnote"))
    elif form == "link":
        root.add("it", dataset(val))
        e.add("definition", soft("/it"))
    elif form == "dead link":
        e.add("definition", soft("/nowhere"))
    elif form == "loop":
        e.add("definition", soft("/entry/definition"))
    else:
        e.set("definition", val)
    env.reach(form)
    return judged(env, root, ref)


def s_appdef(env):
    """every application definition with one of its fields of some kind"""
    ch = env.ch
    name = ch.pick("def", ["NXsas", "NXarpes", "NXcanSAS", "NXmx", "NXtomo", "NXarchive", "NXscan", "NXspecdata"])
    field = ch.pick("field", ["title", "start_time", "definition_local", "name", "run", "experiment_identifier"])
    kind = ch.pick("kind", ["none", "text", "int", "group", "empty", "loop", "texts", "ints0"])
    root, nodes = base()
    e = nodes["entry"]
    e.add("definition", dataset(Val("str", name)))
    if kind == "group":
        e.add(field, group(None))
    elif kind == "loop":
        e.add(field, soft("/entry/" + field))
    elif kind != "none":
        e.add(field, dataset({
            "text": Val("str", "x"), "int": Val("int", 1), "empty": Val("empty"),
            "texts": Val("strs", []), "ints0": Val("ints", []),
        }[kind]))
    env.reach(kind)
    return judged(env, root, "v3.3")


LINKS = ["/", "/entry", "/entry/data", "/entry/data/x", "/gone", "/entry/lnk", "/lnk", "/entry/data/lnk",
         "/entry/plain", "/entry/plain/y", "/lnk/x", "/entry/lnk/data", "", "/entry/data/"]


def s_links(env):
    ch = env.ch
    t = ch.pick("to", LINKS)
    if t == "":
        t = "."
        ch.assume(False)
    name = ch.pick("name", ["lnk", "data", "definition", "entry", "x", "title", "instrument", "y"])
    where = ch.pick("where", ["root", "entry", "data", "plain"])
    kind = ch.pick("kind", ["soft", "external"])
    root, nodes = base()
    n = nodes[where]
    for k, c in n.children:
        ch.assume(k != name)
    n.add(name, soft(t) if kind == "soft" else external("data1.h5", t))
    if n.attr("signal") is None:
        n.set("signal", Val("str", name))
    n.set("target", Val("str", t))
    env.reach(kind)
    return judged(env, root)


def s_class(env):
    """odd class texts"""
    ch = env.ch
    form = ch.pick("form", ["sym", "odd"])
    if form == "sym":
        cls = "NX" + ch.str("cls", [0, 1, 2])
    else:
        cls = ch.pick("odd", ["NXdata/NXdata", "NXcollection@x", "NX/", "NX//", "NXentry@signal", "NX\n",
                              "NXentry/definition", "/NXentry", "NXsas", "NXmagnetic_kicker", "NXroot"])
    where = ch.pick("where", ["root", "top", "entry", "plain"])
    root, nodes = base()
    if where == "root":
        root.set("NX_class", Val("str", cls))
    else:
        g = {"top": root, "entry": nodes["entry"], "plain": nodes["plain"]}[where].add("g", group(Val("str", cls)))
        g.add("x", dataset(Val("str", "NXsas"), attrs=[("signal", Val("int", 1))]))
        g.set("signal", Val("str", "x"))
        g.add("definition", dataset(Val("str", "NXsas")))
    env.reach(form)
    return judged(env, root, "v3.3", form == "odd")


def s_file(env):
    """what cannot be read is reported as such, and leaves the validator usable"""
    ch = env.ch
    import punx

    what = ch.pick("what", ["missing", "garbage", "directory", "empty"])
    before = ch.bool("before")
    root, nodes = base()
    p0 = env.h5file(root, "good.h5")
    v = env.validator("v3.3")
    if before:
        st, r = env.run(v.validate, p0)
        env.check(st == "ok", "crash", exc(r) if st != "ok" else None)
    if what == "missing":
        p = env.path("nothing.h5")
    elif what == "garbage":
        p = env.garbage("bad.h5")
    elif what == "directory":
        p = env.scratch
    else:
        p = ""
    st, r = env.run(v.validate, p)
    want = punx.FileNotFound if what in ("missing", "empty") else punx.HDF5_Open_Error
    env.check(st == "exc" and isinstance(r, want), "unreadable file", what, st, exc(r) if st == "exc" else None)
    st, r = env.run(v.validate, p0)
    env.check(st == "ok", "crash after unreadable file", exc(r) if st != "ok" else None)
    st, r = env.run(v.close)
    env.check(st == "ok", "close", exc(r) if st != "ok" else None)
    st, r = env.run(v.close)
    env.check(st == "ok", "second close", exc(r) if st != "ok" else None)
    env.reach(what)
    return findings(v)


SCENARIOS = [
    Scenario("attribute kinds", s_attr, ["root", "entry", "data", "x", "plain", "y"]),
    Scenario("attribute texts", s_attr_text, ["signal", "axes", "target", "default", "NX_class"]),
    Scenario("names", s_names, ["dataset", "group", "plain", "soft", "dead", "attribute"]),
    Scenario("definition", s_definition, ["dataset", "group", "link", "dead link", "loop", "attribute"]),
    Scenario("application definitions", s_appdef, ["none", "group", "loop"]),
    Scenario("links", s_links, ["soft", "external"]),
    Scenario("classes", s_class, ["sym", "odd"]),
    Scenario("files", s_file, ["missing", "garbage", "directory", "empty"]),
]
