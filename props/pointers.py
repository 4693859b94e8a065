"""V07: attributes that name other items"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import tree
from sx import env as E

LEN = [1, 2, 3] if THOROUGH else [1, 2]
BOUNDS = (
    "pointer texts and item names symbolic, up to %d characters; axes of up to 3 names; "
    "targets of up to 4 path components; fields, groups, links, dangling links behind them" % LEN[-1]
)
ASSUMPTIONS = ["@signal, @default and @axes texts with '/' or equal to '.' or '..' are outside"]


def setup(mode):
    E.load_validators([("v3.3", 0)])


def world():
    root = group(None)
    e = root.add("e", group("NXentry"))
    d = e.add("d", group("NXdata"))
    return root, e, d


def behind(what):
    return {"field": dataset(), "group": group("NXnote"), "plain": group(None), "dead": soft("/gone"),
            "link": soft("/e/far"), "loop": soft("/e/loop")}[what]


def there(what):
    return what not in ("dead", "loop")


def s_signal(env):
    """@signal of a group"""
    ch = env.ch
    s = ch.str("signal", LEN, exclude="/")
    y = ch.str("y", LEN, exclude="/@")
    ch.assume(s != "." and y != "." and s != ".." and y != "..")
    cls = ch.pick("class", ["NXdata", "NXnote", "NXentry"])
    what = ch.pick("what", ["field", "group", "dead", "link", "loop"])
    kind = ch.pick("kind", ["str", "bytes"])
    root, e, d = world()
    e.add("far", dataset())
    e.add("loop", soft("/e/loop"))
    g = root.add("g", group(cls))
    g.set("signal", Val(kind, s))
    ch.assume(y != "zz")
    g.add("zz", dataset())
    g.add(y, behind(what))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    ok = (s == y and there(what)) or s == "zz"
    want = "OK" if ok else "ERROR"
    got = at(fs, "/g@signal", "attribute value")
    env.check(got == [want], "signal names an item", s, y, what, got, want)
    got = at(fs, "/g@signal", "valid name @signal=" + s)
    env.check(got == [name_status(s)], "signal is a valid name", s, got)
    if cls == "NXdata":
        got = at(fs, "/g@signal", "value of @signal")
        env.check(got == [want], "signal of NXdata", s, y, what, got, want)
    env.reach(want)
    return fs


def s_field_signal(env):
    ch = env.ch
    form = ch.pick("form", ["str", "bytes", "int", "other"])
    root, e, d = world()
    x = d.add("x", dataset())
    if form in ("str", "bytes"):
        t = ch.str("text", [0, 1, 2])
        # digits of other scripts: not decided here
        for i in range(len(t)):
            ch.assume(t[i] < "\x7f")
        x.set("signal", Val(form, t))
        ok = t == "1" or t == "01"
    elif form == "int":
        n = ch.int("n", -3, 12)
        x.set("signal", Val("int", n))
        ok = n == 1
    else:
        o = ch.pick("o", [Val("float", 1.0), Val("empty"), Val("ints", [1]), Val("strs", ["1"]), Val("bool", True)])
        x.set("signal", o)
        ok = False
    v, r = validated(env, root)
    if r is not None:
        return exc(r)
    fs = findings(v)
    got = at(fs, "/e/d/x@signal", "attribute value")
    want = "OK" if ok else "NOTE"
    env.check(got == [want], "signal of a field", form, got, want)
    env.reach(form + " " + want)
    return fs


def s_axes(env):
    ch = env.ch
    n = ch.pick("n", [1, 3])
    form = ch.pick("form", ["text", "array", "bytes array"])
    ch.assume(not (form == "text" and n > 1))
    names = []
    for i in range(n):
        if i == 0:
            a = ch.str("axis%d" % i, LEN, exclude="/")
            ch.assume(a != "." and a != "..")
        else:
            a = ch.pick("axis%d" % i, ["zz", "B"] if i == 1 else ["q", "1a"])
        names.append(a)
    y = ch.str("y", [1], exclude="/@.")
    what = ch.pick("what", ["field", "dead", "link"] if n == 1 else ["field"])
    root, e, d = world()
    e.add("far", dataset())
    where = ch.pick("where", ["NXdata", "root"] if n == 1 else ["NXdata"])
    g, addr = (d, "/e/d") if where == "NXdata" else (root, "/")
    ch.assume(y != "e")
    g.add("zz", dataset())
    g.add(y, behind(what))
    if form == "text":
        g.set("axes", Val("str", names[0]))
    else:
        g.set("axes", Val("strs" if form == "array" else "bytess", names))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    have = [y, "zz"] if there(what) else ["zz"]
    if where == "root":
        have.append("e")
    for a in names:
        times = 0
        for b in names:
            if a == b:
                times += 1
        want = "OK" if a in have else "ERROR"
        got = at(fs, addr + "@axes", "axes['" + a + "'] exists")
        env.check(got == [want] * times, "axis names an item", a, got, want)
        got = at(fs, addr + "@axes", "valid name @axes['" + a + "']")
        env.check(got == [name_status(a)] * times, "axis is a valid name", a, got)
        env.reach(want)
    return fs


def s_axes_many(env):
    """many axes, one of them symbolic"""
    ch = env.ch
    n = ch.pick("n", [4, 8, 33])
    at_ = ch.pick("at", [0, n // 2, n - 1])
    s = ch.str("axis", [1], exclude="/.")
    y = ch.str("y", [1], exclude="/@.")
    gone = ch.pick("gone", [None, 0, n - 1])
    names = [s if i == at_ else "a%d" % i for i in range(n)]
    root, e, d = world()
    for i in range(n):
        if i != gone:
            d.add("a%d" % i, dataset())
    d.add(y, dataset())
    d.set("axes", Val(ch.pick("form", ["strs", "bytess"]), names))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    for i in range(n):
        a = names[i]
        if i == at_:
            want = "OK" if s == y else "ERROR"
        else:
            want = "ERROR" if i == gone else "OK"
        got = at(fs, "/e/d@axes", "axes['" + a + "'] exists")
        env.check(got == [want], "axis names an item", a, got, want)
        got = at(fs, "/e/d@axes", "valid name @axes['" + a + "']")
        env.check(got == [name_status(a)], "axis is a valid name", a, got)
        if i == at_:
            env.reach(want)
    return fs


PATHS = ["/e", "/e/d", "/e/d/x", "/e/d/q", "/e/l", "/e/l/x", "/e/dead", "/e/loop", "/e/dead/x", "/q", "/e/d/x/y",
         "/", "", "e/d/x", "//e", "/e//d", "/e/d/", "/e/./d", "/e/1a", "/e/D", "/e/a b"]


def tree_file():
    root, e, d = world()
    d.add("x", dataset())
    e.add("l", soft("/e/d"))
    e.add("dead", soft("/nowhere"))
    e.add("loop", soft("/e/loop"))
    e.add("1a", dataset())
    e.add("D", dataset())
    e.add("a b", dataset())
    return root, e, d


def target_ok(root, t):
    if not t.startswith("/"):
        return False
    for p in t[1:].split("/"):
        if not relaxed_name(p):
            return False
    return tree.find(root, t) is not None


def s_target(env):
    """@target: an absolute address of an item of the file"""
    ch = env.ch
    form = ch.pick("form", ["path", "tail", "symbolic"])
    root, e, d = tree_file()
    if form == "path":
        t = ch.pick("path", PATHS)
    elif form == "tail":
        t = ch.pick("head", ["/e/", "/e/d/", "/e/l/", "/"]) + ch.str("tail", LEN)
    else:
        t = ch.str("target", [0, 1, 2, 3])
    where = ch.pick("where", ["field", "group", "root"])
    n, addr = {"field": (d.children[0][1], "/e/d/x"), "group": (d, "/e/d"), "root": (root, "/")}[where]
    n.set("target", Val(ch.pick("kind", ["str", "bytes"]), t))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    want = "OK" if target_ok(root, t) else "ERROR"
    got = at(fs, addr + "@target", "attribute value")
    env.check(got == [want], "target", t, got, want)
    env.reach(where + " " + want)
    return fs


def s_target_other(env):
    ch = env.ch
    root, e, d = tree_file()
    val = ch.pick("val", [Val("int", 1), Val("strs", ["/e/d"]), Val("empty"), Val("strs", []), Val("floats", [1.0])])
    d.set("target", val)
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    got = at(fs, "/e/d@target", "attribute value")
    env.check(got == ["ERROR"], "target not a text", got)
    env.reach("ERROR")
    return fs


def s_default(env):
    """@default of root, entry, subentry"""
    ch = env.ch
    s = ch.str("default", LEN, exclude="/")
    y = ch.str("y", LEN, exclude="/@")
    ch.assume(s != "." and y != "." and s != ".." and y != ".." and y not in ("e", "d", "s"))
    what = ch.pick("what", ["field", "group", "dead", "link"])
    where = ch.pick("where", ["root", "entry", "subentry"])
    kind = ch.pick("kind", ["str", "bytes"])
    root, e, d = world()
    b = e.add("s", group("NXsubentry"))
    n, addr, have = {"root": (root, "/", ["e"]), "entry": (e, "/e", ["d", "s"]), "subentry": (b, "/e/s", [])}[where]
    if what == "link":
        root.children.insert(0, ("far0", dataset()))
        n.add(y, soft("/far0"))
        have = have + (["far0"] if where == "root" else [])
        ch.assume(y != "far0")
    else:
        n.add(y, behind(what))
    n.set("default", Val(kind, s))
    if there(what):
        have = have + [y]
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    want = "OK" if s in have else "ERROR"
    got = at(fs, addr + "@default", "value of @default")
    env.check(got == [want], "default names an item", s, y, what, got, want)
    env.reach(where + " " + want)
    return fs


SCENARIOS = [
    Scenario("signal of a group", s_signal, ["OK", "ERROR"]),
    Scenario("signal of a field", s_field_signal, ["str OK", "int OK", "int NOTE", "other NOTE"]),
    Scenario("axes", s_axes, ["OK", "ERROR"]),
    Scenario("many axes", s_axes_many, ["OK", "ERROR"]),
    Scenario("target", s_target, ["field OK", "field ERROR", "group OK", "root OK"]),
    Scenario("target not text", s_target_other, ["ERROR"]),
    Scenario("default", s_default, ["root OK", "root ERROR", "entry OK", "subentry OK"]),
]
