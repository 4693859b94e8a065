"""V03: the class a group declares, judged against the NXDL file set"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import nxdlref
from sx import env as E

REFS = ["v3.3", "v2018.5", "a4fd52d"]
BOUNDS = (
    "class text 'NX' + up to %d symbolic characters, and every class of the three shipped "
    "file sets; group at the first, second or third level, as text or fixed-length text; "
    "among 9 or 25 (thorough: 70) groups beside or in one another; long class names"
    % (7 if THOROUGH else 6)
)
ASSUMPTIONS = ["the file sets are read by an independent reader (props/nxdlref.py)"]


def setup(mode):
    E.load_validators([(r, 0) for r in REFS])
    for r in REFS:
        nxdlref.fileset(r)


def known(ref, s):
    for name, d in nxdlref.fileset(ref).items():
        if s == name:
            return d
    return None


def place(ch, cls, kind):
    where = ch.pick("where", ["top", "entry", "deep"])
    root = group(None)
    g = group(Val(kind, cls))
    if where == "top":
        root.add("g", g)
        addr = "/g"
    else:
        e = root.add("entry", group("NXentry"))
        if where == "entry":
            e.add("g", g)
            addr = "/entry/g"
        else:
            i = e.add("instrument", group("NXinstrument"))
            i.add("g", g)
            addr = "/entry/instrument/g"
    return root, g, addr, where


def judge(env, fs, addr, cls, d):
    """expected findings for a group of class cls (definition d, or None)"""
    got = at(fs, addr, "known NXDL")
    env.check(got == ["OK" if d is not None else "ERROR"], "class known", addr, cls, got)
    got = at(fs, addr, "NeXus base class")
    if d is None:
        env.check(got == ["ERROR"], "unknown class", addr, cls, got)
    elif d.as_base:
        env.check(got == ["OK", "TODO"], "base class", addr, cls, got)
    else:
        env.check("ERROR" in got and "OK" not in got, "application definition as group", addr, cls, got)
    got = at(fs, addr + "@NX_class", "attribute value")
    want = "OK" if d is not None and d.as_base else "ERROR"
    env.check(got == [want], "NX_class value", addr, cls, got, want)
    env.check(at(fs, addr, "NeXus_group") == [], "called not a NeXus group", addr, cls)


def s_symbolic(env):
    ch = env.ch
    ref = ch.pick("ref", REFS)
    n = [2, 3, 4, 5, 6] if THOROUGH else [3, 4, 6]
    cls = "NX" + ch.str("class", n)
    root, g, addr, where = place(ch, cls, ch.pick("kind", ["str", "bytes"]))
    g.add("x", dataset())
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = findings(v)
    d = known(ref, cls)
    judge(env, fs, addr, cls, d)
    env.reach("known" if d is not None else "unknown")
    return fs


def s_every(env):
    """every class of the file set, and near misses of it"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    names = sorted(nxdlref.fileset(ref))
    name = ch.pick("class", names)
    how = ch.pick("variant", ["as is", "upper", "suffix", "blank"])
    cls = {
        "as is": name, "upper": name.upper(), "suffix": name + ch.str("c", [1]), "blank": name + " ",
    }[how]
    root = group(None)
    root.add("entry", group("NXentry")).add("g", group(Val("str", cls)))
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = findings(v)
    d = known(ref, cls)
    judge(env, fs, "/entry/g", cls, d)
    judge(env, fs, "/entry", "NXentry", nxdlref.fileset(ref)["NXentry"])
    env.reach(how)
    if d is not None:
        env.reach(d.category + (" base" if d.as_base else " application"))
    return fs


OTHER = [None, Val("int", 1), Val("str", ""), Val("str", "entry"), Val("str", "nXdata"), Val("empty"),
         Val("strs", ["NXdata"]), Val("bytess", ["NXdata", "NXnote"]), Val("strs", [])]


def s_other(env):
    """groups that state no NeXus class, and what is below them"""
    ch = env.ch
    val = ch.pick("value", OTHER)
    txt = ch.bool("symbolic")
    if txt:
        val = Val("str", ch.str("class", [1, 2, 3]))
        ch.assume(not val.data.startswith("NX"))
    root = group(None)
    e = root.add("entry", group("NXentry"))
    where = ch.pick("where", ["entry", "root"])
    g, base = (e, "/entry") if where == "entry" else (root, "")
    p = g.add("p", group(None))
    if val is not None:
        p.set("NX_class", val)
    q = p.add("q", group("NXdata"))
    q.add("d", dataset())
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = findings(v)
    for a in (base + "/p", base + "/p/q"):
        env.check(at(fs, a, "NeXus_group") == ["OK"], "not a NeXus group", a, at(fs, a))
        for t in ("known NXDL", "NeXus base class"):
            env.check(at(fs, a, t) == [], "class of non-NeXus group judged", a, t, at(fs, a, t))
    judge(env, fs, "/entry", "NXentry", nxdlref.fileset("v3.3")["NXentry"])
    env.reach(where)
    return fs


def s_root(env):
    """@NX_class of the root and of datasets"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    form = ch.pick("form", ["known", "sym", "other"])
    if form == "known":
        cls = ch.pick("cls", ["NXroot", "NXentry", "NXsas", "NXarpes", "NXtranslation"])
        val = Val(ch.pick("kind", ["str", "bytes"]), cls)
    elif form == "sym":
        cls = ch.str("class", [1, 6])
        val = Val("str", cls)
    else:
        val = ch.pick("val", [Val("int", 1), Val("strs", ["NXroot"]), Val("empty")])
        cls = ""
    root = group(None)
    e = root.add("entry", group("NXentry"))
    d = e.add("x", dataset())
    where = ch.pick("where", ["root", "dataset"])
    n, addr = (root, "/") if where == "root" else (d, "/entry/x")
    n.set("NX_class", val)
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = findings(v)
    d = known(ref, cls)
    got = at(fs, addr + "@NX_class", "attribute value")
    want = "OK" if d is not None and d.as_base else "ERROR"
    env.check(got == [want], "NX_class value", addr, got, want)
    # the root is an NXroot whatever it states
    env.check(at(fs, "/", "known NXDL") == ["OK"], "root known", at(fs, "/"))
    env.check(at(fs, "/", "NeXus base class") == ["OK", "TODO"], "root class", at(fs, "/"))
    env.reach(where + " " + want)
    return fs


def s_among(env):
    """a class among many groups, side by side or in one another"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    shape = ch.pick("shape", ["beside", "chain"])
    n = ch.pick("groups", [9, 25] if not THOROUGH else [9, 25, 70])
    pos = ch.pick("position", ["first", "middle", "last"])
    at = {"first": 0, "middle": n // 2, "last": n - 1}[pos]
    kind = ch.pick("kind", ["symbolic", "long", "base", "definition", "none"])
    if kind == "symbolic":
        cls = "NX" + ch.str("class", [3, 4])
    elif kind == "long":
        cls = "NX" + "a" * 60 + ch.str("class", [1])
    elif kind == "base":
        names = sorted(c for c, d in nxdlref.fileset(ref).items() if d.as_base)
        cls = ch.pick("class", names if THOROUGH else names[:: len(names) // 4])
    elif kind == "definition":
        names = sorted(c for c, d in nxdlref.fileset(ref).items() if not d.as_base)
        cls = ch.pick("class", names if THOROUGH else names[:: len(names) // 2])
    else:
        cls = None
    cycle = ["NXdata", "NXnote", "NXthing", "NXsas", None, "NXdetector", "NXdata", "NXcollection", "NXnotes"]
    classes = [cycle[i % len(cycle)] for i in range(n)]
    classes[at] = cls
    root = group(None)
    e = root.add("entry", group("NXentry"))
    g, addr = e, "/entry"
    want = []
    nexus = True
    for i, c in enumerate(classes):
        x = g.add("g%d" % i, group(None if c is None else Val("str", c)))
        a = addr + "/g%d" % i
        want.append((a, c))
        if shape == "chain":
            g, addr = x, a
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = findings(v)
    for a, c in want:
        # below a group without a class nothing is judged
        nexus = nexus and (c is not None) if shape == "chain" else c is not None
        if nexus:
            judge(env, fs, a, c, known(ref, c))
        else:
            env.check(at_(fs, a) == ["OK"], "not a NeXus group", a, at_(fs, a))
            env.check(at2(fs, a) == [], "class of non-NeXus group judged", a)
    env.reach(kind)
    return fs


def at_(fs, a):
    return at(fs, a, "NeXus_group")


def at2(fs, a):
    return at(fs, a, "known NXDL") + at(fs, a, "NeXus base class")


SCENARIOS = [
    Scenario("among many groups", s_among, ["symbolic", "long", "base", "definition", "none"]),
    Scenario("symbolic class", s_symbolic, ["known", "unknown"]),
    Scenario("every class", s_every, ["as is", "upper", "suffix", "blank", "base_classes base", "applications application", "contributed_definitions base"]),
    Scenario("no class", s_other, ["root", "entry"]),
    Scenario("root and datasets", s_root, ["root OK", "root ERROR", "dataset OK", "dataset ERROR"]),
]
