"""V08: the items of a group, compared with its NeXus class"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import nxdlref
from sx import env as E

REFS = ["v3.3", "v2018.5", "a4fd52d"]
BOUNDS = (
    "groups of every class of the shipped file sets, at 3 levels, with up to 4 items: named as the "
    "class defines, near misses, or with a symbolic name of 4-%d characters; fields, groups, links; "
    "attributes of symbolic name; pairs of groups of 6 classes with 12 or 40 (thorough: 120) items, "
    "at depth 1 or 7, one item of a symbolic name of 4 characters" % (6 if THOROUGH else 5)
)
ASSUMPTIONS = [
    "the classes are read by an independent reader (props/nxdlref.py)",
    "whether a link that leads nowhere counts as 'found' is not decided",
]


def setup(mode):
    E.load_validators([(r, 0) for r in REFS])
    for r in REFS:
        nxdlref.fileset(r)


def full(v):
    return [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations]


def judge(env, fs, ref, cls, addr, have, attrs):
    """
    have: {name: (kind, cataloged)} of the items of the group at addr
    attrs: names of its attributes
    """
    d = nxdlref.fileset(ref)[cls]
    base = addr if addr.endswith("/") else addr + "/"
    # what the class defines: found or not, each exactly once
    for test, defined in (("NXDL field in data file", d.fields), ("NXDL group in data file", d.groups)):
        mine = [f for f in fs if f[0] == addr and f[1] == test]
        env.check(len(mine) == len(defined), "items of the class", cls, test, len(mine), len(defined))
        for name in defined:
            got = [f for f in mine if f[3].endswith("/" + name)]
            if len(got) != 1:
                env.problem("items of the class", cls, test, name, got)
                continue
            present = False
            for h in have:
                if h == name:
                    present = True
            want = "OK" if present else "OPTIONAL"
            said = not got[0][3].startswith("not found")
            env.check(got[0][2] == want and said == present, "found in the group", cls, name, got, want)
    # what the group holds: defined by the class or not
    for name, kind in have.items():
        defined = d.fields if kind == "field" else d.groups
        known = False
        for n in defined:
            if n == name:
                known = True
        test = kind + " in base class"
        got = [f for f in fs if f[0] == base + name and f[1].endswith(" in base class")]
        ok = len(got) == 1 and got[0][1] == test and got[0][2] == "OK"
        if ok:
            ok = got[0][3].startswith("defined: " if known else "not defined: ")
        env.check(ok, "item defined by the class", cls, name, kind, got, known)
    for name in attrs:
        known = name == "NX_class"
        for n in d.attributes:
            if n == name:
                known = True
        got = [f for f in fs if f[0] == addr + "@" + name and f[1] == "known attribute"]
        ok = len(got) == 1 and got[0][2] == "OK"
        if ok:
            ok = got[0][3].startswith("known: " if known else "unknown: ")
        env.check(ok, "attribute known", cls, name, got, known)


def put(g, have, name, kind):
    """add an item"""
    if kind == "link to field":
        g.add(name, soft("/zfield"))
    elif kind == "link to group":
        g.add(name, soft("/zgroup"))
    elif kind == "field":
        g.add(name, dataset())
    elif kind == "plain":
        g.add(name, group(None))
    else:
        g.add(name, group("NXnote"))
    have[name] = "field" if "field" in kind else "group"


KINDS = ["field", "group", "link to field", "link to group", "plain"]


def world(where, cls, ref):
    root = group(None)
    g = group(cls)
    if where == "top":
        root.add("g", g)
        addr = "/g"
    elif where == "entry":
        root.add("entry", group("NXentry")).add("g", g)
        addr = "/entry/g"
    else:
        root.add("entry", group("NXentry")).add("i", group("NXinstrument")).add("g", g)
        addr = "/entry/i/g"
    return root, g, addr


def late(root):
    root.add("zfield", dataset())
    root.add("zgroup", group("NXnote"))


def s_class(env):
    """every class, with one of its items, and others"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    names = sorted(nxdlref.fileset(ref))
    cls = ch.pick("class", names)
    d = nxdlref.fileset(ref)[cls]
    items = ch.pick("items", ["first", "last", "swapped", "elsewhere", "near", "none"])
    root, g, addr = world("entry", cls, ref)
    have = {}
    fl, gl = sorted(d.fields), sorted(d.groups)
    if items in ("first", "last"):
        i = 0 if items == "first" else -1
        if fl:
            put(g, have, fl[i], "field")
        if gl and gl[i] not in have:
            put(g, have, gl[i], "group")
    elif items == "swapped":
        if fl:
            put(g, have, fl[0], "group")
        if gl and gl[-1] not in have:
            put(g, have, gl[-1], "field")
    elif items == "elsewhere":
        # links of other names to items named as the class defines
        if fl:
            g.add("zz1", soft("/p/" + fl[0]))
            have["zz1"] = "field"
        if gl:
            g.add("zz2", soft("/q/" + gl[0]))
            have["zz2"] = "group"
    elif items == "near":
        near = [n + "_1" for n in (fl[:1] + gl[-1:])] + [n.upper() for n in fl[-1:]] + [n + "s" for n in gl[:1]]
        for i, n in enumerate(near):
            if n not in fl and n not in gl and n not in have:
                put(g, have, n, KINDS[i % 2])
    put(g, have, "zz_other", "field")
    late(root)
    if items == "elsewhere":
        if fl:
            root.add("p", group(None)).add(fl[0], dataset())
        if gl:
            root.add("q", group(None)).add(gl[0], group("NXnote"))
    g.set("zz", Val("int", 1))
    al = sorted(d.attributes)
    if al and items != "none":
        g.set(al[0], Val("str", "x"))
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = full(v)
    judge(env, fs, ref, cls, addr, have, ["NX_class", "zz"] + ([al[0]] if al and items != "none" else []))
    judge(env, fs, ref, "NXentry", "/entry", {"g": "group"}, ["NX_class"])
    top = {"entry": "group", "zfield": "field", "zgroup": "group"}
    for n in ("p", "q"):
        if any([k == n for k, c in root.children]):
            top[n] = "group"
    judge(env, fs, ref, "NXroot", "/", top, [])
    env.reach(items)
    return fs


def s_name(env):
    """an item of symbolic name"""
    ch = env.ch
    cls = ch.pick("class", ["NXdata", "NXsource", "NXnote", "NXuser"])
    kind = ch.pick("kind", KINDS)
    where = ch.pick("where", ["top", "deep"])
    nm = ch.str("name", [4, 5] if not THOROUGH else [3, 4, 5, 6], exclude="/@")
    ch.assume(nm != "second")
    root, g, addr = world(where, cls, "v3.3")
    have = {}
    put(g, have, nm, kind)
    put(g, have, "second", "field")
    late(root)
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = full(v)
    judge(env, fs, "v3.3", cls, addr, have, ["NX_class"])
    env.reach(kind)
    return [f for f in fs if f[0].startswith(addr)]


def s_attr(env):
    """an attribute of symbolic name"""
    ch = env.ch
    cls = ch.pick("class", ["NXdata", "NXentry", "NXroot", "NXdetector", "NXsource"])
    nm = ch.str("name", [4, 6, 7])
    root, g, addr = world("top", cls if cls != "NXroot" else "NXentry", "v3.3")
    late(root)
    names = ["NX_class", nm]
    if cls == "NXroot":
        g, addr, names = root, "/", [nm]
    ch.assume(nm != "NX_class")
    g.set(nm, Val("str", "x"))
    have = {"g": "group", "zfield": "field", "zgroup": "group"} if cls == "NXroot" else {}
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = full(v)
    judge(env, fs, "v3.3", cls, addr, have, names)
    env.reach(cls)
    return [f for f in fs if f[0].startswith(addr + "@")]


def s_enum(env):
    """attributes with an enumeration"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    cases = []
    for c in sorted(nxdlref.fileset(ref)):
        d = nxdlref.fileset(ref)[c]
        for a in sorted(d.attributes):
            if d.attributes[a].enums:
                cases.append((c, a, d.attributes[a].enums))
    if not cases:
        ch.assume(False)
    c, a, enums = ch.pick("case", cases)
    form = ch.pick("form", ["each", "symbolic", "other"])
    if form == "each":
        e = ch.pick("base", list(enums))
        t = ch.pick("value", [e, e.lower() + "x", "", e + " ", " " + e, e + "\n", e.upper(), e.lower(), e[:-1], e[1:]])
        val = Val(ch.pick("kind", ["str", "bytes"]), t)
    elif form == "symbolic":
        t = ch.str("value", sorted(set([len(e) for e in enums if len(e) < 9] + [len(e) + 1 for e in enums if len(e) < 7])))
        val = Val("str", t)
    else:
        t = None
        val = ch.pick("value", [Val("int", 1), Val("empty"), Val("strs", [enums[0]]), Val("strs", [])])
    if c == "NXroot":
        root = group(None)
        root.add("entry", group("NXentry"))
        root.set(a, val)
        addr = "/"
    else:
        root, g, addr = world("entry", c, ref)
        g.set(a, val)
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = full(v)
    got = [f[2] for f in fs if f[0] == addr + "@" + a and f[1] == "attribute value enumeration"]
    ok = False
    if t is not None:
        for e in enums:
            if e == t:
                ok = True
    want = "OK" if ok else "ERROR"
    env.check(got == [want], "value of the enumeration", c, a, t, got, want)
    env.reach(form + " " + want)
    return [f for f in fs if f[0].startswith(addr + "@")]


def s_plain(env):
    """a group without a NeXus class is not compared with one"""
    ch = env.ch
    where = ch.pick("where", ["in entry", "in root", "below a plain group"])
    inner = ch.pick("inner", ["NXdata", None])
    nm = ch.pick("name", ["data", "title", "x"])
    root = group(None)
    e = root.add("entry", group("NXentry"))
    p = (e if where == "in entry" else root).add("p", group(None))
    addr = "/entry/p" if where == "in entry" else "/p"
    q = p.add("q", group(inner))
    q.add(nm, dataset())
    p.add(nm, dataset())
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = full(v)
    for a in (addr, addr + "/q"):
        bad = [f for f in fs if f[0] == a and f[1] in ("NXDL field in data file", "NXDL group in data file", "known attribute")]
        env.check(bad == [], "compared with a class", a, bad)
    for a in (addr + "/" + nm, addr + "/q/" + nm, addr + "/q"):
        bad = [f for f in fs if f[0] == a and f[1].endswith("in base class")]
        env.check(bad == [], "compared with a class", a, bad)
    have = {"p": "group"} if where == "in entry" else {}
    judge(env, fs, "v3.3", "NXentry", "/entry", have, ["NX_class"])
    env.reach(where)
    return fs


def s_large(env):
    """a group with many items, one of them of a symbolic name"""
    ch = env.ch
    cls = ch.pick("class", ["NXdata", "NXdetector", "NXinstrument", "NXentry", "NXcollection", "NXarpes"])
    n = ch.pick("items", [12, 40] if not THOROUGH else [12, 40, 120])
    pos = ch.pick("position", ["first", "middle", "last"])
    kind = ch.pick("kind", ["field", "group", "plain"])
    depth = ch.pick("depth", [0, 6])
    nm = ch.str("name", [4] if not THOROUGH else [4, 5], exclude="/@")
    d = nxdlref.fileset("v3.3")[cls]
    root = group(None)
    g, addr = root, ""
    for i in range(depth):
        g = g.add("c%d" % i, group("NXcollection"))
        addr = addr + "/c%d" % i
    others = []
    for h in ("g", "h"):  # two of the same class, with the items of the class shared out
        x = g.add(h, group(cls))
        others.append((x, addr + "/" + h, {}))
    names = []
    for k in sorted(d.fields):
        names.append((k, "field"))
    for k in sorted(d.groups):
        if k not in d.fields:
            names.append((k, "group"))
    names = names[: n // 2]
    for i in range(n - len(names)):
        names.append(("item%d" % i, KINDS[i % 2]))
    at = {"first": 0, "middle": n // 2, "last": n}[pos]
    for i, (k, t) in enumerate(names):
        if i == at:
            put(others[0][0], others[0][2], nm, kind)
        ch.assume(nm != k)
        x, a, have = others[0] if i % 3 else others[1]
        put(x, have, k, t)
    if at == n:
        put(others[0][0], others[0][2], nm, kind)
    attrs = ["NX_class"]
    for i in range(n):
        others[0][0].set("att%d" % i, Val("int", i))
        attrs.append("att%d" % i)
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = full(v)
    judge(env, fs, "v3.3", cls, others[0][1], others[0][2], attrs)
    judge(env, fs, "v3.3", cls, others[1][1], others[1][2], ["NX_class"])
    env.reach(pos)
    return [f for f in fs if f[0].startswith(others[0][1])][:50]


SCENARIOS = [
    Scenario("many items", s_large, ["first", "middle", "last"]),
    Scenario("every class", s_class, ["first", "last", "swapped", "elsewhere", "near", "none"]),
    Scenario("symbolic name", s_name, KINDS),
    Scenario("symbolic attribute", s_attr, ["NXdata", "NXroot"]),
    Scenario("enumerations", s_enum, ["each OK", "each ERROR", "symbolic OK", "symbolic ERROR", "other ERROR"]),
    Scenario("plain group", s_plain, ["in entry", "in root"]),
]
