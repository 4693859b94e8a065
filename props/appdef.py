"""V09: application definitions declared by an entry"""

from props.common import *  # noqa
from props.common import NON, Scenario, THOROUGH
from props import nxdlref
from sx import env as E

REFS = ["v3.3", "v2018.5", "a4fd52d"]
BOUNDS = (
    "every class of the shipped file sets declared as definition, each of its entry's fields present or "
    "absent; symbolic definition names up to %d characters and symbolic field values; NXentry and "
    "NXsubentry, one or two of them; text, fixed-length text, arrays" % (9 if THOROUGH else 7)
)
ASSUMPTIONS = [
    "for a contributed definition, a missing field declared optional may be ERROR or OPTIONAL",
    "only the first group of a definition and its fields are compared (as documented by the TODO finding)",
]


def setup(mode):
    E.load_validators([(r, 0) for r in REFS])
    for r in REFS:
        nxdlref.fileset(r)


def full(v):
    return [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations]


def find_def(ref, name):
    for n, d in nxdlref.fileset(ref).items():
        if n == name:
            return d
    return None


def required(d):
    """fields of the entry of the application definition"""
    gs = list(d.groups.values())
    return gs[0].fields if gs else {}


def judge(env, fs, ref, addr, name, have):
    """name: text of the definition; have: {field: first text or None}"""
    d = find_def(ref, name)
    got = [f[2] for f in fs if f[0] == addr and f[1] == "known NXDL" and f[3].startswith(name + ":") and not f[3].startswith("NXentry:") and not f[3].startswith("NXsubentry:")]
    if name not in ("NXentry", "NXsubentry"):
        env.check(got == ["OK" if d is not None else "ERROR"], "definition known", name, got)
    got = [f[2] for f in fs if f[0] == addr and f[1] == "NeXus application definition"]
    if d is None:
        env.check("OK" not in got, "unknown definition accepted", name, got)
        wanted = {}
    elif d.category == "base_classes":
        env.check("ERROR" in got and "OK" not in got, "base class as application definition", name, got)
        wanted = {}
    else:
        env.check(got == ["OK", "TODO"], "application definition", name, got)
        wanted = required(d)
    mine = [f for f in fs if f[1] == "NXDL field" and (f[0] == addr or f[0].startswith(addr + "/"))]
    env.check(len(mine) == len(wanted), "number of fields compared", name, len(mine), len(wanted))
    for field, spec in wanted.items():
        got = [f for f in mine if f[3].startswith(name + ":" + field + " ")]
        if len(got) != 1:
            env.problem("field compared", name, field, got)
            continue
        st = got[0][2]
        if field in have:
            env.check(st == "OK" and got[0][0] == addr + "/" + field, "field is there", name, field, got)
        else:
            if spec.min is not None and int(spec.min) == 0:
                ok = st == "OPTIONAL" or (d.category != "applications" and st == "ERROR")
            else:
                ok = st == "ERROR"
            env.check(ok and got[0][0] == addr, "field is missing", name, field, got)
        en = [f for f in fs if f[0] == addr + "/" + field and f[1] == "NXDL field enumerations"]
        if field in have and spec.enums:
            ok = have[field] is not None and any([e == have[field] for e in spec.enums])
            want = "OK" if ok else "ERROR"
            env.check([f[2] for f in en] == [want], "value of the field", name, field, have[field], en, want)
        else:
            env.check(en == [], "value judged", name, field, en)


def forms(t):
    return {"str": Val("str", t), "bytes": Val("bytes", t), "strs": Val("strs", [t, "zz"]), "bytess": Val("bytess", [t])}


def s_every(env):
    """every definition: all fields, none, all but one, only one"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    names = sorted([n for n, d in nxdlref.fileset(ref).items() if d.as_application])
    name = ch.pick("def", names)
    spec = required(nxdlref.fileset(ref)[name])
    fields = sorted([f for f in spec if f != "definition"])
    how = ch.pick("how", ["all", "none", "all but", "only"])
    i = 0
    if how in ("all but", "only") and fields:
        i = ch.pick("which", list(range(min(len(fields), 5 if not THOROUGH else 40))))
    cls = ch.pick("class", ["NXentry", "NXsubentry"]) if how in ("all", "none") else "NXentry"
    root = group(None)
    e = root.add("e", group("NXentry"))
    addr = "/e"
    if cls == "NXsubentry":
        e = e.add("s", group("NXsubentry"))
        addr = "/e/s"
    e.add("definition", dataset(Val("str", name)))
    have = {"definition": name}
    for k, f in enumerate(fields):
        if how == "all" or (how == "all but" and k != i) or (how == "only" and k == i):
            e.add(f, dataset(Val("str", "some")))
            have[f] = "some"
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = full(v)
    judge(env, fs, ref, addr, name, have)
    env.reach(how)
    return [f for f in fs if f[1].startswith("NXDL field") or f[1].endswith("definition")]


def s_base(env):
    """a base class declared as the application definition of an entry"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    name = ch.pick("def", sorted([n for n, d in nxdlref.fileset(ref).items() if not d.as_application]))
    cls = ch.pick("class", ["NXentry", "NXsubentry"])
    fields = ch.pick("fields", [[], ["title", "definition_x"]])
    root = group(None)
    e = root.add("e", group("NXentry"))
    addr = "/e"
    if cls == "NXsubentry":
        e = e.add("s", group("NXsubentry"))
        addr = "/e/s"
    e.add("definition", dataset(Val("str", name)))
    have = {"definition": name}
    for f in fields:
        e.add(f, dataset(Val("str", "some")))
        have[f] = "some"
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = full(v)
    judge(env, fs, ref, addr, name, have)
    env.reach(cls)
    return [f for f in fs if f[1].startswith("NXDL field") or f[1].endswith("definition")]


def s_name(env):
    """symbolic name of the definition"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    name = ch.pick("prefix", ["NX", ""]) + ch.str("name", [1, 3, 5] if not THOROUGH else [0, 1, 2, 3, 4, 5, 6, 7])
    form = ch.pick("form", ["str", "bytes", "strs", "bytess"])
    cls = ch.pick("class", ["NXentry", "NXsubentry"])
    root = group(None)
    e = root.add("e", group("NXentry"))
    addr = "/e"
    if cls == "NXsubentry":
        e = e.add("s", group("NXsubentry"))
        addr = "/e/s"
    e.add("definition", dataset(forms(name)[form]))
    e.add("title", dataset(Val("str", "x")))
    v, x = validated(env, root, ref)
    if x is not None:
        return exc(x)
    fs = full(v)
    ch.assume(name.find(":") < 0)
    judge(env, fs, ref, addr, name, {"definition": name, "title": "x"})
    env.reach("known" if find_def(ref, name) is not None else "unknown")
    return [f for f in fs if f[1].startswith("NXDL field") or f[1].endswith("definition")]


def s_two(env):
    """several entries, each judged by its own definition"""
    ch = env.ch
    names = ["NXsas", "NXscan", "NXspecdata", "NXnothing", "NXdata", None]
    n1, n2, n3 = [ch.pick("d%d" % i, names) for i in (1, 2, 3)]
    f1, f2 = ch.pick("f1", ["title", "start_time", None]), ch.pick("f2", ["title", "end_time", None])
    root = group(None)
    a = root.add("a", group("NXentry"))
    b = root.add("b", group("NXentry"))
    s = a.add("q1", group("NXsubentry"))
    p = root.add("p", group(None))
    p.add("definition", dataset(Val("str", "NXsas")))
    i = a.add("i", group("NXinstrument"))
    i.add("definition", dataset(Val("str", "NXsas")))
    have = {}
    for g, n, f, addr in ((a, n1, f1, "/a"), (b, n2, f2, "/b"), (s, n3, f1, "/a/q1")):
        have[addr] = {}
        if n is not None:
            g.add("definition", dataset(Val("str", n)))
            have[addr]["definition"] = n
        if f is not None:
            g.add(f, dataset(Val("str", "x")))
            have[addr][f] = "x"
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    fs = full(v)
    a_only = [f for f in fs if not f[0].startswith("/a/q1")]
    for n, addr, mine in ((n1, "/a", a_only), (n2, "/b", fs), (n3, "/a/q1", fs)):
        if n is not None:
            judge(env, mine, "v3.3", addr, n, have[addr])
        else:
            got = [f for f in mine if f[0] == addr and f[1] == "NeXus application definition"]
            env.check(got == [], "definition out of nowhere", addr, got)
    for addr in ("/p", "/a/i"):
        got = [f for f in fs if f[0] == addr and f[1] in ("NeXus application definition", "NXDL field")]
        env.check(got == [], "definition of another group judged", addr, got)
    env.reach("done")
    return [f for f in fs if f[1].startswith("NXDL field") or f[1].endswith("definition")]


SCENARIOS = [
    Scenario("every definition", s_every, ["all", "none", "all but", "only"]),
    Scenario("base class", s_base, ["NXentry", "NXsubentry"]),
    Scenario("symbolic name", s_name, ["known", "unknown"]),
    Scenario("several entries", s_two, ["done"]),
]
