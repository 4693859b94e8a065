"""V05: findings for a file do not depend on what was done before"""

from props.common import *  # noqa
from props.common import Scenario, THOROUGH
from props import nxdlref
from sx import env as E

BOUNDS = (
    "histories of up to %d operations (validate one of 14 files, report, close, summary; same "
    "validator, a second one of the same file set, one of another file set) before the "
    "file is validated; symbolic item names in the file" % (3 if THOROUGH else 2)
)
ASSUMPTIONS = ["operations of one process, one after the other (no threads)"]
REFS = ["v3.3", "v2018.5", "a4fd52d"]


def setup(mode):
    E.load_validators([("v3.3", 0), ("v3.3", 1), ("v2018.5", 0), ("a4fd52d", 0)])
    for r in REFS:
        nxdlref.fileset(r)


def full(v):
    """everything the validation tells"""
    return [
        [(f.h5_address, f.test_name, str(f.status), f.comment) for f in v.validations],
        [(a, i.classpath, str(i.object_type)) for a, i in v.addresses.items() if a is not None],
        list(v.classpaths.keys()),
        list(v.finding_score()),
        [(str(k), n) for k, n in v.finding_summary().items()],
    ]


def f_empty(s):
    return group(None)


def f_v3(s):
    r = group(None)
    r.set("default", Val("str", "entry"))
    e = r.add("entry", group("NXentry"))
    e.set("default", Val("str", "data"))
    d = e.add("data", group("NXdata"))
    d.set("signal", Val("str", s))
    d.set("axes", Val("strs", ["x"]))
    d.add(s, dataset())
    return r


def f_v2(s):
    r = group(None)
    e = r.add("entry", group("NXentry"))
    d = e.add("data", group("NXdata"))
    d.add(s, dataset()).set("signal", Val("int", 1))
    d.add("other", dataset()).set("signal", Val("int", 2))
    return r


def f_noplot(s):
    r = group(None)
    e = r.add("entry", group("NXentry"))
    e.add(s, dataset()).set("units", Val("str", "m"))
    e.add("data", group("NXdata"))
    return r


def f_plain(s):
    r = group(None)
    r.add("p", group(None)).add(s, group("NXentry")).set("a", Val("int", 1))
    return r


def f_app(name):
    def f(s):
        r = group(None)
        e = r.add("entry", group("NXentry"))
        e.add("definition", dataset(Val("str", name)))
        e.add("title", dataset(Val("str", "x")))
        e.add(s, group("NXdata"))
        return r

    return f


def f_links(s):
    r = group(None)
    e = r.add("entry", group("NXentry"))
    e.add(s, dataset()).set("target", Val("str", "/entry/" + s))
    e.add("l1", soft("/entry/" + s))
    e.add("loop", soft("/entry/loop"))
    e.add("up", soft("/"))
    return r


def f_collection(s):
    r = group(None)
    e = r.add("entry", group("NXentry"))
    c = e.add("c", group("NXcollection"))
    c.add(s, dataset())
    c.add("B", group(None))
    return r


def f_classes(s):
    r = group(None)
    r.set("NX_class", Val("str", "NXroot"))
    e = r.add("entry", group("NXentry"))
    e.add("a", group("NXsas"))
    e.add("b", group("NXnothing"))
    e.add("d", group("NXdetector")).add(s, dataset())
    e.add("m", group("NXmonitor")).add("mode", dataset(Val("str", s)))
    return r


FILES = [f_empty, f_v3, f_v2, f_noplot, f_plain, f_app("NXsas"), f_app("NXmx"), f_links, f_collection, f_classes]
def differing():
    """classes that some of the file sets have and others do not, or in another category"""
    out = []
    for n in sorted(set([n for r in REFS for n in nxdlref.fileset(r)])):
        cats = []
        for r in REFS:
            d = nxdlref.fileset(r).get(n)
            cats.append(None if d is None else (d.category, d.as_base, len(d.fields)))
        if cats[0] != cats[1]:
            out.append((str(cats), n))
    return out


def f_sets(s):
    """a group of each kind of class in which the file sets differ"""
    r = group(None)
    e = r.add("entry", group("NXentry"))
    done = {}
    for c, n in differing():
        done[c] = done.get(c, 0) + 1
        if done[c] == 1 and len(done) < 9:
            e.add("g" + str(len(done)), group(n)).add(s, dataset())
            b = e.add("s" + str(len(done)), group("NXsubentry"))
            b.add("definition", dataset(Val("str", n)))
    return r


MORE = FILES + [f_sets, f_app("NXcanSAS"), f_app("NXnothing"), f_app("NXtomo")]


def op(env, ch, i, names, s="sy"):
    """one operation of the history"""
    what = ch.pick("op%d" % i, names)
    who = ch.pick("who%d" % i, ["same", "twin", "other"])
    v = WHO[who]
    if what == "close":
        env.run(v.close)
    elif what == "report":
        if v.validations and v.h5 is not None:
            env.run(v.print_report)
    elif what == "missing":
        env.run(v.validate, env.path("missing.h5"))
    elif what == "garbage":
        env.run(v.validate, env.garbage("g%d.h5" % i))
    elif what == "score":
        v.finding_score()
        v.finding_summary()
    else:
        st, r = env.run(v.validate, env.h5file(MORE[what](s), "h%d.h5" % i))
        env.check(st == "ok", "crash", exc(r) if st != "ok" else None)


WHO = {}


def who(env):
    WHO["same"] = env.validator("v3.3", 0)
    WHO["twin"] = env.validator("v3.3", 1)
    WHO["other"] = env.validator("v2018.5", 0)


def once(env, p, ref):
    def f():
        v = env.validator(ref, 0)
        st, r = env.run(v.validate, p)
        env.check(st == "ok", "crash", exc(r) if st != "ok" else None)
        return full(v)

    return f


def differ(env, a, b):
    for i, what in enumerate(["findings", "addresses", "class paths", "score", "summary"]):
        x, y = a[i], E.freeze(b[i])
        if not (len(x) == len(y) and x == y):
            bad = [q for q in y if q not in x] + [q for q in x if q not in y]
            env.problem(what + " depend on history", bad[:6])


def s_pairs(env):
    """any file after any other"""
    ch = env.ch
    k = ch.pick("file", list(range(len(MORE))))
    ref = ch.pick("ref", ["v3.3", "v2018.5"])
    name = "same" if ref == "v3.3" else "other"
    p = env.h5file(MORE[k]("sy"), "b.h5")
    fresh = env.isolated(once(env, p, ref))
    who(env)
    op(env, ch, 0, list(range(len(MORE))))
    v = WHO[name]
    env.run(v.validate, p)
    differ(env, fresh, full(v))
    env.reach(ref)
    return fresh[0]


def s_ops(env):
    """sequences of operations"""
    ch = env.ch
    k = ch.pick("file", [1, 3, 5, 9] if not THOROUGH else list(range(len(FILES))))
    p = env.h5file(FILES[k]("sy"), "b.h5")
    fresh = env.isolated(once(env, p, "v3.3"))
    who(env)
    ops = ["close", "report", "missing", "garbage", "score", 2, 6, 8]
    n = 3 if THOROUGH else 2
    for i in range(n):
        op(env, ch, i, ops)
    v = WHO["same"]
    env.run(v.validate, p)
    differ(env, fresh, full(v))
    env.reach("done")
    return fresh[0]


def s_same_file(env):
    """the same file again and again, reports in between; symbolic name inside"""
    ch = env.ch
    k = ch.pick("file", list(range(len(FILES))))
    s = ch.str("name", [1, 2], exclude="/@'\\\"")
    ch.assume(s != "." and s not in ("data", "title", "l1", "up", "a", "b", "d", "m", "B", "c"))
    p = env.h5file(FILES[k](s), "b.h5")
    fresh = env.isolated(once(env, p, "v3.3"))
    v = env.validator("v3.3", 0)
    env.run(v.validate, p)
    if ch.bool("close"):
        v.close()
    env.run(v.validate, p)
    differ(env, fresh, full(v))
    env.reach("done")
    return fresh[0]


def s_changed(env):
    """a file rewritten between two validations is judged as it is now"""
    ch = env.ch
    a = ch.pick("before", list(range(len(FILES))))
    b = ch.pick("after", list(range(len(FILES))))
    q = env.h5file(FILES[b]("sy"), "ref.h5")
    fresh = env.isolated(once(env, q, "v3.3"))
    v = env.validator("v3.3", 0)
    p = env.h5file(FILES[a]("sy"), "same.h5")
    env.run(v.validate, p)
    env.run(v.close)
    env.h5file(FILES[b]("sy"), "same.h5")
    env.run(v.validate, p)
    differ(env, fresh, full(v))
    env.reach("done")
    return fresh[0]


SCENARIOS = [
    Scenario("any file after any other", s_pairs, ["v3.3", "v2018.5"]),
    Scenario("sequences", s_ops, ["done"]),
    Scenario("same file", s_same_file, ["done"]),
    Scenario("rewritten file", s_changed, ["done"]),
]
