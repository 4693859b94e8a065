"""C05: every entry point works with the file set that was asked for"""

import os

from props import cache
from props.cache import HEX, NAME, begin, info_of, is_one_of, known, latest, some_date
from props.cli import command, out_all
from props.common import *  # noqa
from props.common import THOROUGH, Scenario, exc
from props.nxdlmodel import CATS, own
from sx.fakexml import Xml

SHIPPED = {"v3.3": ("v3.3", "2017-07-12 10:41:12"), "v2018.5": ("v2018.5", "2018-05-15 16:34:19")}
CLASSES = ["NXroot", "NXentry", "NXdata", "NXobject"]
ENTRIES = ["validator", "class model", "schema", "default schema", "punx validate", "punx validate NXDL", "demonstrate"]
DATA = []


def setup(mode):
    import punx

    cache.setup(mode)
    DATA.append(os.path.join(os.path.dirname(os.path.abspath(punx.__file__)), "data", "writer_1_3.hdf5"))


def build(env, p, name, schema, date, sha, mark):
    """a small but complete file set; one class that no other set has"""
    import punx

    src = os.path.join(os.path.dirname(os.path.abspath(punx.__file__)), "cache", schema)
    for c in CATS:
        env.fs_mkdir(p + "/" + c)
    for f in ("nxdl.xsd", "nxdlTypes.xsd"):
        env.fs_copy(os.path.join(src, f), p + "/" + f)
    for c in CLASSES + [mark]:
        d = own(schema, "base_classes", *([Xml("group", {"type": "NXdata"})] if c == "NXentry" else []), Xml("field", {"name": "x"}))
        d.attrib["name"] = c
        env.fs_xml(d, p + "/base_classes/" + c + ".nxdl.xml")
    env.fs_write(p + "/" + cache.INFO, info_of(name, date, sha))


def s_entry(env):
    """the caches, what is asked for, and by whom"""
    from punx import cache_manager, nxdl_manager, schema_manager, validate

    ch = env.ch
    entry = ch.pick("entry", ENTRIES)
    user = begin(env)
    source = env.scratch + "/punx/cache"
    rows = []  # name, cache, date, path, mark, schema
    for name in sorted(SHIPPED):
        schema, date = SHIPPED[name]
        rows.append([name, "source", date, source + "/" + name, "NXmark%d" % len(rows), schema])
        build(env, rows[-1][3], name, schema, date, "1234567", rows[-1][4])
    n = ch.pick("user sets", [0, 1, 2])
    for i in range(n):
        name = ch.pick("name%d" % i, ["main", "v3.3", "NX"] if i == 0 else ["other"])
        schema = ch.pick("schema%d" % i, ["v3.3", "v2018.5"] if i == 0 else ["v3.3"])
        date = some_date(ch, "date%d" % i, ["day", "second", "old"] if i == 0 else ["second"])
        row = [name, "user", date, user + "/" + name, "NXmark%d" % (5 + i), schema]
        build(env, row[3], name, schema, date, ch.str("sha%d" % i, [7], alphabet=HEX), row[4])
        rows = [r for r in rows if r[0] != name] + [row]
    env.known_h5(DATA[0])
    how = ch.pick("ask", ["none", "by name", "unknown"] if entry in ("validator", "class model") else
                  ["none", "by name"] if entry in ("schema", "punx validate", "punx validate NXDL") else ["none"])
    ref = None
    if how == "by name":
        ref = ch.pick("ref", [r[0] for r in rows])
    elif how == "unknown":
        ref = ch.str("free", [1, 2], alphabet=NAME)
        ch.assume(not known(rows, ref))
    wanted = [r for r in rows if r[0] == ref] if how == "by name" else [r for r in rows if is_one_of(r[0], latest(rows))]
    old = cache_manager.SourceCache.path
    cache_manager.SourceCache.path = source
    try:
        r = ask(env, entry, ref, wanted, rows)
    finally:
        cache_manager.SourceCache.path = old
    env.reach(entry)
    env.reach(how)
    return r


def which(rows, marks):
    """the file set that has exactly this mark"""
    m = [r for r in rows if r[4] in marks]
    return m[0] if len(m) == 1 else None


def judge_schema(env, sm, row):
    env.check(sm.schema_file == row[3] + "/nxdl.xsd" and sm.types_file == row[3] + "/nxdlTypes.xsd", "schema of the file set",
              sm.schema_file, sm.types_file, row[3])
    # 'version' is an attribute of the definition until v3.3 only
    env.check(("version" in sm.nxdl.attrs) == (row[5] == "v3.3"), "content of the schema", row[5], sorted(sm.nxdl.attrs))


def judge_manager(env, m, wanted, rows):
    row = which(rows, list(m.classes))
    if not env.check(row is not None and row in wanted, "classes of the file set", sorted(m.classes), [w[:3] for w in wanted]):
        return None
    fs = m.nxdl_file_set
    env.check(fs.path == row[3] and fs.ref == row[0] and fs.cache == row[1], "file set", fs.path, fs.ref, fs.cache, row[:4])
    env.check(sorted(m.classes) == sorted(CLASSES + [row[4]]), "classes", sorted(m.classes))
    judge_schema(env, fs.schema_manager, row)
    return row


def ask(env, entry, ref, wanted, rows):
    from punx import cache_manager, h5tree, nxdl_manager, schema_manager, validate

    if entry in ("validator", "class model"):
        st, v = env.run(validate.Data_File_Validator if entry == "validator" else nxdl_manager.NXDL_Manager, ref)
        if st != "ok":
            env.problem("crash", exc(v), str(v)[:200])
            return exc(v)
        row = judge_manager(env, v.manager if entry == "validator" else v, wanted, rows)
        return row and row[:2]
    if entry in ("schema", "default schema"):
        if entry == "default schema":
            f = schema_manager.get_default_schema_manager
        elif ref is None:
            f = schema_manager.SchemaManager
        else:
            def f():
                # (another set stays selected)
                return cache_manager.CacheManager().NXDL_file_sets[ref].schema_manager
        st, sm = env.run(f)
        if st != "ok":
            env.problem("crash", exc(sm), str(sm)[:200])
            return exc(sm)
        row = [r for r in rows if sm.schema_file == r[3] + "/nxdl.xsd"]
        if env.check(len(row) == 1 and row[0] in wanted, "file set of the schema", sm.schema_file, [w[:3] for w in wanted]):
            judge_schema(env, sm, row[0])
        return sm.schema_file[len(env.scratch):]
    if entry == "punx validate NXDL":
        # valid by the schema of exactly one of the file sets
        for schema in ("v3.3", "v2018.5"):
            p = env.scratch + "/n%s.nxdl.xml" % schema
            env.fs_xml(own(schema, "base_classes", Xml("field", {"name": "y"})), p)
            st, code = command(env, ["validate"] + ([] if ref is None else ["-f", ref]) + [p])
            may = set(w[5] == schema for w in wanted)
            env.check((st == "ok") in may, "NXDL file", schema, st, code, [w[:3] for w in wanted])
        return [st, code]
    if entry == "punx validate":
        root = group(None)
        e = root.add("entry", group("NXentry"))
        for i, r in enumerate(rows):
            e.add("g%d" % i, group(r[4]))
        p = env.scratch + "/data.h5"
        env.fs_h5(root, p)
        st, code = command(env, ["validate"] + ([] if ref is None else ["-f", ref]) + [p])
        if not env.check(st == "ok", "validate fails", st, code):
            return [st, code]
        out = out_all(env)
        good = []
        for r in rows:
            line = [x for x in out if (" " + r[4] + ": recognized NXDL specification") in x]
            if not env.check(len(line) == 1, "finding of a class", r[4], line):
                return None
            if " OK " in line[0]:
                good.append(r)
        env.check(len(good) == 1 and good[0] in wanted, "file set of the validation", [r[:3] for r in good], [w[:3] for w in wanted])
        env.check(good and out[-1] == "NeXus definitions version: " + good[0][0], "file set told", out[-1])
        return [st, code, out[-1]]
    # demonstrate: the commands it names, with their output
    st, code = command(env, ["demonstrate"])
    if not env.check(st == "ok", "demonstrate fails", st, code):
        return [st, code]
    out = out_all(env)
    at = [i for i, x in enumerate(out) if x.startswith("console> punx ")]
    if not env.check(len(at) == 2 and out[at[0]] == "console> punx validate " + DATA[0] and out[at[1]] == "console> punx tree " + DATA[0],
                     "commands", [out[i] for i in at]):
        return None
    told = [r for r in wanted if out[at[1] - 2] == "NeXus definitions version: " + r[0]]
    if not env.check(len(told) == 1, "file set told", out[at[1] - 2], [w[0] for w in wanted]):
        return None
    n = len(env.stdout())
    st, code = command(env, ["validate", DATA[0]] + (["-f", told[0][0]]))
    st2, code2 = command(env, ["tree", DATA[0]])
    env.check(st == "ok" and st2 == "ok", "commands fail", code, code2)
    more = []
    for x in env.stdout()[n:]:
        more.extend(x.split("\n"))
    a, b = out[at[0] + 1: at[1] - 1], out[at[1] + 1:]
    env.check(len(a) > 10 and len(b) > 10, "output", len(a), len(b))
    split = [i for i, x in enumerate(more) if x.startswith("NeXus definitions version:")][0]
    env.check(a == more[split + 1 - len(a): split + 1], "output of validate", a[:5])
    env.check(b == more[len(more) - len(b):] and len(more) - len(b) - split < 6, "output of tree", b[:5])
    return [st, told[0][0], len(a), len(b)]


def s_sequence(env):
    """requests by name, one after the other in one process; what each returned stays as it is"""
    from punx import cache_manager, nxdl_manager, schema_manager, validate

    ch = env.ch
    user = begin(env)
    source = env.scratch + "/punx/cache"
    rows = []
    for name in sorted(SHIPPED):
        schema, date = SHIPPED[name]
        rows.append([name, "source", date, source + "/" + name, "NXmark%d" % len(rows), schema])
        build(env, rows[-1][3], name, schema, date, "1234567", rows[-1][4])
    if ch.pick("user sets", [0, 1]):
        name = ch.pick("name", ["main", "v3.3"])
        schema = ch.pick("schema", ["v3.3", "v2018.5"])
        date = some_date(ch, "date", ["day", "old"])
        row = [name, "user", date, user + "/" + name, "NXmark5", schema]
        build(env, row[3], name, schema, date, "89abcde", row[4])
        rows = [r for r in rows if r[0] != name] + [row]
    old = cache_manager.SourceCache.path
    cache_manager.SourceCache.path = source
    try:
        got = []
        n = ch.pick("requests", [2, 3, 4] if THOROUGH else [2, 3] if len(rows) == len(SHIPPED) else [2])
        for i in range(n):
            entry = ch.pick("entry%d" % i, ["validator", "class model", "schema"] if n == 2 or i == 0 else ["class model", "schema"])
            row = rows[ch.pick("row%d" % i, list(range(len(rows))))]
            if entry == "schema":
                st, v = env.run(lambda: cache_manager.CacheManager().NXDL_file_sets[row[0]].schema_manager)
            else:
                st, v = env.run(validate.Data_File_Validator if entry == "validator" else nxdl_manager.NXDL_Manager, row[0])
            if st != "ok":
                env.problem("crash", exc(v), str(v)[:200])
                return exc(v)
            got.append((entry, row, v))
            if entry == "schema" or ch.pick("look%d" % i, [True, False] if i == 0 else [False]):
                look(env, got[-1:], rows)
        look(env, got, rows)
    finally:
        cache_manager.SourceCache.path = old
    env.reach("requests")
    return [[e, r[:2]] for e, r, v in got]


def look(env, got, rows):
    for entry, row, v in got:
        if entry == "schema":
            judge_schema(env, v, row)
        else:
            judge_manager(env, v.manager if entry == "validator" else v, [row], rows)


BOUNDS = (
    "two shipped and up to two user file sets (small ones, with the real schemas), one replacing a shipped one; dates of the "
    "user sets symbolic near those of the shipped ones; requests without a name, by each name, by a symbolic name of up to 2 "
    "characters; %d entry points; up to 3 requests by name one after the other, what they returned looked at again at the end" % len(ENTRIES)
)
ASSUMPTIONS = cache.ASSUMPTIONS + ["the directory of the shipped file sets is a small one made by the check"]
_ = THOROUGH

SCENARIOS = [
    Scenario("entry points", s_entry, ENTRIES + ["none", "by name", "unknown"]),
    Scenario("one after the other", s_sequence, ["requests"]),
]
