"""
C: the caches of NXDL file sets: listing and selection, installation, and what
an installation that is cut short leaves behind.
"""

import json
import os

from props import cli
from props.cli import command, out_all, said
from props.common import *  # noqa
from props.common import THOROUGH, Scenario, exc
from sx.fakeos import Archive

INFO = "__github_info__.json"
NAME = [(0x2D, 0x2D), (0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)]
ANY = [(0x23, 0x2E), (0x30, 0x5B), (0x5D, 0x7E), (0xE4, 0xE4)]  # what a directory may be called
HEX = [(0x30, 0x39), (0x61, 0x66)]
DIGIT = [(0x30, 0x39)]
CATEGORIES = ["base_classes", "applications", "contributed_definitions"]
SOURCE = {}


def setup(mode):
    import punx

    if mode == "sym":
        from sx import instrument

        instrument.also("argparse")
        instrument.also("pyRestTable")
    import punx.main  # noqa

    d = os.path.join(os.path.dirname(os.path.abspath(punx.__file__)), "cache")
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n, INFO)
        if os.path.exists(p):
            with open(p) as f:
                info = json.load(f)
            SOURCE[n] = [n, "source", info["last_modified"], info["sha"][:7], os.path.join(d, n)]


def begin(env, reverse=False):
    env.begin_fs(reverse)
    user = env.scratch + "/user/punx"
    env.fs_mkdir(user)
    return user


def info_of(ref, date, sha):
    return {"ref": ref, "sha": sha, "zip_url": "https://example.org/x.zip", "last_modified": date, "# written": "now"}


def some_date(ch, name, forms, near="2018-05-15 16:34:19"):
    """a symbolic date close to the date of the newest set of the source cache"""
    form = ch.pick(name, forms)
    if form == "new":
        return "2021-12-17 13:09:18"
    if form == "day":
        return near[:9] + ch.str(name + " d", [1], alphabet=[(0x31, 0x39)]) + near[10:]
    if form == "second":
        return near[:18] + ch.str(name + " s", [1], alphabet=DIGIT)
    return "2016-1" + ch.str(name + " m", [1], alphabet=[(0x30, 0x32)]) + "-19 01:07:45"


DAMAGED = ["empty", "truncated", "list", "text", "not UTF-8", "null"]
PARTIAL = ["no sha", "no date", "no ref", "other ref", "empty object", "numbers"]


def write_info(env, p, kind, name, date, sha):
    """an info file; what is to be shown of it, or None"""
    info = info_of(name, date, sha)
    row = [name, "user", date, sha[:7], p]
    data = info
    if kind == "empty":
        data = ""
    elif kind == "truncated":
        data = '{"ref": "main", "sha'
    elif kind == "list":
        data = ["ref", "sha"]
    elif kind == "text":
        data = '"text"'
    elif kind == "not UTF-8":
        data = b'{"ref": "\xff"}'
    elif kind == "null":
        data = "null"
    elif kind == "no sha":
        info["sha"] = None
        row[3] = None
    elif kind == "no date":
        del info["last_modified"]
        row[2] = None
    elif kind == "no ref":
        del info["ref"]
    elif kind == "other ref":
        info["ref"] = "main"
    elif kind == "empty object":
        data = {}
        row[2] = row[3] = None
    elif kind == "numbers":
        info["sha"] = 1234567
        info["last_modified"] = 2017
        row[2] = row[3] = None
    if kind == "directory":
        env.fs_mkdir(p + "/" + INFO)
    else:
        env.fs_write(p + "/" + INFO, data)
    return None if kind in DAMAGED or kind == "directory" else row


def known(rows, name):
    return [r for r in rows if len(r[0]) == len(name) and r[0] == name]


def check_table(env, rows, got):
    """each of the rows once, and no other"""
    env.check(len(got) == len(rows), "number of file sets", [g[0] for g in got], [r[0] for r in rows])
    for r in rows:
        m = known(got, r[0])
        if not env.check(len(m) == 1, "file set not listed once", r[0], len(m)):
            continue
        for i in (1, 2, 3, 4):
            if r[i] is not None:
                env.check(m[0][i] == r[i], "row of a file set", i, m[0], r)


def latest(rows):
    """names of the sets with the latest date"""
    best = []
    for r in rows:
        d = r[2] or ""
        if not best or d > best[0][2]:
            best = [[r[0], None, d]]
        elif d == best[0][2]:
            best.append([r[0], None, d])
    return [b[0] for b in best]


def is_one_of(x, names):
    return any([len(x) == len(n) and x == n for n in names])


def user_set(env, user, rows, i, kinds, forms, dates):
    ch = env.ch
    form = ch.pick("form%d" % i, forms)
    if form == "main":
        name = "main"
    elif form == "free":
        name = ch.str("name%d" % i, [1, 2] if i == 0 else [1], alphabet=ANY if i == 0 else NAME, first_exclude="-")
        ch.assume(name != "." and name != "..")
    elif form == "shipped":
        name = ch.pick("of%d" % i, ["v3.3", "v2018.5"])
    elif form == "cache":
        name = "cache" + ch.str("name%d" % i, [0, 1], alphabet=NAME)
    else:
        name = "definitions-main"
    if known([[r[0]] for r in rows if r[1] == "user"], name):
        ch.assume(False)
    kind = ch.pick("info%d" % i, kinds)
    p = user + "/" + name
    env.fs_mkdir(p + "/base_classes")
    row = None
    if kind != "none":
        row = write_info(env, p, kind, name, some_date(ch, "date%d" % i, dates), ch.str("sha%d" % i, [8], alphabet=HEX))
    if row is not None:
        rows[:] = [r for r in rows if not known([r], name)] + [row]
    env.reach(kind)
    return name


def table(env):
    from punx import cache_manager

    st, t = env.run(cache_manager.table_of_caches)
    if st != "ok":
        env.problem("crash", exc(t), str(t)[:200])
        return []
    return [list(r) for r in t.rows]


FORMS = ["free", "shipped", "cache", "staged"]


def world(env, kinds, sizes, forms, dates):
    ch = env.ch
    user = begin(env, ch.bool("reverse") if len(dates[0]) == 2 else False)
    rows = [list(r) for r in SOURCE.values()]
    n = ch.pick("n", list(sizes))
    for i in range(n):
        user_set(env, user, rows, i, kinds if i == 0 else ["good"], forms[i], dates[i])
    return user, rows


def s_listing(env):
    ch = env.ch
    user, rows = world(env, ["good", "none"], [0, 1, 2], [FORMS, ["free"]], [["day", "old"], ["new"]])
    if ch.bool("stray"):
        env.fs_write(user + "/punx.ini", "[General]\n")
        env.fs_write(user + "/" + INFO, "{}")
    got = table(env)
    check_table(env, rows, got)
    return [sorted([str(r[2]) for r in got])]


def s_damaged(env):
    ch = env.ch
    user, rows = world(env, DAMAGED + PARTIAL + ["directory"], [1, 2], [["free", "shipped"], ["main"]], [["new"], ["day"]])
    got = table(env)
    check_table(env, rows, got)
    st, code = command(env, ["configuration"])
    env.check(st == "ok", "configuration", st, code)
    out = out_all(env)
    env.check(out[-1].startswith("default NXDL file set:"), "default", out)
    env.check(is_one_of(out[-1][len("default NXDL file set:"):].strip(), latest(rows)), "default", out[-1], latest(rows))
    return [st, code, len(got)]


def s_default(env):
    from punx import cache_manager

    ch = env.ch
    user, rows = world(env, ["good", "other ref"], [0, 1, 2], [FORMS, ["main"]], [["day", "second", "old"], ["second"]])
    names = [r[0] for r in rows]
    st, cm = env.run(cache_manager.CacheManager)
    if not env.check(st == "ok", "crash", exc(cm)):
        return []
    got = cm.default_file_set
    env.check(is_one_of(got.ref, latest(rows)), "default", got.ref, latest(rows))
    how = ch.pick("ask", ["none", "free", "first", "last", "shipped"])
    if how == "none":
        ref = None
    elif how == "free":
        ref = ch.str("ref", [0, 1, 2], alphabet=NAME)
    elif how == "first":
        ref = names[0]
    elif how == "last":
        ref = names[-1]
    else:
        ref = ch.pick("source", ["a4fd52d", "v3.3", "v2018.5", "v3.30"])
    st, fs = env.run(cm.select_NXDL_file_set, ref)
    if not env.check(st == "ok", "crash", exc(fs)):
        return []
    want = known(rows, ref) if ref is not None else []
    if want:
        env.check(fs.path == want[0][4] and fs.ref == ref and fs.cache == want[0][1], "selection", ref, fs.path, fs.ref, fs.cache)
        env.reach("known")
    else:
        env.check(is_one_of(fs.ref, latest(rows)) and fs.path == known(rows, fs.ref)[0][4], "selection", ref, fs.ref, fs.path)
        env.reach("unknown")
    env.check(cm.default_file_set is fs, "selected")
    return [fs.ref, fs.path[len(env.scratch):] if fs.path.startswith(env.scratch) else fs.path]


def s_many_sets(env):
    """a user cache of many file sets, one of a symbolic name and date"""
    from punx import cache_manager

    ch = env.ch
    pos, order, rev = ch.pick("order", [("first", "up", False), ("middle", "mixed", True), ("last", "down", False), ("last", "up", True)])
    user = begin(env, rev)
    rows = [list(r) for r in SOURCE.values()]
    n = ch.pick("sets", [9, 30] if not THOROUGH else [9, 30, 99])
    at = {"first": 0, "middle": n // 2, "last": n}[pos]
    damaged = ch.pick("damaged", ["none", "truncated", "other ref"] if n < 10 else ["numbers"])
    name = ch.str("name", [1], alphabet=NAME, first_exclude="-")
    date = "2019-0" + ch.str("month", [1], alphabet=[(0x31, 0x39)]) + "-04 05:06:07"
    sets = []
    for i in range(n):
        k = {"up": i, "down": n - 1 - i, "mixed": (i * 7) % n}[order]
        sets.append(("s%d-%d" % (k, i), "2019-%02d-%02d 05:06:07" % (1 + k % 12, 1 + k // 12), "good"))
    sets[n // 3] = (sets[n // 3][0], sets[n // 3][1], damaged)
    sets.insert(at, (name, date, "good"))
    for k, (x, d, kind) in enumerate(sets):
        p = user + "/" + x
        env.fs_mkdir(p + "/base_classes")
        if kind == "none":
            continue
        row = write_info(env, p, kind, x, d, "%010x" % (k + 1048576))
        if row is not None:
            rows[:] = [r for r in rows if not known([r], x)] + [row]
    got = table(env)
    check_table(env, rows, got)
    st, cm = env.run(cache_manager.CacheManager)
    if not env.check(st == "ok", "crash", exc(cm)):
        return []
    env.check(is_one_of(cm.default_file_set.ref, latest(rows)), "default", cm.default_file_set.ref, latest(rows))
    for ask in (name, sets[0][0], sets[-1][0], sets[n // 3][0], "v3.3"):
        want = known(rows, ask)
        st, fs = env.run(cm.select_NXDL_file_set, ask)
        if not env.check(st == "ok", "crash", exc(fs)):
            return []
        if want:
            env.check(fs.path == want[0][4] and fs.ref == ask, "selection", ask, fs.path, fs.ref)
        else:
            env.check(is_one_of(fs.ref, latest(rows)), "selection", ask, fs.ref)
    env.reach(pos)
    return [len(got)]


# ------------------------------------------------------------- installation


class Answer:
    def __init__(self, content):
        self.content = content
        self.status_code = 200
        self.ok = True

    def raise_for_status(self):
        pass


def with_server(env, answers, f):
    """f() with a server that has these archives: [[file set name, Archive or word]]"""
    import requests

    asked = []

    def get(url, *a, **k):
        asked.append(url)
        for name, what in answers:
            end = "/" + name + ".zip"
            if url[len(url) - len(end):] == end:
                if what == "refused":
                    raise requests.exceptions.ConnectionError("refused")
                return Answer(env.response(what))
        return Answer(env.response(None))

    old = requests.get
    requests.get = get
    try:
        return f()
    finally:
        requests.get = old


def archive(top, version, date, sha, more=(), small=False):
    """an archive of the definitions repository"""
    day = (2018, 3, 4, 5, 6, 8)
    body = lambda n: ("<!-- %s of %s -->" % (n, version)).encode("utf8")  # noqa
    entries = [["/", b""], ["/README.md", b"read me"], ["/nxdl.xsd", body("nxdl.xsd")]]
    if not small:
        entries += [
            ["/nxdlTypes.xsd", body("types")],
            ["/applications/", b""],
            ["/applications/NXapp.nxdl.xml", body("NXapp")],
            ["/applications/nxdlformat.xsl", body("format")],
            ["/applications/makefile.txt", b"all:"],
        ]
    entries += list(more)
    entries += [["/manual/source/x.rst", b"x"], ["/jenkins/build.xml", b"<build/>"]]
    out = [[top + e[0], e[1], day] for e in entries]
    out[len(out) // 2][2] = date
    return Archive(out, sha)


ENDINGS = [".xml", ".xsl", ".xsd"]


def wanted(a, top):
    """[(relative path, content)] of what is to be installed of an archive, and the newest date"""
    out = []
    dates = []
    for name, data, date in a.entries:
        rel = name[len(top) + 1:]
        i = rel.rfind("/")
        d = rel[:i] if i >= 0 else ""
        if rel[len(rel) - 4:] in ENDINGS and (d == "" or d in CATEGORIES):
            out.append((rel, data))
            dates.append(date)
    return out, dates


def same_files(env, got, want, what, info=None):
    """the files are exactly the wanted ones (and the info file)"""
    rest = [g for g in got if not (g[0] == INFO)]
    ok = env.check(len(rest) == len(want), "number of files " + what, [g[0] for g in rest], [w[0] for w in want])
    for rel, data in want:
        m = [g for g in rest if len(g[0]) == len(rel) and g[0] == rel]
        if not (len(m) == 1 and m[0][1] == data):
            ok = env.check(False, "file " + what, rel, len(m))
    if info is not None:
        i = [g for g in got if g[0] == INFO]
        if not i:
            return env.check(False, "no info file " + what)
        try:
            d = env.fs_json(i[0][1])
        except ValueError:
            return env.check(False, "damaged info file " + what)
        for k, v in info.items():
            ok = env.check(d.get(k) == v, "info file " + what, k, d.get(k), v) and ok
    return ok


def stamp(d):
    return "%04d-%02d-%02d %02d:%02d:%02d" % tuple(d)


def install_old(env, user, name, version, date="2016-01-02 03:04:06"):
    """a complete file set, as installed before; its files"""
    p = user + "/" + name
    env.fs_mkdir(p + "/base_classes")
    files = [("nxdl.xsd", b"old"), ("base_classes/NXold.nxdl.xml", b"old")]
    for rel, data in files:
        env.fs_write(p + "/" + rel, data)
    env.fs_write(p + "/" + INFO, info_of(name, date, "0123456789"))
    return files


def visible(env, user):
    """files of the user cache, without those of hidden directories"""
    return [g for g in env.fs_files(user) if not (g[0][:1] == ".")] if env.fs_exists(user) else []


def files_of(env, user, name):
    p = user + "/" + name
    return env.fs_files(p) if env.fs_exists(p) else None


def s_install(env):
    ch = env.ch
    user = begin(env)
    form = ch.pick("form", ["free", "main", "shipped", "top"])
    if form == "free":
        name = ch.str("name", [1, 2], alphabet=NAME, first_exclude="-")
    elif form == "top":
        name = "definitions-main"
    else:
        name = "main" if form == "main" else "v3.3"
    top = "definitions-" + (name if ch.bool("own top") else "main")
    before = ch.pick("before", ["nothing", "complete", "no info", "other"])
    update = ch.bool("update")
    what = ch.pick("archive", ["good", "good", "small", "garbage", "refused"] if before != "other" else ["good"])
    sha = ch.str("sha", [8], alphabet=HEX)
    date = (2018, 5, ch.int("day", 14, 16), ch.int("hour", 0, 23), 34, 2 * ch.int("second/2", 0, 29))
    item = "NX" + ch.str("item", [1], alphabet=[(0x61, 0x7A)])
    more = [
        ["/" + ch.pick("category", CATEGORIES) + "/" + item + ch.pick("ending", [".nxdl.xml", ".xsl", ".txt", ".xml.bak"]), b"<x/>"],
    ]
    a = archive(top, "new", date, sha, more if what != "small" else [], small=what == "small")
    old = []
    if before == "complete":
        old = install_old(env, user, name, "old")
    elif before == "no info":
        env.fs_mkdir(user + "/" + name)
        env.fs_write(user + "/" + name + "/nxdl.xsd", b"half")
        old = [("nxdl.xsd", b"half")]
    elif before == "other":
        other = install_old(env, user, "other", "old")
    was = env.fs_files(user)
    argv = ["install"] + (["-u"] if update else []) + [name]
    st, code = with_server(env, [[name, a if what in ("good", "small") else what]], lambda: command_quiet(env, argv))
    now = files_of(env, user, name)
    exists = before in ("complete", "no info")
    if exists and not update:
        env.check(st == "ok", "install", st, code)
        env.check(same_list(was, env.fs_files(user)), "file set changed without being asked")
        env.reach("kept")
        return [st, before]
    if what != "good":
        env.check(st in ("exc", "exit") and code, "failed installation without error", st, code)
        env.check(same_list(was, env.fs_files(user)), "failed installation changed the cache", what, [f[0] for f in env.fs_files(user)])
        env.reach(what)
        return [st, before]
    env.check(st == "ok", "install", st, code)
    if not env.check(now is not None, "not installed"):
        return [st]
    files, dates = wanted(a, top)
    newest = max(dates)
    info = dict(ref=name, sha=sha, last_modified=stamp(newest))
    same_files(env, now, files, "installed", info)
    rows = [list(r) for r in SOURCE.values() if not known([r], name)]
    rows.append([name, "user", stamp(newest), sha[:7], user + "/" + name])
    if before == "other":
        rows.append(["other", "user", "2016-01-02 03:04:06", "0123456", user + "/other"])
        same_files(env, files_of(env, user, "other"), other, "of another set", dict(ref="other"))
    got = table(env)
    check_table(env, rows, got)
    env.check(len(visible(env, user)) == len(files) + 1 + (3 if before == "other" else 0), "other files in the cache", [f[0] for f in env.fs_files(user)])
    out = out_all(env)
    env.check(out[-1][:18] == "default file set: " and is_one_of(out[-1][18:], latest(rows)), "default", out[-1], latest(rows))
    env.reach("installed")
    env.reach(before)
    return [st, before, len(now)]


def s_install_members(env):
    """two members of an archive: any name, any date"""
    ch = env.ch
    user = begin(env)
    top = "definitions-x"
    old = (2017, 3, 4, 5, 6, 8)
    entries = [[top + "/", b"", old], [top + "/nxdl.xsd", b"schema", old], [top + "/nxdlTypes.xsd", b"types", old]]
    what = ch.pick("what", ["dates", "names"])
    if what == "dates":
        for i in range(2):
            d = (ch.int("year%d" % i, 2017, 2019), ch.int("month%d" % i, 1, 12), ch.int("day%d" % i, 1, 28),
                 ch.int("hour%d" % i, 0, 23), ch.int("minute%d" % i, 0, 59), 2 * ch.int("second%d" % i, 0, 29))
            p = ["/base_classes/NXa.nxdl.xml", "/applications/NXb.nxdl.xml"][i]
            if i == 1 and ch.bool("other"):
                p = "/README.md"
            entries.append([top + p, b"%d" % i, d])
    else:
        d = ch.pick("directory", ["", "base_classes", "contributed_definitions", "other"])
        if d == "other":
            d = ch.str("dir", [1, 2], alphabet=NAME, first_exclude="-")
        n = ch.pick("stem", ["NXa", "NXa.nxdl"]) + ch.pick("dot", [".", ""]) + ch.str("ending", [3, 4], alphabet=NAME)
        entries.append([top + "/" + (d + "/" if d else "") + n, b"x", (2018, 1, 2, 3, 4, 6)])
    a = Archive(entries, "0123456789")
    st, code = with_server(env, [["x", a]], lambda: command_quiet(env, ["install", "x"]))
    env.check(st == "ok", "install", st, code)
    now = files_of(env, user, "x")
    if not env.check(now is not None, "not installed"):
        return [st]
    files, dates = wanted(a, top)
    newest = dates[0]
    for d in dates[1:]:
        if d > newest:
            newest = d
    same_files(env, now, files, "installed", dict(ref="x", sha="0123456789", last_modified=stamp(newest)))
    env.reach(what)
    return [st, len(now)]


def s_install_large(env):
    """an archive of many members, some of them long, one of a symbolic name and date"""
    ch = env.ch
    user = begin(env)
    name = ch.pick("name", ["main", "x"] if THOROUGH else ["x"])
    top = "definitions-" + ch.str("top", [1], alphabet=NAME)
    n = ch.pick("members", [20, 120] if not THOROUGH else [20, 120, 400])
    pos = ch.pick("position", ["first", "middle", "last"])
    at = {"first": 0, "middle": n // 2, "last": n}[pos]
    day = (2018, 3, 4, 5, 6, 8)
    date = (2018, ch.int("month", 2, 4), 4, 5, ch.int("minute", 0, 59), 8)
    size = ch.pick("size", [3, 70000])
    what = ch.pick("directory", CATEGORIES[1:] + ["", "manual", "base_classes/inner"])
    item = "NX" + ch.str("item", [1], alphabet=[(0x61, 0x7A)]) + ch.pick("ending", [".nxdl.xml", ".rst"])
    entries = [[top + "/", b"", day], [top + "/nxdl.xsd", b"schema", day], [top + "/nxdlTypes.xsd", b"types", day]]
    rest = []
    ends = [".nxdl.xml", ".xsl", ".xsd", ".txt"]
    for i in range(n):
        d = (CATEGORIES + ["xslt", ""])[i % 5]
        rest.append([top + "/" + (d + "/" if d else "") + "NXitem%d" % i + ends[i % 4], b"%d" % i, day])
    rest.insert(at, [top + "/" + (what + "/" if what else "") + item, b"x" * size, date])
    a = Archive(entries + rest, "0123456789")
    update = pos == "middle"
    if update:
        install_old(env, user, name, "old")
    other = install_old(env, user, "other", "old")
    argv = ["install"] + (["-u"] if update else []) + [name]
    st, code = with_server(env, [[name, a]], lambda: command_quiet(env, argv))
    env.check(st == "ok", "install", st, code)
    now = files_of(env, user, name)
    if not env.check(now is not None, "not installed"):
        return [st]
    files, dates = wanted(a, top)
    same_files(env, now, files, "installed", dict(ref=name, sha="0123456789", last_modified=stamp(max(dates))))
    same_files(env, files_of(env, user, "other"), other, "of another set", dict(ref="other"))
    env.check(len(visible(env, user)) == len(files) + 1 + 3, "other files in the cache")
    env.reach(pos)
    return [st, len(now)]


def same_list(a, b):
    if len(a) != len(b):
        return False
    for x in a:
        if not any([len(x[0]) == len(y[0]) and x[0] == y[0] and x[1] == y[1] for y in b]):
            return False
    return True


def command_quiet(env, argv):
    """main(); an exception that ends it is no problem by itself"""
    import sys

    from punx import main

    old = sys.argv
    sys.argv = ["punx"] + argv
    try:
        st, r = env.run(main.main)
    finally:
        sys.argv = old
    if st == "exit":
        return ("exit", r.code)
    return (st, exc(r) if st == "exc" else 0)


C02 = [
    Scenario("members", s_install_members, ["dates", "names"]),
    Scenario("many members", s_install_large, ["first", "middle", "last"]),
    Scenario("install", s_install, ["kept", "small", "garbage", "refused", "installed", "nothing", "complete", "other"]),
]


C01 = [
    Scenario("many file sets", s_many_sets, ["first", "middle", "last"]),
    Scenario("listing", s_listing, ["good", "none"]),
    Scenario("damaged", s_damaged, DAMAGED + PARTIAL),
    Scenario("default", s_default, ["known", "unknown", "other ref"]),
]

# ------------------------------------------------------------- interrupted

OPS = 60 if THOROUGH else 44
READS = 60


def exactly(env, got, want, info):
    """as same_files, without a report"""
    rest = [g for g in got if not (g[0] == INFO)]
    if len(rest) != len(want) or len(rest) == len(got):
        return False
    for rel, data in want:
        if not any([len(g[0]) == len(rel) and g[0] == rel and g[1] == data for g in rest]):
            return False
    try:
        d = env.fs_json([g for g in got if g[0] == INFO][0][1])
    except ValueError:
        return False
    return all([d.get(k) == v for k, v in info.items()])


def complete(env, user, name, versions):
    """which of the versions [[files, info]] a file set is, or None"""
    now = files_of(env, user, name)
    if now is None:
        return None
    for i, (files, info) in enumerate(versions):
        if exactly(env, now, files, info):
            return i
    return None


def s_interrupted(env):
    ch = env.ch
    name = ch.pick("name", ["main", "v9"])
    before = ch.pick("before", ["nothing", "complete", "no info"])
    other = ch.bool("other set")
    mode = ch.pick("mode", ["crash", "oserror", "interrupt"])
    at = ch.int("at", 0, OPS)
    user = begin(env, ch.bool("reverse"))
    top = "definitions-" + ("9" if name == "v9" else name)
    a = archive(top, "new", (2021, 12, 17, 13, 9, 18), "aaaabbbbcc", [["/base_classes/NXa.nxdl.xml", b"<a/>"]])
    b = archive(top, "newer", (2022, 12, 17, 13, 9, 18), "bbbbbbbbcc", [["/base_classes/NXb.nxdl.xml", b"<b/>"]])
    versions = []
    for x, sha in ((a, "aaaabbbbcc"), (b, "bbbbbbbbcc")):
        files, dates = wanted(x, top)
        versions.append([files, dict(ref=name, sha=sha, last_modified=stamp(max(dates)))])
    if before == "complete":
        files = install_old(env, user, name, "old", "2020-01-02 03:04:06")
        versions.insert(0, [files, dict(ref=name, sha="0123456789", last_modified="2020-01-02 03:04:06")])
    else:
        versions.insert(0, [[], dict(ref="none")])
        if before == "no info":
            env.fs_mkdir(user + "/" + name)
            env.fs_write(user + "/" + name + "/nxdl.xsd", b"half")
    if other:
        install_old(env, user, "other", "old", "2019-01-02 03:04:06")
        oinfo = dict(ref="other", sha="0123456789", last_modified="2019-01-02 03:04:06")

    def first():
        r = env.faulty(mode, at, lambda: with_server(env, [[name, a]], lambda: command_quiet(env, ["install", "-u", name])))
        return [r[0] if r[0] != "ok" else r[1][0], env.hit()]

    st, hit = env.isolated(first)
    ch.assume(hit)
    env.reach(mode)
    # another process
    rows = table(env)
    mine = [r for r in rows if r[1] == "user"]
    which = complete(env, user, name, versions)
    absent = not known(mine, name)
    for r in mine:
        env.check(r[0] == name or (other and r[0] == "other"), "unknown file set", r)
    if not absent:
        env.check(which is not None, "incomplete file set", name, [f[0] for f in files_of(env, user, name)])
    elif mode != "crash" and before == "complete":
        env.check(False, "file set lost", mode, st)
    if other:
        if env.check(len(known(mine, "other")) == 1, "other set lost"):
            same_files(env, files_of(env, user, "other"), [("nxdl.xsd", b"old"), ("base_classes/NXold.nxdl.xml", b"old")], "of another set", oinfo)
    env.check(all([len(known(rows, s)) == 1 for s in SOURCE]), "shipped file sets", [r[0] for r in rows])
    if st == "ok":
        env.check(which == 1, "installation reported as done", which)
    s2, code = command(env, ["configuration"])
    out = out_all(env)
    env.check(s2 == "ok" and out[-1].startswith("default NXDL file set:"), "configuration", s2, code, out[-1:])
    env.check(is_one_of(out[-1][len("default NXDL file set:"):].strip(), latest(rows)), "default", out[-1], latest(rows))
    # once more
    s3, code = with_server(env, [[name, b]], lambda: command_quiet(env, ["install", "-u", name]))
    env.check(s3 == "ok", "second installation", s3, code)
    now = files_of(env, user, name)
    if env.check(now is not None, "second installation without effect"):
        same_files(env, now, versions[2][0], "of the second installation", versions[2][1])
    rows = [r for r in table(env) if r[1] == "user"]
    env.check(len(rows) == (2 if other else 1) and len(known(rows, name)) == 1, "file sets after the second installation", [r[0] for r in rows])
    env.reach("absent" if absent else "old" if which == 0 else "new")
    return [st, absent, which, s2, s3]


C03 = [
    Scenario("interrupted", s_interrupted, ["crash", "oserror", "interrupt", "absent", "old", "new"]),
]


# ------------------------------------------------------------- at the same time


def two_versions(name, top):
    a = archive(top, "new", (2021, 12, 17, 13, 9, 18), "aaaabbbbcc", [["/base_classes/NXa.nxdl.xml", b"<a/>"]])
    b = archive(top, "newer", (2022, 12, 17, 13, 9, 18), "bbbbbbbbcc", [["/base_classes/NXb.nxdl.xml", b"<b/>"]])
    versions = []
    for x, sha in ((a, "aaaabbbbcc"), (b, "bbbbbbbbcc")):
        files, dates = wanted(x, top)
        versions.append([files, dict(ref=name, sha=sha, last_modified=stamp(max(dates)))])
    return a, b, versions


OLD = ([("nxdl.xsd", b"old"), ("base_classes/NXold.nxdl.xml", b"old")], dict(ref="main", sha="0123456789"))


def new_process():
    """no object of the paused process is there (called where state is restored afterwards)"""
    from punx import singletons

    singletons._Singleton._instances.clear()


def look(env, user, name, versions):
    """what another process sees"""

    def f():
        new_process()
        return look_here(env, user, name, versions)

    return env.isolated(f)


def look_here(env, user, name, versions):
    """what a punx process sees: problems are reported; which version is there (None: absent)"""
    rows = table(env)
    mine = [r for r in rows if r[1] == "user"]
    for r in mine:
        env.check(r[0] == name or r[0] == "other", "unknown file set", r)
    which = None
    if known(mine, name):
        which = complete(env, user, name, versions)
        env.check(which is not None, "incomplete file set", name, [f[0] for f in files_of(env, user, name) or []])
    st, code = command(env, ["configuration"])
    out = out_all(env)
    env.check(st == "ok" and out[-1].startswith("default NXDL file set:"), "configuration", st, code, out[-1:])
    env.check(is_one_of(out[-1][len("default NXDL file set:"):].strip(), latest(rows)), "default", out[-1], latest(rows))
    return which


def install(env, name, a, update):
    return with_server(env, [[name, a]], lambda: command_quiet(env, ["install"] + (["-u"] if update else []) + [name]))


def s_watched(env):
    """another process looks at the cache at any moment of an installation"""
    ch = env.ch
    before = ch.pick("before", ["nothing", "complete"])
    at = ch.int("at", 0, OPS)
    user = begin(env, ch.bool("reverse"))
    name = "main"
    a, b, versions = two_versions(name, "definitions-main")
    versions = [versions[0]] + ([OLD] if before == "complete" else [])
    if before == "complete":
        install_old(env, user, name, "old", "2020-01-02 03:04:06")
    seen = []

    def other():
        seen.append(look(env, user, name, versions))

    st, r = env.faulty("other", at, lambda: install(env, name, a, True), other)
    ch.assume(env.hit())
    env.check(st == "ok" and r[0] == "ok", "installation", st, r)
    w = look(env, user, name, versions)
    env.check(w == 0, "not installed", w)
    env.reach(before)
    env.reach("seen new" if seen[0] == 0 else "seen old" if seen[0] == 1 else "seen nothing")
    return [st, seen, w]


def s_reading(env):
    """an installation takes place at any moment while another process looks at the cache"""
    from punx import cache_manager

    ch = env.ch
    before = ch.pick("before", ["nothing", "complete", "other"])
    what = ch.pick("what", ["table", "configuration", "select"])
    at = ch.int("at", 0, READS)
    user = begin(env, ch.bool("reverse"))
    name = "main"
    a, b, versions = two_versions(name, "definitions-main")
    old = [name, "user", "2020-01-02 03:04:06", "0123456", user + "/" + name]
    new = [name, "user", "2021-12-17 13:09:18", "aaaabbb", user + "/" + name]
    rows = [list(r) for r in SOURCE.values()]
    if before == "complete":
        install_old(env, user, name, "old", old[2])
    if before == "other":
        install_old(env, user, "other", "old", old[2])
        rows.append(["other"] + old[1:4] + [user + "/other"])
    done = []
    stop = ch.int("stop", 0, OPS) if ch.bool("killed") else None

    def installer():
        """all of the installation, or what it does until it is killed (or waits)"""
        new_process()
        if stop is None:
            return [install(env, name, a, True)[0], True]
        r = env.faulty("crash", stop, lambda: install(env, name, a, True))
        return [r[0], env.hit()]

    def f():
        if what == "table":
            return [list(r) for r in cache_manager.table_of_caches().rows]
        if what == "configuration":
            return [[], command_quiet(env, ["configuration"])]
        cm = cache_manager.CacheManager()
        fs = cm.select_NXDL_file_set(name)
        return [[fs.ref, fs.cache, fs.last_modified, fs.sha[:7], str(fs.path)]]

    st, r = env.faulty("reader", at, f, lambda: done.append(env.isolated(installer)))
    ch.assume(env.hit() and done[0][1])
    env.check(done[0][0] == "ok" or stop is not None, "installation", done)
    env.reach("killed" if stop is not None else "finished")
    if not env.check(st == "ok", "crash", exc(r), str(r)[:200]):
        return [st]
    env.reach(what)
    if what == "table":
        mine = known(r, name)
        env.check(len(mine) < 2 and all([m == old or m == new for m in mine]), "row of the file set", mine)
        check_table(env, rows, [x for x in r if not known([x], name)])
    elif what == "configuration":
        out = out_all(env)
        env.check(r[1] == ("ok", 0) and out[-1].startswith("default NXDL file set:"), "configuration", r[1], out[-1:])
        env.check(is_one_of(out[-1][len("default NXDL file set:"):].strip(), ["main"] + latest(rows)), "default", out[-1])
    else:
        env.check(r[0] in [old, new] + rows, "selected", r[0])
    w = look(env, user, name, versions + [OLD])
    env.check(w == 0 or stop is not None, "not installed", w)
    return [st, what]


def s_both(env):
    """two installations at the same time: one runs at any moment of the other"""
    ch = env.ch
    before = ch.pick("before", ["nothing", "complete"])
    update = ch.pick("update", ["both", "none", "first", "second"])
    same = ch.bool("same set")
    at = ch.int("at", 0, OPS)
    user = begin(env)
    name = "main"
    name2 = "main" if same else "other"
    a, b, versions = two_versions(name, "definitions-main")
    all_versions = versions + ([OLD] if before == "complete" else [])
    if before == "complete":
        install_old(env, user, name, "old", "2020-01-02 03:04:06")
    second = []

    def install_too():
        new_process()
        return install(env, name2, b, update in ("both", "second"))

    def other():
        second.append(env.isolated(install_too))

    st, r = env.faulty("other", at, lambda: install(env, name, a, update in ("both", "first")), other)
    ch.assume(env.hit())
    w = look(env, user, name, all_versions)
    env.check(w is not None, "no file set", r, second)
    if not same:
        env.check(st == "ok" and r[0] == "ok", "installation", st, r)
        env.check(second[0][0] == "ok", "other installation", second)
        files, info = versions[1]
        now = files_of(env, user, "other")
        if env.check(now is not None, "other set not installed"):
            same_files(env, now, files, "of the other set", dict(ref="other", sha=info["sha"]))
        env.check(w == (2 if before == "complete" and update not in ("both", "first") else 0), "version", w)
    else:
        env.check(r[0] == "ok" or second[0][0] == "ok", "no installation succeeded", r, second)
        env.check(w != 2 or before != "complete" or (update == "none"), "old version", w)
    # and once more
    new_process()
    s3 = install(env, name, b, True)
    env.check(s3[0] == "ok", "next installation", s3)
    env.check(look(env, user, name, all_versions) == 1, "next installation")
    env.reach("same" if same else "other")
    return [st, r[0], second[0][0], w]


C04 = [
    Scenario("watched", s_watched, ["nothing", "complete", "seen new", "seen old", "seen nothing"]),
    Scenario("reading", s_reading, ["killed", "finished", "table", "configuration", "select"]),
    Scenario("both", s_both, ["same", "other"]),
]

BOUNDS_OF = {
    "C01": "user caches of up to 2 file sets (and a stray file): directory names of up to 2 symbolic characters of "
           "letters, digits and '-', names of shipped sets, of the cache, staged; dates near those of the shipped sets; "
           "symbolic sha; 13 kinds of damaged or incomplete info file; requested sets of up to 2 symbolic characters; 10 or 31 (thorough: "
           "100) file sets in three orders of dates, one damaged, one of symbolic name and month",
    "C02": "set names of up to 2 symbolic characters and 3 given ones; archives with the files of the top and the 3 "
           "category directories, one symbolic item of any category and ending, other files; symbolic sha and newest date; "
           "one such item among 20 or 120 (thorough: 400) members, of up to 70000 bytes; members of symbolic names and dates; a server that refuses, sends a page that is no archive or an archive; 4 states of the cache before, with "
           "and without --update",
    "C03": "every one of the first %d changes of the file system by the installation (kill before it, failure with half of "
           "the data written, Ctrl-C); 3 states of the set before, with and without another set, both orders of listing "
           "of directories" % OPS,
    "C04": "another process that starts and ends at one moment: before any of the first %d changes of an installation "
           "(a reader or a second installation), or before any of the first %d look-ups by a reader (an "
           "installation)" % (OPS, READS),
}
ASSUMPTIONS = [
    "the user cache is a directory tree in memory (sx/fakeos.py) with the semantics of POSIX file names without links; "
    "os, posixpath, pathlib, shutil, tempfile are executed symbolically on it; replays use the real file system",
    "the shipped cache is the one of /repo/punx/cache",
    "requests.get answers with the given archives; zipfile is a stand-in in the symbolic run",
    "a killed process leaves what it has written (no loss of power)",
]
_ = (cli, said, THOROUGH, Archive, CATEGORIES)
