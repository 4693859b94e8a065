"""
L: the command line.  main() runs with symbolic words in sys.argv; argparse runs
symbolically, too (it is instrumented like the code under test).
"""

import sys

from props.common import *  # noqa
from props.common import THOROUGH, Scenario, Val, dataset, exc, group

COMMANDS = ["configuration", "demonstrate", "install", "tree", "validate"]
FUNCS = {"configuration": "func_configuration", "demonstrate": "func_demo", "install": "func_install",
         "tree": "func_tree", "validate": "func_validate"}
NAMES = ["data", "data.h5", "d\u00e9 x", "nxdl.xml.h5"]  # of files
WORD = [(0x21, 0x2C), (0x2E, 0x7E), (0xE9, 0xE9), (0x3B1, 0x3B1)]  # a word that is not an option


def setup(mode):
    if mode == "sym":
        from sx import instrument

        instrument.also("argparse")
    import punx.main  # noqa


def command(env, argv, calls=None):
    """
    main() with these arguments: (kind, exit code or exception); with calls the
    functions of the subcommands are replaced by recorders
    """
    from punx import main

    old = sys.argv
    keep = {}
    sys.argv = ["punx"] + list(argv)
    try:
        if calls is not None:
            for c, f in FUNCS.items():
                keep[f] = getattr(main, f)
                setattr(main, f, recorder(calls, c))
        st, r = env.run(main.main)
    finally:
        sys.argv = old
        for f, v in keep.items():
            setattr(main, f, v)
    if st == "exit":
        return ("exit", r.code)
    if st == "exc":
        env.problem("crash", exc(r), str(r)[:200])
        return ("exc", exc(r))
    return ("ok", 0)


def recorder(calls, name):
    def func(args):
        calls.append((name, args))

    return func


def expected_command(w):
    for c in COMMANDS:
        if c == w:
            return c
    if len(w) < 2:
        return None
    m = [c for c in COMMANDS if c.startswith(w)]
    return m[0] if len(m) == 1 else None


NEEDS = {"tree": ["f.h5"], "validate": ["f.h5"]}


def s_word(env):
    ch = env.ch
    form = ch.pick("form", ["free", "prefix", "long"])
    if form == "free":
        w = ch.str("word", [0, 1, 2, 3] + ([4] if THOROUGH else []), alphabet=WORD)
    elif form == "prefix":
        c = ch.pick("of", COMMANDS)
        n = ch.pick("n", list(range(0, 14)))
        ch.assume(n <= len(c))
        w = c[:n] + ch.str("tail", [0, 1, 2], alphabet=WORD)
    else:
        w = ch.pick("of", COMMANDS) + ch.str("tail", [0, 1], alphabet=WORD)
    want = expected_command(w)
    rest = NEEDS.get(want, []) if want else ["f.h5"]
    calls = []
    st, code = command(env, [w] + rest, calls)
    names = [c[0] for c in calls]
    if want is None:
        env.check(names == [], "unknown subcommand was run", names)
        env.check(st == "exit" and code == 2, "unknown subcommand accepted", st, code)
        env.check(len(env.messages()) > 0, "no message")
        env.reach("refused")
    else:
        env.check(st == "ok" and names == [want], "subcommand not run", st, code, names, want)
        env.reach(want)
    return [st, code, names]


def s_none(env):
    """no subcommand, help, version, other options first"""
    ch = env.ch
    argv = ch.pick("argv", [[], ["-h"], ["--help"], ["-v"], ["--version"], ["-x"], ["-a", "tree", "f.h5"], ["--report", "OK"],
                            ["validate", "-h"], ["tr", "-h"], ["--"]])
    tail = ch.str("tail", [0, 1], alphabet=WORD)
    if len(tail) and argv[:1] == ["-x"]:
        argv = ["-" + tail]
        ch.assume(tail != "h" and tail != "v")
    calls = []
    st, code = command(env, argv, calls)
    env.check(calls == [], "a subcommand was run", argv)
    if argv[:1] in (["-h"], ["--help"], ["-v"], ["--version"]) or argv[1:] == ["-h"]:
        env.check(st == "exit" and not code, "help and version", argv, st, code)
        env.reach("help")
    else:
        env.check(st == "exit" and code != 0, "missing subcommand accepted", argv, st, code)
        env.reach("error")
    return [st, code]


def number(t):
    """the number a text stands for, or None"""
    try:
        return int(t)
    except ValueError:
        return None


def s_tree_options(env):
    ch = env.ch
    name = ch.str("file", [1, 2], alphabet=WORD)
    given = ch.pick("m", ["no", "-m", "-m joined", "--max_array_items", "--max_array_items=", "--max", "last"])
    a = ch.pick("a", ["no", "before", "after"])
    n = ch.str("n", [1, 2], alphabet=[(0x2E, 0x39), (0x61, 0x62)])
    argv = [name]
    if given == "-m" or given == "--max_array_items" or given == "--max":
        argv = [given, n] + argv
    elif given == "-m joined":
        argv = ["-m" + n] + argv
    elif given == "--max_array_items=":
        argv = argv + [given + n]
    elif given == "last":
        argv = argv + ["-m", n]
    if a == "before":
        argv = ["-a"] + argv
    elif a == "after":
        argv = argv + ["-a"]
    calls = []
    st, code = command(env, [ch.pick("command", ["tree", "tr"])] + argv, calls)
    want = 5 if given == "no" else number(n)
    if want is None:
        env.check(st == "exit" and code == 2 and calls == [], "wrong number accepted", st, code)
        env.reach("not a number")
        return [st, code]
    if not env.check(st == "ok" and len(calls) == 1 and calls[0][0] == "tree", "subcommand not run", st, code):
        return [st, code]
    args = calls[0][1]
    env.check(args.infile == name, "file name", args.infile)
    env.check(args.show_attributes == (a == "no"), "attributes", a, args.show_attributes)
    env.check(args.max_array_items == want, "number of items", args.max_array_items, want)
    env.reach(given)
    return [st, args.infile, args.max_array_items, args.show_attributes]


def s_validate_options(env):
    from punx import cache_manager, finding

    ch = env.ch
    name = ch.str("file", [1, 2], alphabet=WORD)
    f = ch.pick("f", ["no", "-f", "--file_set_name", "--file_set_name=", "-f joined"])
    r = ch.pick("r", ["no", "--report", "--report=", "--rep"])
    ref = ch.str("ref", [1, 2], alphabet=WORD)
    rep = ch.str("report", [0, 1], alphabet=WORD)
    argv = [name]
    if f in ("-f", "--file_set_name"):
        argv = [f, ref] + argv
    elif f == "--file_set_name=":
        argv = [f + ref] + argv
    elif f == "-f joined":
        ch.assume(ref[:1] != "=")  # -f=x is another spelling of -f x
        argv = argv + ["-f" + ref]
    if r in ("--report", "--rep"):
        argv = argv + [r, rep]
    elif r == "--report=":
        argv = [r + rep] + argv
    calls = []
    st, code = command(env, [ch.pick("command", ["validate", "va"])] + argv, calls)
    if not env.check(st == "ok" and len(calls) == 1 and calls[0][0] == "validate", "subcommand not run", st, code):
        return [st, code]
    args = calls[0][1]
    env.check(args.infile == name, "file name", args.infile)
    cm = cache_manager.CacheManager()
    env.check(args.file_set_name == (ref if f != "no" else cm.default_file_set.ref), "file set", f, args.file_set_name)
    if r == "no":
        env.check(sorted(args.report.split(",")) == sorted(finding.VALID_STATUS_DICT), "selection", args.report)
    else:
        env.check(args.report == rep, "selection", args.report)
    env.reach(f)
    env.reach(r)
    return [st, args.infile, args.file_set_name, args.report]


def s_install_options(env):
    ch = env.ch
    n = ch.pick("n", [0, 1, 2])
    names = [ch.str("name%d" % i, [1, 2], alphabet=WORD) for i in range(n)]
    u = ch.pick("u", ["no", "before", "after", "--update"])
    argv = list(names)
    if u == "before":
        argv = ["-u"] + argv
    elif u == "after":
        argv = argv + ["-u"]
    elif u == "--update":
        argv = ["--update"] + argv
    calls = []
    st, code = command(env, [ch.pick("command", ["install", "inst"])] + argv, calls)
    if not env.check(st == "ok" and len(calls) == 1 and calls[0][0] == "install", "subcommand not run", st, code):
        return [st, code]
    args = calls[0][1]
    env.check(args.file_set_name == (names or ["main"]), "names", args.file_set_name)
    env.check(args.update == (u != "no"), "update", u, args.update)
    env.reach("%d" % n)
    return [st, args.file_set_name, args.update]


# ------------------------------------------------------------------ L02 validate

STATUS = ["COMMENT", "ERROR", "NOTE", "OK", "OPTIONAL", "TODO", "UNUSED", "WARN"]
REFS = ["v3.3", "v2018.5"]
ASCII = [(0x21, 0x2B), (0x2D, 0x7E)]
BANNER = 3  # lines of the warning


def setup_l02(mode):
    setup(mode)
    from sx import env

    env.load_validators([(r, n) for r in REFS for n in (0, 1)])


def ascii_upper(w):
    """upper case of ASCII text, without str.upper"""
    out = ""
    for i in range(len(w)):
        c = w[i]
        out = out + (chr(ord(c) - 32) if "a" <= c <= "z" else c)
    return out


def out_lines(env, before):
    out = []
    for t in env.stdout()[before:]:
        out.extend(str(t).split("\n"))
    return out


def world(env, kind):
    """a data file with findings of many statuses"""
    root = group(None)
    e = root.add("entry", group("NXentry"))
    if kind == "full":
        d = e.add("data", group("NXdata"))
        d.set("signal", Val("str", "x"))
        d.add("x", dataset(Val("ints", [1, 2])))
        d.add("Y", dataset())
        e.add("0", dataset())
        e.add("log", group("NXnothing"))
        e.add("definition", dataset(Val("str", "NXtas")))
    elif kind == "small":
        e.add("title", dataset(Val("str", "t")))
    return root


def validate_with(env, argv, pool=True):
    """punx validate, with the validators that were made before"""
    from punx import validate

    old = validate.Data_File_Validator
    used = []

    def make(ref=None):
        used.append(ref)
        return env.validator(ref, 0)

    try:
        if pool:
            validate.Data_File_Validator = make
        st, code = command(env, ["validate"] + argv)
    finally:
        validate.Data_File_Validator = old
    return st, code, used


def direct(env, ref, p, statuses):
    """the report of the library"""
    v = env.validator(ref, 1)
    before = len(env.stdout())
    st, r = env.run(v.validate, p)
    if st == "ok":
        st, r = env.run(v.print_report, statuses)
    if st != "ok":
        env.problem("crash", exc(r), str(r)[:200])
        return []
    return out_lines(env, before)


def said(env, *words):
    """does one message have all the words?"""
    for m in env.messages():
        if all([w in m for w in words]):
            return True
    return False


def s_selection(env):
    ch = env.ch
    form = ch.pick("form", ["none", "two", "symbolic", "near", "spaces", "all"])
    up = ch.pick("case", ["upper", "lower", "mixed"])
    if form == "none":
        words = None
    elif form == "two":
        words = [ch.pick("w0", STATUS), ch.pick("w1", STATUS)]
    elif form == "symbolic":
        words = [ch.str("word", [0, 1, 2], alphabet=ASCII)]
        if ch.bool("second"):
            words.append(ch.pick("w1", ["NOTE", "OK", "X"]))
    elif form == "near":
        words = ["OK", ch.pick("w0", STATUS)[:-1] + ch.str("last", [0, 1, 2], alphabet=ASCII)]
    elif form == "spaces":
        words = ["OK", ch.pick("blank", [" NOTE", "NOTE ", "", " "])]
    else:
        words = list(STATUS)
    argv = []
    want = list(STATUS)
    bad = []
    if words is not None:
        if form not in ("symbolic", "near"):
            words = [w if up == "upper" else w.lower() if up == "lower" else w.capitalize() for w in words]
        text = words[0]
        for w in words[1:]:
            text = text + "," + w
        argv = [ch.pick("option", ["--report=", "--rep="]) + text]
        want = []
        for w in words:
            u = ascii_upper(w)
            k = [s for s in STATUS if s == u]
            if k:
                want.extend(k)
            else:
                bad.append(w)
    ref = ch.pick("ref", REFS)
    root = world(env, ch.pick("kind", ["full", "small"]))
    p = env.h5file(root)
    st, code, used = validate_with(env, ["-f", ref] + argv + [p])
    got = out_lines(env, 0)
    if bad:
        env.check(st == "exit" and code == 1, "invalid choice accepted", words, st, code)
        env.check(said(env, "--report") or said(env, "*--report*"), "no message", words)
        env.check(not [x for x in got if "summary statistics" in x], "report in spite of an invalid choice")
        env.reach("refused")
        return [st, code]
    env.check(st == "ok", "validate fails", st, code)
    n = len(env.stdout())
    lib = direct(env, ref, p, want)
    env.check(got[BANNER:-1] == lib, "report", words, got[BANNER:-1], lib)
    env.check(got[-1] == "NeXus definitions version: " + ref and used in ([ref], []), "file set", ref, used, got[-1])
    env.reach(form)
    return [st, code, len(got)]


FILE_NAMES = ["x.nxdl.h5", "x.nxdl.xml.h5", "nxdl.xml", "x.xml", "x.nxdl.XML", "x", "a b.nxs", "x.nxdl.xml~", ".hdf5", "x,y.h5", "d"]


def named_file(env, root):
    """a HDF5 file of any of some names; also in a directory that is named like a NXDL file"""
    name = env.ch.pick("file name", FILE_NAMES)
    if name == "d":
        env.mkdir(env.path("d.nxdl.xml"))
        name = "d.nxdl.xml/x.h5"
    return env.h5file(root, name)


def s_subset(env):
    """any set of statuses, each in any case, in either order"""
    ch = env.ch
    words = [w for w in STATUS if ch.bool(w)]
    if not words:
        ch.assume(False)
    want = list(words)
    if ch.bool("backwards"):
        words.reverse()
    k = ch.pick("letters", [0, 1, 2]) if not THOROUGH else ch.pick("letters", [0, 1, 2, 3, 5, 7])
    words = ["".join([c.lower() if (i * 5 + j * 3 + k) % 4 < k else c for j, c in enumerate(w)]) for i, w in enumerate(words)]
    if k == 2:
        words = words + words[:2]
    p = env.h5file(world(env, "full"))
    st, code, used = validate_with(env, ["-f", "v3.3", "--report", ",".join(words), p])
    env.check(st == "ok", "validate fails", words, st, code)
    got = out_lines(env, 0)
    lib = direct(env, "v3.3", p, want)
    env.check(got[BANNER:-1] == lib and len(lib) > 5, "report", words, got[BANNER:-1], lib)
    env.reach("%d" % len(want))
    return [st, code, len(got)]


def s_names_validate(env):
    """a data file of any name"""
    p = named_file(env, world(env, "small"))
    st, code, used = validate_with(env, ["-f", "v3.3", p])
    env.check(st == "ok", "validate fails", st, code)
    got = out_lines(env, 0)
    lib = direct(env, "v3.3", p, STATUS)
    env.check(got[BANNER:-1] == lib and len(lib) > 5, "report", got[BANNER:-1], lib)
    return [st, code, len(got)]


def s_names_tree(env):
    from punx import h5tree

    p = named_file(env, world(env, "small"))
    st, code = command(env, ["tree", p])
    env.check(st == "ok", "tree fails", st, code)
    got = out_all(env)
    st, t = env.run(h5tree.Hdf5TreeView, p)
    t.array_items_shown = 5
    st, want = env.run(t.report, True)
    env.check(got[BANNER:] == want and len(want) > 2, "listing", got[BANNER:], want)
    return [st, code, len(got)]


def s_unreadable(env):
    """missing files, files that are not HDF5, unknown file sets"""
    ch = env.ch
    what = ch.pick("what", ["missing", "garbage", "directory", "file set"])
    p = env.path(ch.pick("name", NAMES) if what == "missing" else "data")
    argv = [p]
    if what == "garbage":
        p = env.garbage("garbage.h5")
        argv = [p]
    elif what == "directory":
        p = env.path("d")
        env.mkdir(p)
        argv = [p]
    elif what == "file set":
        p = env.h5file(world(env, "small"))
        ref = ch.str("ref", [0, 1, 2], alphabet=WORD)
        argv = ["--file_set_name=" + ref, p]
    if what != "file set":
        argv = ["-f", "v3.3"] + argv
    st, code, used = validate_with(env, argv)
    env.check(st == "exit" and code == 1, "accepted", what, st, code)
    if what == "missing":
        env.check(said(env, "File not found", p), "message", what)
    elif what == "file set":
        env.check(used == [], "validated", used)
        env.check(said(env, "not available", ref), "message", what)
    else:
        env.check(said(env, "Could not open", p), "message", what)
    env.check(not [x for x in out_lines(env, 0) if "summary statistics" in x], "report")
    env.reach(what)
    return [st, code]


def s_validate_nxdl(env):
    from props.nxdlmodel import own
    from sx.fakexml import Xml

    ch = env.ch
    ref = ch.pick("ref", ["v3.3", "v2018.5", "a4fd52d", None])
    doc_for = ch.pick("document for", REFS)
    what = ch.pick("what", ["valid", "unknown element", "no name", "not XML", "missing"])
    f = Xml("field", {"name": "f"})
    root = own(doc_for, "base_classes", Xml("group", {"type": "NXdata"}, f))
    if what == "unknown element":
        f.add(Xml("thing", {}))
    elif what == "no name":
        del f.attrib["name"]
    p = env.path(ch.pick("file", ["x", "NXy.z"]) + ".nxdl.xml")
    if what != "missing":
        env.xmlfile(None if what == "not XML" else root, p)
    st, code, used = validate_with(env, (["-f", ref] if ref else []) + [p])
    by = "v2018.5" if ref in (None, "v2018.5") else "v3.3"  # a4fd52d: same rules as v3.3 here
    ok = what == "valid" and doc_for == by
    if ok:
        env.check(st == "ok", "valid file refused", ref, doc_for, st, code)
        env.check(len([x for x in env.stdout() if p in x and "validates" in x]) == 1, "message", env.stdout())
        env.reach("valid")
    else:
        env.check(st == "exit" and code == 1, "invalid file accepted", ref, doc_for, what, st, code)
        env.check(said(env, p), "message")
        env.check(not [x for x in env.stdout() if "validates" in x], "invalid file validates")
        env.reach(what)
    return [st, code]


# ------------------------------------------------------------------ L03 tree


def s_tree(env):
    from props.common import hard, soft
    from punx import h5tree

    ch = env.ch
    n1 = ch.str("n1", [1], alphabet=[(0x61, 0x7A), (0xE0, 0xFF)])
    root = group(None)
    e = root.add("entry", group(ch.pick("class", ["NXentry", None])))
    e.set("a" + n1, Val("int", 3))
    e.add(n1, dataset(Val("ints", [ch.pick("v0", [1, 20])] + list(range(2, 2 + ch.pick("size", [1, 4, 7]))))))
    e.add(n1 + "l", soft(ch.pick("to", ["/entry", "/gone"])))
    a = ch.bool("a")
    m = None
    if ch.bool("m"):
        m = ch.str("limit", [1], alphabet=[(0x30, 0x39)])
    p = env.h5file(root)
    argv = [p] + (["-a"] if a else []) + ([] if m is None else ["-m", m])
    st, code = command(env, [ch.pick("command", ["tree", "tr"])] + argv)
    env.check(st == "ok", "tree fails", st, code)
    got = out_all(env)
    st, t = env.run(h5tree.Hdf5TreeView, p)
    t.array_items_shown = 5 if m is None else ord(m) - 48
    st, want = env.run(t.report, not a)
    env.check(got[BANNER:] == want, "listing", a, m, got[BANNER:], want)
    env.reach("-a" if a else "attributes")
    env.reach("limit" if m is not None else "no limit")
    return [st, code, got[BANNER + 1:]]


def s_tree_nxdl_large(env):
    """every item of a large NXDL file is listed once, below its own group"""
    from sx.fakexml import Xml
    from props.nxdlmodel import own

    ch = env.ch
    cat = ch.pick("category", ["base_classes", "applications", "contributed_definitions"])
    n = ch.pick("items", [6, 30] if not THOROUGH else [6, 30, 100])
    depth = ch.pick("depth", [0, 1, 7] if not THOROUGH else [0, 1, 7, 20])
    twice = ch.bool("same names in another group")
    root = own("v2018.5", cat)
    g = root
    want = []  # what a line starts with, in any order

    def fill(g, pre, level):
        for i in range(n):
            kind = i % 3
            if kind == 0:
                g.add(Xml("field", {"name": "%sf%d" % (pre, i)}, Xml("attribute", {"name": "%sa%d" % (pre, i)})))
                want.append((level, "%sf%d:" % (pre, i)))
                want.append((level + 1, "@%sa%d" % (pre, i)))
            elif kind == 1:
                g.add(Xml("group", {"name": "%sg%d" % (pre, i), "type": "NXnote"}))
                want.append((level, "%sg%d:NXnote" % (pre, i)))
            else:
                g.add(Xml("field", {"name": "%sf%d" % (pre, i)}, Xml("enumeration", {}, Xml("item", {"value": "v"}))))
                want.append((level, "%sf%d:" % (pre, i)))

    if twice:
        o = g.add(Xml("group", {"name": "other", "type": "NXdata"}))
        want.append((0, "other:NXdata"))
        fill(o, "", 1)
    for i in range(depth):
        g = g.add(Xml("group", {"name": "d%d" % i, "type": "NXcollection"}))
        want.append((i, "d%d:NXcollection" % i))
    fill(g, "", depth)
    p = env.path("x.nxdl.xml")
    env.xmlfile(root, p)
    st, code = command(env, ["tree", p])
    env.check(st == "ok", "tree fails", st, code)
    got = out_all(env)[BANNER:]
    lines = [(len(x) - len(x.lstrip()), x.strip()) for x in got[2:]]
    step = {}
    for level, mark in want:
        m = [x[0] for x in lines if x[1][: len(mark)] == mark and x[1][len(mark): len(mark) + 1] not in DIGITS_]
        need = [w[0] for w in want if w[1] == mark]
        if not env.check(len(m) == len(need), "item of the NXDL file", mark, len(m), len(need)):
            continue
        if len(m) == 1:
            # items of one level are indented alike, deeper ones more
            step.setdefault(level, m[0])
            env.check(step[level] == m[0], "indentation of an item", mark, m, step[level])
    order = sorted(step)
    for a, b in zip(order, order[1:]):
        env.check(step[a] < step[b], "indentation of a group", a, b, step)
    env.reach(cat)
    return [st, code, len(got)]


DIGITS_ = tuple("0123456789")


def s_long_arrays(env):
    """long arrays, and limits of several digits"""
    import numpy
    from punx import h5tree

    ch = env.ch
    n = ch.pick("size", [9, 13, 120])
    shape = ch.pick("shape", ["vector", "attribute", "texts", "table"])
    lim = ch.str("limit", [2, 3], alphabet=[(0x30, 0x39)])
    number_ = 0
    for c in lim:
        number_ = number_ * 10 + ord(c) - 48
    if n < 100:
        ch.assume(number_ < n + 12)
    else:
        ch.assume(number_ >= n - 4)
        ch.assume(number_ <= n + 4)
    root = group(None)
    e = root.add("entry", group("NXentry"))
    if shape == "vector":
        e.add("x", dataset(Val("ints", list(range(n)))))
    elif shape == "texts":
        e.add("x", dataset(Val("strs", ["t%d" % i for i in range(n)])))
    elif shape == "attribute":
        e.set("x", Val("ints", list(range(n))))
    else:
        e.add("x", dataset(Val("nd", numpy.arange(3 * n).reshape((n, 3)))))
    p = env.h5file(root)
    st, code = command(env, ["tree", p, "-m", lim])
    env.check(st == "ok", "tree fails", st, code)
    got = out_all(env)
    st, t = env.run(h5tree.Hdf5TreeView, p)
    t.array_items_shown = number_
    st, want = env.run(t.report, True)
    want = [y for x in want for y in x.split("\n")]
    env.check(got[BANNER:] == want, "listing", lim, got[BANNER:], want)
    env.reach(shape)
    return [st, code, got[BANNER + 1:]]


def out_all(env):
    out = []
    for t in env.stdout():
        out.extend(t.split("\n"))
    return out


def s_tree_unreadable(env):
    ch = env.ch
    what = ch.pick("what", ["missing", "missing NXDL", "garbage", "garbage NXDL", "directory", "no category", "category"])
    p = env.path(ch.pick("name", NAMES) if what.startswith("missing") else "data")
    cat = None
    if what == "missing NXDL":
        p = p + ".nxdl.xml"
    elif what == "garbage":
        p = env.garbage("garbage.h5")
    elif what == "directory":
        p = env.path("d")
        env.mkdir(p)
    elif what == "garbage NXDL":
        p = env.path("g.nxdl.xml")
        env.xmlfile(None, p)
    elif what in ("no category", "category"):
        from sx.fakexml import Xml

        p = env.path("g.nxdl.xml")
        root = Xml("definition", {"name": "NXt", "type": "group"})
        if what == "category":
            cat = ch.pick("head", ["", "base", "bas"]) + ch.str("category", [0, 1, 4, 11], alphabet=[(0x20, 0x7E)])
            root.attrib["category"] = cat
            ch.assume(cat != "base" and cat != "application" and cat != "contributed")
        env.xmlfile(root, p)
    st, code = command(env, ["tree", p])
    env.check(st == "exit" and code == 1, "accepted", what, st, code)
    if what.startswith("missing"):
        env.check(said(env, "File not found", p), "message", what)
    elif what in ("garbage", "directory"):
        env.check(said(env, "Could not open", p), "message", what)
    elif what == "category":
        env.check(said(env, "category", cat), "message", what)
    env.reach(what)
    return [st, code]


def s_tree_nxdl(env):
    """the listing of an NXDL file names each of its items"""
    from sx.fakexml import Xml
    from props.nxdlmodel import own

    ch = env.ch
    cat = ch.pick("category", ["base_classes", "applications", "contributed_definitions"])
    n1 = ch.pick("n1", ["n", "x_1"])
    root = own("v2018.5", cat)
    where = ch.pick("where", ["top", "group"])
    g = root
    if where == "group":
        g = root.add(Xml("group", {"type": "NXdata", "name": "grp"}))
    kind = ch.pick("kind", ["field", "group", "attribute", "field attribute"])
    if kind == "field":
        g.add(Xml("field", {"name": n1}))
    elif kind == "group":
        g.add(Xml("group", {"name": n1, "type": "NXnote"}))
    elif kind == "attribute":
        g.add(Xml("attribute", {"name": n1}))
    else:
        g.add(Xml("field", {"name": "fld"}, Xml("attribute", {"name": n1})))
    p = env.path("x.nxdl.xml")
    env.xmlfile(root, p)
    st, code = command(env, ["tree", p])
    env.check(st == "ok", "tree fails", st, code)
    got = out_all(env)[BANNER:]
    env.check(len(got) > 3 and got[0] == "file: " + p, "file", got)
    env.check(got[1].startswith("XSLT: ") and got[1].endswith("/v2018.5/" + cat + "/nxdlformat.xsl"), "category", cat, got[1])
    mark = {"field": n1 + ":", "group": n1 + ":NXnote", "attribute": "@" + n1, "field attribute": "@" + n1}[kind]
    n = 0
    for x in got[2:]:
        y = x.strip()
        if y[: len(mark)] == mark:
            n += 1
    env.check(n == 1, "item of the NXDL file", kind, n1, got)
    env.reach(kind)
    return [st, code, len(got)]


L02 = [
    Scenario("selection", s_selection, ["none", "two", "symbolic", "near", "all", "refused"]),
    Scenario("sets of statuses", s_subset, ["1", "3", "8"]),
    Scenario("unreadable", s_unreadable, ["missing", "garbage", "directory", "file set"]),
    Scenario("file names", s_names_validate, []),
    Scenario("NXDL files", s_validate_nxdl, ["valid", "unknown element", "not XML", "missing"]),
]
L03 = [
    Scenario("large NXDL files", s_tree_nxdl_large, ["base_classes", "applications"]),
    Scenario("long arrays", s_long_arrays, ["vector", "attribute", "texts"]),
    Scenario("data files", s_tree, ["-a", "attributes", "limit", "no limit"]),
    Scenario("unreadable", s_tree_unreadable, ["missing", "garbage", "directory", "category", "missing NXDL"]),
    Scenario("file names", s_names_tree, []),
    Scenario("NXDL files", s_tree_nxdl, ["field", "group", "attribute", "field attribute"]),
]
L01 = [
    Scenario("subcommand", s_word, COMMANDS + ["refused"]),
    Scenario("no subcommand", s_none, ["help", "error"]),
    Scenario("options of tree", s_tree_options, ["no", "-m", "-m joined", "--max_array_items=", "not a number"]),
    Scenario("options of validate", s_validate_options, ["-f", "--report", "no", "-f joined"]),
    Scenario("options of install", s_install_options, ["0", "1", "2"]),
]

BOUNDS_OF = {
    "L01": "symbolic words of up to %d characters of the printable ASCII ones, e acute and alpha in every place of a "
           "subcommand, file name, file set name, report or number; prefixes of the subcommands with up to 2 more "
           "characters; each spelling of each option, before and after the positional arguments" % (4 if THOROUGH else 3),
    "L02": "two files, two file sets (of which the default is one); selections of every subset of the statuses, in both orders and several cases, or of up to 2 words, symbolic up to 2 "
           "characters or a status name with a symbolic ending; unknown file sets of up to 2 symbolic characters; NXDL "
           "documents of 4 kinds, valid, invalid and not XML",
    "L03": "one data file with symbolic names and a link, arrays of 1, 4 and 7 items, every one-digit limit; arrays of 9, 13 and 120 items with limits of "
           "2 or 3 digits around their size; NXDL "
           "files of each category with one item of each kind, or of up to 30 (thorough: 100) items in and "
           "beside chains of up to 7 (thorough: 20) groups; symbolic unknown categories",
}
ASSUMPTIONS = [
    "argparse is executed symbolically like punx itself; the text of its help is not checked",
    "paths of files are concrete: %d names, some of them close to those of NXDL files" % len(FILE_NAMES),
    "the XML Schema and XSLT processors run for real, on one member of each path and again when a path is replayed",
]
