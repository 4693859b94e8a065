"""V10: score, summary and report tell exactly what was found"""

import types

from props.common import *  # noqa
from props.common import Scenario, THOROUGH
from sx import env as E

BOUNDS = (
    "up to %d findings of any of the 8 statuses, any subset of statuses selected; texts of the "
    "report concrete" % (4 if THOROUGH else 3)
)
ASSUMPTIONS = ["the order of findings of one address in the report is not decided"]
NAMES = ["OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL"]
# the documented values
VALUE = {"OK": 100, "NOTE": 75, "WARN": 25, "ERROR": -10000000, "TODO": 0, "UNUSED": 0, "COMMENT": 0, "OPTIONAL": 99}


def setup(mode):
    E.load_validators([("v3.3", 0)])


def status(name):
    from punx import finding

    return getattr(finding, name)


def item(addr):
    return types.SimpleNamespace(h5_address=addr, validations={})


def fill(env, n, addrs=("/a", "/b", "/c", "/d")):
    ch = env.ch
    v = env.validator("v3.3", 0)
    root = group(None)
    p = env.h5file(root, "x.h5")
    env.run(v.validate, p)
    del v.validations[:]
    names = []
    for i in range(n):
        s = ch.pick("status%d" % i, NAMES)
        names.append(s)
        it = item(addrs[i])
        v.record_finding(it, "test%d" % i, status(s), "comment%d" % i)
        f = v.validations[-1]
        env.check(
            len(v.validations) == i + 1 and f.h5_address == addrs[i] and f.test_name == "test%d" % i
            and str(f.status) == s and f.comment == "comment%d" % i,
            "finding recorded", s, str(f),
        )
        env.check(it.validations.get("test%d" % i) is f, "finding of the item", i)
    return v, names


def count(names, s):
    n = 0
    for x in names:
        if x == s:
            n += 1
    return n


def check_score(env, v, names):
    total, n = 0, 0
    for s in names:
        if VALUE[s] != 0:
            total += VALUE[s]
            n += 1
    st, r = env.run(v.finding_score)
    if st != "ok":
        env.problem("score fails", exc(r))
        return
    want = (total, n, float(total) / n if n else 0)
    env.check(len(r) == 3 and r[0] == want[0] and r[1] == want[1] and abs(r[2] - want[2]) < 1e-6, "score", list(r), list(want))


def check_summary(env, v, names, subset=None):
    arg = None if subset is None else [status(s) for s in subset]
    st, r = env.run(v.finding_summary, arg)
    if st != "ok":
        env.problem("summary fails", exc(r), subset)
        return
    got = {str(k): c for k, c in r.items()}
    want = {s: count(names, s) for s in (subset or NAMES)}
    env.check(got == want, "summary", got, want)


def s_counts(env):
    ch = env.ch
    n = ch.pick("n", [0, 1, 2, 3] if not THOROUGH else [0, 1, 2, 3, 4])
    v, names = fill(env, n)
    check_score(env, v, names)
    check_summary(env, v, names)
    env.reach("n%d" % n)
    return names


def s_subset(env):
    """summary of selected statuses"""
    ch = env.ch
    v, names = fill(env, 2)
    subset = [s for s in NAMES if ch.bool("with " + s)]
    check_summary(env, v, names, subset if subset else None)
    env.reach("done")
    return names


def rows(lines):
    """the rows of the findings table and of the statistics in the report"""
    text = "\n".join(lines)
    a, b = text.split("summary statistics")
    found = [x for x in a.splitlines() if "test" in x and "comment" in x and "comments" not in x]
    stats = {}
    for x in b.splitlines():
        w = x.split()
        if len(w) >= 2 and (w[0] in NAMES or w[0] == "TOTAL"):
            stats[w[0]] = w[1]
    return found, stats, b


def s_report(env):
    ch = env.ch
    n = ch.pick("n", [0, 1, 2])
    v, names = fill(env, n, ("/b", "/a@x", "/a", "/"))
    form = ch.pick("form", ["default", "all", "some"])
    sel = None
    if form == "all":
        sel = list(NAMES)
    elif form == "some":
        k = ch.pick("sel", NAMES)
        k2 = ch.pick("sel2", ["OK", "ERROR"])
        sel = [k, k2]
    before = len(env.stdout())
    st, r = env.run(v.print_report, sel)
    if st != "ok":
        env.problem("report fails", exc(r))
        return None
    found, stats, tail = rows(env.stdout()[before:])
    shown = 0
    for i, s in enumerate(names):
        want = 1 if sel is None or s in sel else 0
        shown += want
        hit = []
        for x in found:
            w = x.split()
            if "test%d" % i in w:
                hit.append(w)
        ok = len(hit) == want
        if ok and want:
            ok = hit[0] == [v.validations[i].h5_address, s, "test%d" % i, "comment%d" % i]
        env.check(ok, "row of the report", s, sel, hit)
    env.check(len(found) == shown, "number of rows", found, shown)
    for s in NAMES:
        env.check(stats.get(s) == str(count(names, s)), "statistics of the report", s, stats)
    env.check(stats.get("TOTAL") == str(len(names)), "total of the report", stats)
    env.reach(form)
    return found


def cells(lines):
    """cells of the first table: between its second and third rule"""
    rules = []
    for i in range(len(lines)):
        if lines[i].startswith("=="):
            rules.append(i)
    out = []
    if len(rules) < 3:
        return out
    widths = [len(x) for x in lines[rules[0]].split(" ")]
    for i in range(rules[1] + 1, rules[2]):
        row, pos = [], 0
        for w in widths:
            row.append(lines[i][pos : pos + w])
            pos += w + 1
        out.append(row)
    return out


def cell_row(got, want):
    """every cell holds its text and nothing else"""
    if len(got) != len(want):
        return False
    for i in range(len(want)):
        if len(got[i]) < len(want[i]):
            return False
        if got[i] != want[i] + " " * (len(got[i]) - len(want[i])):
            return False
    return True


def s_texts(env):
    """texts of any length are shown in full, whatever they consist of"""
    ch = env.ch
    v, names = fill(env, 0)
    which = ch.pick("which", ["address", "test", "comment"])
    t = ch.str("text", [1, 3], [(0x21, 0x7E)])
    fill_n = ch.pick("long", [0, 40, 75, 300])
    front = ch.bool("front")
    text = t + "x" * fill_n if front else "x" * fill_n + t
    texts = {"address": "/a", "test": "test0", "comment": "comment0"}
    texts[which] = ("/" if which == "address" else "") + text
    s = ch.pick("status", ["OK", "ERROR"])
    v.record_finding(item("/b"), "test1", status("WARN"), "comment1")
    v.record_finding(item(texts["address"]), texts["test"], status(s), texts["comment"])
    before = len(env.stdout())
    st, r = env.run(v.print_report)
    if st != "ok":
        env.problem("report fails", exc(r))
        return None
    out = []
    for x in env.stdout()[before:]:
        for line in x.split("\n"):
            out.append(line)
    got = cells(out)
    want = [texts["address"], s, texts["test"], texts["comment"]]
    other = ["/b", "WARN", "test1", "comment1"]
    env.check(len(got) == 2, "number of rows", len(got))
    if len(got) == 2:
        ok = (cell_row(got[0], want) and cell_row(got[1], other)) or (cell_row(got[0], other) and cell_row(got[1], want))
        env.check(ok, "row of the report", got, want)
    env.reach(which)
    return got


def s_many(env):
    """many findings: all of them in the report, the score and the summary"""
    ch = env.ch
    v, names = fill(env, 0)
    n = ch.pick("n", [12, 60, 150])
    at = ch.pick("at", [0, n // 2, n - 1])
    s = ch.pick("status", NAMES)
    same = ch.bool("one address")
    want = []
    for i in range(n):
        k = s if i == at else ("OK", "NOTE", "OPTIONAL")[i % 3]
        addr = "/a" if same else "/a%d" % i
        v.record_finding(item(addr), "test%d" % i, status(k), "comment%d" % i)
        names.append(k)
        want.append([addr, k, "test%d" % i, "comment%d" % i])
    check_score(env, v, names)
    check_summary(env, v, names)
    before = len(env.stdout())
    st, r = env.run(v.print_report)
    if st != "ok":
        env.problem("report fails", exc(r))
        return None
    found, stats, tail = rows(env.stdout()[before:])
    got = [x.split() for x in found]
    env.check(sorted(got) == sorted(want), "rows of the report", len(got), n)
    env.check(stats.get("TOTAL") == str(n), "total of the report", stats)
    for k in NAMES:
        env.check(stats.get(k) == str(count(names, k)), "statistics of the report", k, stats)
    env.reach("n%d" % n)
    return len(got)


def s_equal(env):
    """findings that say the same are still several findings"""
    ch = env.ch
    v, names = fill(env, 0)
    its = [item("/a"), item("/a@b")]
    want = {}
    for i in range(3):
        k = ch.pick("i%d" % i, [0, 1])
        s = ch.pick("s%d" % i, ["OK", "ERROR", "TODO"])
        c = ch.pick("c%d" % i, ["comment1", "comment2"])
        v.record_finding(its[k], "test1", status(s), c)
        names.append(s)
        key = " ".join([its[k].h5_address, s, "test1", c])
        want[key] = want.get(key, 0) + 1
    check_score(env, v, names)
    check_summary(env, v, names)
    before = len(env.stdout())
    st, r = env.run(v.print_report)
    if st != "ok":
        env.problem("report fails", exc(r))
        return None
    found, stats, tail = rows(env.stdout()[before:])
    got = {}
    for x in found:
        key = " ".join(x.split())
        got[key] = got.get(key, 0) + 1
    env.check(got == want, "rows of the report", got, want)
    env.check(stats.get("TOTAL") == "3", "total of the report", stats)
    env.reach("repeated" if len(want) == 1 else "different")
    return found


def s_status(env):
    """a finding has one of the documented statuses"""
    ch = env.ch
    from punx import finding

    form = ch.pick("form", ["name", "symbolic", "other", "lookalike"])
    if form == "name":
        bad = ch.pick("bad", NAMES)
    elif form == "symbolic":
        bad = ch.str("bad", [2, 4])
    elif form == "other":
        bad = ch.pick("bad", [None, 0, 100, True, False, 75.0])
    else:
        bad = types.SimpleNamespace(key="OK", value=100, description="meets NeXus specification")
    st, r = env.run(finding.Finding, "/a", "t", bad, "c")
    env.check(st == "exc" and isinstance(r, ValueError), "unknown status accepted", form, st)
    good = ch.pick("good", NAMES)
    s = status(good)
    st, r = env.run(finding.Finding, "/a", "t", s, "c")
    env.check(st == "ok" and r.status is s and r.h5_address == "/a" and r.test_name == "t" and r.comment == "c", "finding", good)
    env.check(s.value == VALUE[good] and str(s) == good, "value of the status", good, s.value)
    env.check(len(finding.VALID_STATUS_LIST) == 8 and sorted(finding.VALID_STATUS_DICT.keys()) == sorted(NAMES), "statuses")
    env.reach(form)
    return good


def s_md5(env):
    """same address and test: same hash; otherwise different"""
    ch = env.ch
    from punx import finding

    alts = ["/a", "/a\nt", "t", "/", "/a@t", "é"]
    a1, t1 = ch.pick("a1", alts), ch.pick("t1", alts)
    a2, t2 = ch.pick("a2", alts), ch.pick("t2", alts)
    ch.assume("\n" not in a1 and "\n" not in a2)
    f = finding.Finding(a1, t1, status("OK"), "c")
    g = finding.Finding(a2, t2, status(ch.pick("s", ["OK", "ERROR"])), "d")
    same = a1 == a2 and t1 == t2
    env.check((f.make_md5() == g.make_md5()) == same, "hash", a1, t1, a2, t2)
    env.reach("same" if same else "different")
    return same


def s_file(env):
    """after a validation: every finding counted"""
    ch = env.ch
    a = ch.pick("a", ["NXentry", "NXnothing", None])
    b = ch.pick("b", ["NXdata", "NXsas", "NXcollection", None])
    nm = ch.pick("name", ["x", "X", "1x", "é"])
    sig = ch.pick("signal", [None, "x", "gone"])
    root = group(None)
    e = root.add("entry", group(a))
    d = e.add("data", group(b))
    d.add(nm, dataset())
    if sig is not None:
        d.set("signal", Val("str", sig))
    v, x = validated(env, root)
    if x is not None:
        return exc(x)
    names = [str(f.status) for f in v.validations]
    check_score(env, v, names)
    check_summary(env, v, names)
    check_summary(env, v, names, ["ERROR", "WARN"])
    before = len(env.stdout())
    st, r = env.run(v.print_report, ["ERROR", "NOTE"])
    env.check(st == "ok", "report fails", exc(r) if st != "ok" else None)
    out = "\n".join(env.stdout()[before:])
    part = out.split("summary statistics")[0]
    shown = [x.split()[:2] for x in part.splitlines() if x.startswith("/")]
    want = sorted([[f.h5_address, str(f.status)] for f in v.validations if str(f.status) in ("ERROR", "NOTE")])
    env.check(sorted(shown) == want, "rows of the report", sorted(shown), want)
    env.reach("done")
    return names


SCENARIOS = [
    Scenario("counts", s_counts, ["n0", "n3"]),
    Scenario("selected statuses", s_subset, ["done"]),
    Scenario("report", s_report, ["default", "all", "some"]),
    Scenario("texts", s_texts, ["address", "test", "comment"]),
    Scenario("many findings", s_many, ["n12", "n60", "n150"]),
    Scenario("equal findings", s_equal, ["repeated", "different"]),
    Scenario("status", s_status, ["name", "symbolic", "other", "lookalike"]),
    Scenario("hash", s_md5, ["same", "different"]),
    Scenario("validated file", s_file, ["done"]),
]
