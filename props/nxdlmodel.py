"""N01-N04: the Python model of NXDL class definitions (nxdl_manager)"""

import os
import shutil

from props.common import *  # noqa
from props.common import Scenario, THOROUGH
from props import nxdlref
from sx import env as E
from sx.fakexml import Note, Xml

REFS = ["v3.3", "v2018.5", "a4fd52d"]
NAMES = [(0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A)]  # NXDL item names
DIGITS = "0123456789"
CATS = ["base_classes", "applications", "contributed_definitions"]
WORD = {"base_classes": "base", "applications": "application", "contributed_definitions": "contributed"}


def setup(mode):
    E.load_validators([(r, 0) for r in REFS])
    for r in REFS:
        nxdlref.fileset(r)


def nm(ch, label, lens):
    return ch.str(label, lens, alphabet=NAMES, first_exclude=DIGITS)


def definition(name, cat, *children, **attrs):
    a = {"name": name, "category": WORD[cat], "type": "group", "extends": "NXobject"}
    a.update(attrs)
    return Xml("definition", a, *children)


def fileset_dir(env, ref="v2018.5", name="fs"):
    import punx

    src = os.path.join(os.path.dirname(punx.__file__), "cache", ref)
    d = env.path(name)
    os.mkdir(d)
    for f in ("nxdl.xsd", "nxdlTypes.xsd"):
        shutil.copy(os.path.join(src, f), os.path.join(d, f))
    for c in CATS:
        os.mkdir(os.path.join(d, c))
    return d


def model(env, docs, ref="v2018.5"):
    """docs: [(category, file title, root)]; the NXDL_Manager of such a file set, or None"""
    from punx import cache_manager, nxdl_manager

    d = fileset_dir(env, ref)
    for cat, title, root in docs:
        env.xmlfile(root, os.path.join(d, cat, title + ".nxdl.xml"))
    fs = cache_manager.NXDL_File_Set()
    fs.path = d
    fs.ref = "test"
    st, m = env.run(nxdl_manager.NXDL_Manager, fs)
    if st != "ok":
        env.problem("crash", exc(m), str(m)[:300])
        return None
    return m


# ------------------------------------------------------------------ N01
# every declared item is in the model, under its own name

KINDS = ["group", "named group", "field", "link"]


def element(kind, name, mark):
    """an element that can be told apart by its mark"""
    if kind == "field":
        return Xml("field", {"name": name}, Xml("enumeration", {}, Xml("item", {"value": mark})))
    if kind == "link":
        return Xml("link", {"name": name, "target": "/" + mark})
    a = {"type": "NX" + name} if kind == "group" else {"type": "NXdata", "name": name}
    return Xml("group", a, Xml("field", {"name": mark}))


def mark_of(kind, obj):
    if kind == "field":
        return obj.enumerations
    if kind == "link":
        return [obj.target[1:]]
    return list(obj.fields.keys())


def kind_dict(holder, kind):
    return {"field": holder.fields, "link": holder.links}.get(kind, holder.groups)


def judge_level(env, holder, items):
    """items: [(kind, declared name, mark)] of one group"""
    keys = []
    for dd in (holder.groups, holder.fields, holder.links):
        keys += list(dd.keys())
    env.check(len(keys) == len(items), "number of items", len(keys), len(items))
    for i in range(len(keys)):
        for j in range(i):
            env.check(keys[i] != keys[j], "two items of the same name", keys[i])
    for kind, name, mark in items:
        found = []
        for k, o in kind_dict(holder, kind).items():
            if mark_of(kind, o) == [mark]:
                found.append((k, o))
        if not env.check(len(found) == 1, "declared item", kind, name, mark, len(found)):
            continue
        k, o = found[0]
        env.check(o.name == k, "name and key", kind, k, o.name)
        env.check(name in keys, "declared name", name, keys)
        if k != name:
            tail = k[len(name):]
            ok = k.startswith(name) and len(tail) > 0
            for c in tail:
                if not ("0" <= c <= "9"):
                    ok = False
            env.check(ok, "replacement of a name", kind, name, k)
            env.reach("renamed")
        else:
            env.reach("kept")
    return keys


def place(where, cat, children):
    if where == "top":
        return definition("NXt", cat, *children)
    if where == "inner":
        return definition("NXt", cat, Xml("group", {"type": "NXentry"}, *children))
    return definition(
        "NXt", cat,
        Xml("field", {"name": "zz"}),
        Xml("group", {"type": "NXentry"}, Xml("group", {"type": "NXdata", "name": "dd"}, *children)),
    )


def located(env, m, where):
    d = m.classes["NXt"]
    if where == "top":
        return d
    try:
        e = d.groups["entry"]
        return e if where == "inner" else e.groups["dd"]
    except KeyError as x:
        env.problem("group of the definition", str(x))
        return None


def s_items(env):
    ch = env.ch
    where = ch.pick("where", ["top", "inner", "deep"])
    cat = ch.pick("cat", ["base_classes", "applications"])
    n = ch.pick("n", [1, 2, 3])
    items = []
    for i in range(n):
        kind = ch.pick("kind%d" % i, KINDS if i < 2 or THOROUGH else KINDS[1:3])
        items.append((kind, nm(ch, "name%d" % i, [1, 2] if i != 1 else [1]), "m%d" % i))
    m = model(env, [(cat, "NXt", place(where, cat, [element(*x) for x in items]))])
    if m is None:
        return None
    holder = located(env, m, where)
    if holder is None:
        return None
    r = judge_level(env, holder, items)
    env.reach(where)
    return r


def s_many(env):
    """the same name again and again, and names that look like the replacements"""
    ch = env.ch
    base = "ab"
    items = []
    for i in range(5 if not THOROUGH else 6):
        kind = ch.pick("kind%d" % i, ["field", "named group"] if i % 2 else ["field", "link"])
        tail = ch.pick("tail%d" % i, ["", "1", "2"] if i or THOROUGH else [""])
        items.append((kind, base + tail, "m%d" % i))
    m = model(env, [("base_classes", "NXt", place("top", "base_classes", [element(*x) for x in items]))])
    if m is None:
        return None
    return judge_level(env, m.classes["NXt"], items)


def s_attributes(env):
    """attributes of definition, group and field"""
    ch = env.ch
    where = ch.pick("where", ["definition", "group", "field", "deep field"])
    names = [nm(ch, "name0", [1, 2]), nm(ch, "name1", [1, 2]), nm(ch, "name2", [1])]
    ch.assume(names[0] != names[1])
    ch.assume(names[1] != names[2])
    ch.assume(names[0] != names[2])
    els = [Xml("attribute", {"name": x}, Xml("enumeration", {}, Xml("item", {"value": "m%d" % i}))) for i, x in enumerate(names)]
    f = Xml("field", {"name": "f"})
    g = Xml("group", {"type": "NXdata"})
    deep = Xml("field", {"name": "f"})
    g.children += ([] if where != "group" else els) + [deep]
    if where == "field":
        f.children += els
    if where == "deep field":
        deep.children += els
    root = definition("NXt", "base_classes", *((els if where == "definition" else []) + [g, f]))
    m = model(env, [("base_classes", "NXt", root)])
    if m is None:
        return None
    d = m.classes["NXt"]
    o = {"definition": d, "group": d.groups["data"], "field": d.fields["f"], "deep field": d.groups["data"].fields["f"]}
    for w in o:
        if w == where:
            continue
        env.check(len(o[w].attributes) == 0, "attributes elsewhere", w, len(o[w].attributes))
    got = o[where].attributes
    env.check(len(got) == 3, "number of attributes", len(got))
    for i, x in enumerate(names):
        a = got.get(x)
        if env.check(a is not None, "declared attribute", x):
            env.check(a.name == x and a.enumerations == ["m%d" % i], "attribute", x, a.enumerations)
    env.reach(where)
    return sorted(got.keys())


def s_large(env):
    """a large group; one item of a symbolic name, one that repeats a name again and again"""
    ch = env.ch
    n = ch.pick("others", [4, 24] if not THOROUGH else [4, 12, 24, 60])
    pos = ch.pick("position", ["first", "middle", "last"])
    kind = ch.pick("kind", ["field", "named group", "link"])
    same = ch.pick("same", ["field", "group", "link"]) if n == 4 else None
    name = nm(ch, "name", [1, 3])
    items = []
    for i in range(n):
        k = KINDS[i % 4] if same is None else ("field" if i % 2 else "link")
        items.append((k, "zz%d" % i, "m%d" % i))
    for i in range(12 if same is not None else 0):
        items.append((same, "zz0", "s%d" % i))  # up to zz011
    at = {"first": 0, "middle": len(items) // 2, "last": len(items)}[pos]
    items.insert(at, (kind, name, "mark"))
    m = model(env, [("base_classes", "NXt", place("inner", "base_classes", [element(*x) for x in items]))])
    if m is None:
        return None
    holder = located(env, m, "inner")
    if holder is None:
        return None
    r = judge_level(env, holder, items)
    env.reach(pos)
    return r


def s_depth(env):
    """a long chain of groups, with an item at one level"""
    ch = env.ch
    depth = ch.pick("depth", [8] if not THOROUGH else [4, 8, 20])
    level = ch.pick("level", ["first", "middle", "last"])
    named = ch.pick("groups", ["all named alike", "numbered", "by class"])
    kind = ch.pick("kind", KINDS)
    name = nm(ch, "name", [1, 2])
    cat = ch.pick("cat", CATS[:2])
    lev = {"first": 1, "middle": depth // 2, "last": depth}[level]
    names = ["gg" if named == "all named alike" else "gg%d" % i if named == "numbered" else "gg" for i in range(depth)]
    kids = []
    want = []  # innermost first
    for i in reversed(range(depth)):
        mine = [("field", "yy", "y%d" % i)]
        els = [element("field", "yy", "y%d" % i)]
        if i + 1 == lev:
            mine.append((kind, name, "mark"))
            els.append(element(kind, name, "mark"))
        want.append((mine, i + 1 < depth))
        a = {"type": "NXgg"} if named == "by class" else {"type": "NXcollection", "name": names[i]}
        kids = [Xml("group", a, *(els + kids))]
    m = model(env, [(cat, "NXt", definition("NXt", cat, *kids))])
    if m is None:
        return None
    want.reverse()
    h = m.classes["NXt"]
    out = []
    for i in range(depth):
        h = h.groups.get(names[i])
        if h is None:
            env.problem("group of the definition", i, names[i])
            return None
        mine, more = want[i]
        if i + 1 == lev:
            # the other group of this level has no mark; keep the name apart from it
            ch.assume(name != "gg") if named != "numbered" else ch.assume(name != "gg%d" % (i + 1))
        keys = list(h.groups.keys()) + list(h.fields.keys()) + list(h.links.keys())
        env.check(len(keys) == len(mine) + (1 if more else 0), "number of items", i, keys)
        for k, nm_, mk in mine:
            found = [x for x, o in kind_dict(h, k).items() if mark_of(k, o) == [mk]]
            if env.check(len(found) == 1, "declared item", i, k, nm_, len(found)):
                x = found[0]
                ok = x.startswith(nm_)
                for c in x[len(nm_):]:
                    if not ("0" <= c <= "9"):
                        ok = False
                env.check(ok, "name of the item", i, k, nm_, x)
        out.append(len(keys))
    env.reach(level)
    return out


def s_shipped(env):
    """the shipped file sets, class by class"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    cls = ch.pick("class", sorted(nxdlref.fileset(ref)))
    want = nxdlref.fileset(ref)[cls]
    m = env.validator(ref, 0).manager
    env.check(len(m.classes) == len(nxdlref.fileset(ref)), "classes", ref, len(m.classes))
    if not env.check(cls in m.classes, "class", ref, cls):
        return None
    d = m.classes[cls]
    env.check(d.title == cls and d.category == want.category, "title and category", cls, d.title, d.category)
    n = compare_group(env, cls, d, want)
    env.reach(d.category)
    return n


def compare_group(env, path, got, want):
    n = 0
    for kind in ("groups", "fields", "links"):
        g, w = getattr(got, kind), getattr(want, kind)
        env.check(sorted(g.keys()) == sorted(w.keys()), "items", path, kind, sorted(g.keys()), sorted(w.keys()))
        n += len(w)
        for k in w:
            if k in g and kind == "fields":
                env.check(list(g[k].enumerations) == list(w[k].enums), "enumeration", path, k)
            elif k in g and kind == "links":
                env.check(g[k].target == w[k], "link", path, k)
            elif k in g:
                n += compare_group(env, path + "/" + k, g[k], w[k])
    for k in want.attributes:
        if env.check(k in got.attributes, "attribute", path, k):
            env.check(list(got.attributes[k].enumerations) == list(want.attributes[k].enums), "enumeration", path, k)
    return n


N01 = [
    Scenario("items of one group", s_items, ["top", "inner", "deep", "renamed", "kept"]),
    Scenario("many of a name", s_many, ["renamed", "kept"]),
    Scenario("large groups", s_large, ["first", "middle", "last"]),
    Scenario("groups in groups", s_depth, ["first", "middle", "last"]),
    Scenario("attributes", s_attributes, ["definition", "group", "field", "deep field"]),
    Scenario("shipped classes", s_shipped, ["base_classes", "applications", "contributed_definitions"]),
]

# ------------------------------------------------------------------ N02
# what an element declares is what the model tells

TEXT = [(0x20, 0x7E), (0xC0, 0xFF), (0x3B1, 0x3C9)]


def txt(ch, label, lens=(0, 1, 2)):
    return ch.str(label, list(lens), alphabet=TEXT)


def noise(ch, label):
    x = ch.pick(label, [None, "comment", "pi"])
    return [] if x is None else [Note(x)]


def s_enum(env):
    ch = env.ch
    who = ch.pick("who", ["field", "attribute of field", "attribute of group", "attribute of definition"])
    n = ch.pick("n", [0, 1, 2, 3])
    vals = [txt(ch, "v%d" % i, [0, 1, 2] if i < 2 else [1]) for i in range(n)]
    kids = noise(ch, "before")
    for v in vals:
        kids.append(Xml("item", {"value": v}, Xml("doc", {}, text="x")))
    kids = kids + noise(ch, "after")
    en = [Xml("enumeration", {}, *kids)] if n > 0 else []
    if who == "field":
        f = Xml("field", {"name": "f"}, *en)
    elif who == "attribute of field":
        f = Xml("field", {"name": "f"}, Xml("attribute", {"name": "a"}, *en))
    else:
        f = Xml("field", {"name": "f"}, Xml("enumeration", {}, Xml("item", {"value": "other"})))
    g = Xml("group", {"type": "NXdata"})
    if who == "attribute of group":
        g.add(Xml("attribute", {"name": "a"}, *en))
    g.add(f)
    root = definition("NXt", "base_classes")
    if who == "attribute of definition":
        root.add(Xml("attribute", {"name": "a"}, *en))
    root.add(g)
    m = model(env, [("base_classes", "NXt", root)])
    if m is None:
        return None
    d = m.classes["NXt"]
    fo = d.groups["data"].fields["f"]
    if who == "field":
        got = fo.enumerations
    elif who == "attribute of field":
        got = fo.attributes["a"].enumerations
        env.check(fo.enumerations == [], "enumeration of the field", fo.enumerations)
    elif who == "attribute of group":
        got = d.groups["data"].attributes["a"].enumerations
    else:
        got = d.attributes["a"].enumerations
    if who.startswith("attribute of d") or who.startswith("attribute of g"):
        env.check(fo.enumerations == ["other"], "enumeration of the field", fo.enumerations)
    ok = len(got) == len(vals)
    if ok:
        for a, b in zip(got, vals):
            if a != b:
                ok = False
    env.check(ok, "enumeration", who, got, vals)
    env.reach(who)
    return list(got)


def s_dims(env):
    ch = env.ch
    rank = ch.pick("rank", [None, "symbolic"])
    n = ch.pick("n", [0, 1, 2, 3])
    a = {} if rank is None else {"rank": txt(ch, "ranktext")}
    kids = noise(ch, "before")
    idx = []
    for i in range(n):
        idx.append(ch.str("index%d" % i, [1], alphabet=[(0x31, 0x39)]))
        for j in range(i):
            ch.assume(idx[i] != idx[j])
    opt = ch.pick("with", [(), ("ref",), ("ref", "refindex"), ("incr",)])
    dims = []
    for i in range(n):
        x = {"index": idx[i], "value": txt(ch, "value%d" % i, [1, 2])}
        for k in opt:
            x[k] = str(i + 1) if k != "ref" else "other%d" % i
        dims.append(x)
        kids.append(Xml("dim", x))
    f = Xml("field", {"name": "f"}, Xml("dimensions", a, *kids))
    with_other = ch.bool("other field first")
    root = definition("NXt", "base_classes", *([Xml("field", {"name": "e"})] if with_other else []))
    root.add(f)
    m = model(env, [("base_classes", "NXt", root)])
    if m is None:
        return None
    d = m.classes["NXt"]
    if with_other:
        env.check(d.fields["e"].dimensions is None, "dimensions of another field")
    o = d.fields["f"].dimensions
    if not env.check(o is not None, "no dimensions"):
        return None
    env.check(o.rank == a.get("rank"), "rank", o.rank, a.get("rank"))
    env.check(len(o.dims) == n, "number of dims", len(o.dims), n)
    got = list(o.dims.values())
    keys = list(o.dims.keys())
    if len(got) == n:
        for i in range(n):
            env.check(keys[i] == idx[i], "index of a dim", keys[i], idx[i])
            for k in ("index", "value", "ref", "refindex", "incr"):
                v = getattr(got[i], k)
                env.check(v == dims[i].get(k), "dim", k, v, dims[i].get(k))
    env.reach("%d" % n)
    return [o.rank, keys]


def s_symbols(env):
    ch = env.ch
    n = ch.pick("n", [0, 1, 2])
    kids = noise(ch, "n0")
    if ch.bool("doc"):
        kids.append(Xml("doc", {}, text="about"))
    names = []
    for i in range(n):
        x = ch.pick("named%d" % i, [True, False])
        a = {}
        if x:
            a["name"] = nm(ch, "name%d" % i, [1, 2])
            names.append(a["name"])
        kids.append(Xml("symbol", a, Xml("doc", {}, text="s")))
        kids = kids + noise(ch, "n%d" % (i + 1))
    root = definition("NXt", "base_classes", Xml("symbols", {}, *kids), Xml("field", {"name": "f"}))
    m = model(env, [("base_classes", "NXt", root)])
    if m is None:
        return None
    got = m.classes["NXt"].symbols
    ok = len(got) == len(names)
    if ok:
        for a, b in zip(got, names):
            if a != b:
                ok = False
    env.check(ok, "symbols", got, names)
    env.reach("%d" % len(names))
    return list(got)


def s_link(env):
    ch = env.ch
    # path of names, each maybe with a class
    t = "/NXentry/" + nm(ch, "t1", [1, 2])
    if ch.bool("class"):
        t = t + ":" + nm(ch, "t2", [1])
    if ch.bool("longer"):
        t = t + "/" + nm(ch, "t3", [1, 2])
    n = nm(ch, "name", [1, 2])
    where = ch.pick("where", ["top", "inner", "deep"])
    m = model(env, [("applications", "NXt", place(where, "applications", [Xml("link", {"name": n, "target": t})]))])
    if m is None:
        return None
    holder = located(env, m, where)
    if holder is None:
        return None
    env.check(len(holder.links) == 1, "number of links", len(holder.links))
    for k, o in holder.links.items():
        env.check(o.target == t and o.name == n and k == n, "link", k, o.name, o.target, t)
    env.reach(where)
    return [str(where)]


def s_large_contents(env):
    """long lists and long texts"""
    ch = env.ch
    what = ch.pick("what", ["enumeration", "attribute", "dimensions", "symbols", "link", "fields"])
    n = ch.pick("n", [11, 40] if not THOROUGH else [11, 40, 120])
    pos = ch.pick("position", ["first", "middle", "last"])
    at = {"first": 0, "middle": n // 2, "last": n - 1}[pos]
    root = definition("NXt", "base_classes", Xml("field", {"name": "e"}))
    if what in ("enumeration", "attribute", "fields"):
        long_ = ch.pick("length", [1, 3, 70])
        v = txt(ch, "v", [1, 2])
        vals = ["value %d" % i for i in range(n)]
        vals[at] = v if long_ == 1 else v + "x" * 68 if long_ == 70 else "val" + v
        if ch.bool("twice"):
            vals[(at + 1) % n] = vals[at]
        note = ch.bool("comment")
        if what == "fields":
            for i, x in enumerate(vals):
                root.add(Xml("field", {"name": "f%d" % i}, Xml("enumeration", {}, Xml("item", {"value": x}))))
        else:
            en = Xml("enumeration", {})
            for i, x in enumerate(vals):
                en.add(Xml("item", {"value": x}))
                if note and i == at:
                    en.add(Note("comment"))
            f = Xml("field", {"name": "f"}, Xml("attribute", {"name": "a"}, en) if what == "attribute" else en)
            root.add(f)
    elif what == "dimensions":
        n = min(n, 12)
        at = min(at, n - 1)
        v = txt(ch, "v", [1, 2])
        d = Xml("dimensions", {"rank": str(n)})
        vals = ["n%d" % i for i in range(n)]
        vals[at] = v
        order = list(range(n)) if ch.bool("in order") else list(reversed(range(n)))
        for i in order:
            d.add(Xml("dim", {"index": str(i + 1), "value": vals[i]}))
        root.add(Xml("field", {"name": "f"}, d))
    elif what == "symbols":
        v = nm(ch, "v", [1, 2])
        vals = ["sym%d" % i for i in range(n)]
        vals[at] = v
        root.children.insert(0, Xml("symbols", {}, *[Xml("symbol", {"name": x}, Xml("doc", {}, text="s")) for x in vals]))
    else:
        v = nm(ch, "v", [1, 2])
        parts = ["part%d" % i for i in range(n)]
        parts[at] = v
        vals = "/NXentry/" + "/".join(parts)
        root.add(Xml("link", {"name": "k", "target": vals}))
    m = model(env, [("base_classes", "NXt", root)])
    if m is None:
        return None
    c = m.classes["NXt"]
    env.check("e" in c.fields and c.fields["e"].enumerations == [] and c.fields["e"].dimensions is None, "another field")
    if what == "enumeration":
        got = c.fields["f"].enumerations
    elif what == "attribute":
        got = c.fields["f"].attributes["a"].enumerations
    elif what == "fields":
        got = []
        for i in range(n):
            o = c.fields.get("f%d" % i)
            got += ["missing"] if o is None else list(o.enumerations)
    elif what == "dimensions":
        o = c.fields["f"].dimensions
        env.check(o.rank == str(n), "rank", o.rank, n)
        keys = list(o.dims.keys())
        env.check(sorted(keys) == sorted(str(i + 1) for i in range(n)), "indices of the dims", keys)
        got = [o.dims[str(i + 1)].value if str(i + 1) in o.dims else "missing" for i in range(n)]
    elif what == "symbols":
        got = c.symbols
    else:
        env.check(list(c.links.keys()) == ["k"], "links", list(c.links.keys()))
        got = c.links["k"].target
        env.check(got == vals, "target", got, vals)
        env.reach(pos)
        return [got == vals]
    ok = len(got) == len(vals)
    if ok:
        for a, b in zip(got, vals):
            if a != b:
                ok = False
    env.check(ok, "contents", what, got, vals)
    env.reach(pos)
    return list(got)


N02 = [
    Scenario("large contents", s_large_contents, ["first", "middle", "last"]),
    Scenario("enumerations", s_enum, ["field", "attribute of field", "attribute of group", "attribute of definition"]),
    Scenario("dimensions", s_dims, ["0", "1", "2", "3"]),
    Scenario("symbols", s_symbols, ["0", "1", "2"]),
    Scenario("links", s_link, ["top", "inner", "deep"]),
]

# ------------------------------------------------------------------ N03
# what must be there


def occurs(ch, label):
    form = ch.pick(label, [None, "text"])
    if form is None:
        return None
    return ch.str(label + "text", [1, 2] if not THOROUGH else [1, 2, 3], alphabet=[(0x30, 0x39)])


def number(t):
    v = 0
    for c in t:
        v = v * 10 + (ord(c) - 48)
    return v


def one_class(ch, label, cat):
    """a definition with a field and an attribute; what it declares"""
    mo = occurs(ch, label + "min")
    a = {"name": "f"}
    if mo is not None:
        a["minOccurs"] = mo
    att = Xml("attribute", {"name": "at"})
    f = Xml("field", a, att)
    where = ch.pick(label + "where", ["top", "inner"])
    root = place(where, cat, [f, Xml("attribute", {"name": "ag"})][:: -1])
    root.attrib["name"] = "NX" + label
    return root, mo, where


def judge_class(env, d, cat, mo, where):
    h = d
    if where == "inner":
        h = d.groups["entry"]
        g = h.xml_attributes["minOccurs"].default_value
        env.check(int(g) == (1 if cat == "applications" else 0), "occurrence of a group", cat, g)
    f = h.fields["f"]
    got = f.xml_attributes["minOccurs"].default_value
    if cat == "applications":
        want = 1 if mo is None else number(mo)
        env.check(int(got) == want, "occurrence of a field", cat, got, want)
    else:
        env.check(int(got) == 0, "occurrence of a field", cat, got)
    for o in (f.attributes["at"], h.attributes["ag"]):
        v = o.xml_attributes["optional"].default_value
        no = v is False or str(v).lower() == "false"
        env.check(no == (cat == "applications"), "occurrence of an attribute", cat, v)
    return [str(got)]


def s_occurs(env):
    """two definitions of any categories, read in this order"""
    ch = env.ch
    c1 = ch.pick("cat1", CATS)
    c2 = ch.pick("cat2", CATS)
    r1, m1, w1 = one_class(ch, "a", c1)
    r2, m2, w2 = one_class(ch, "b", c2)
    m = model(env, [(c1, "NXa", r1), (c2, "NXb", r2)])
    if m is None:
        return None
    r = judge_class(env, m.classes["NXa"], c1, m1, w1)
    r += judge_class(env, m.classes["NXb"], c2, m2, w2)
    env.reach(c1 + " " + c2)
    return r


def s_two_fields(env):
    """each field its own"""
    ch = env.ch
    cat = ch.pick("cat", CATS)
    els, mins = [], []
    for i in range(3):
        mo = ch.pick("min%d" % i, [None, "0", "1", "2"])
        els.append(Xml("field", {"name": "f%d" % i} if mo is None else {"name": "f%d" % i, "minOccurs": mo}))
        mins.append(mo)
    m = model(env, [(cat, "NXt", place("inner", cat, els))])
    if m is None:
        return None
    h = m.classes["NXt"].groups["entry"]
    r = []
    for i in range(3):
        got = int(h.fields["f%d" % i].xml_attributes["minOccurs"].default_value)
        want = 0
        if cat == "applications":
            want = 1 if mins[i] is None else int(mins[i])
        env.check(got == want, "occurrence of a field", cat, i, got, want)
        r.append(got)
    env.reach(cat)
    return r


LOWER = [(0x61, 0x7A), (0x5F, 0x5F)]
# what a field may declare besides its name and minOccurs
FIELD_OTHER = {
    "deprecated": ["no", "1"], "units": ["NX_ANY", "NX_LENGTH"], "long_name": ["x", "optional"], "signal": ["1", "2"],
    "axes": ["a", "a:b"], "axis": ["1", "3"], "primary": ["1", "2"], "type": ["NX_CHAR", "NX_FLOAT", "NX_BOOLEAN"],
    "maxOccurs": ["unbounded", "1", "9"], "stride": ["2", "0"], "data_offset": ["0", "7"], "interpretation": ["scalar", "image"],
    "nameType": ["any", "specified"],
}
GROUP_OTHER = {"deprecated": ["no", "optional"], "minOccurs": ["0", "1", "2"], "maxOccurs": ["1", "unbounded", "2"], "type": ["NXentry", "NXdata", "NXsubentry", "NXcollection"]}
ATTRIBUTE_OTHER = {"deprecated": ["no", "optional"], "type": ["NX_CHAR", "NX_INT"]}


def s_declared(env):
    """a field, a group or an attribute of any name that declares something else, too"""
    ch = env.ch
    cat = ch.pick("cat", CATS)
    what = ch.pick("what", ["field", "group", "attribute"])
    table = {"field": FIELD_OTHER, "group": GROUP_OTHER, "attribute": ATTRIBUTE_OTHER}[what]
    key = ch.pick("key", [None] + sorted(table))
    other = {} if key is None else {key: ch.pick("value", table[key])}
    long = key is None
    name = ch.str("name", [4, 5, 8, 10] if long else [1], alphabet=LOWER, first_exclude="_")
    inside = ch.pick("inside", ["nothing", "doc", "enumeration"] if what != "group" else ["nothing", "doc", "attribute"]) if not long else "nothing"
    more = {"nothing": [], "doc": [Xml("doc", {}, text="optional")], "enumeration": [Xml("enumeration", {}, Xml("item", {"value": "x"}))],
            "attribute": [Xml("attribute", {"name": "ax"})]}[inside]
    mo = None
    if what == "field":
        mo = ch.pick("min", [None, "0", "1", "2"])
        if mo is not None:
            other["minOccurs"] = mo
        if "maxOccurs" in other and mo is not None and other["maxOccurs"] != "unbounded":
            ch.assume(int(mo) <= int(other["maxOccurs"]))
    attrs = dict({"name": name}, **other)
    if what == "group":
        attrs.setdefault("type", "NXnote")
    el = Xml(what, attrs, *more)
    els = [el]
    if what == "attribute":
        els = [Xml("field", {"name": "f"}, el)] if ch.pick("of", ["field", "group"]) == "field" else [el]
    m = model(env, [(cat, "NXt", place("inner", cat, els))])
    if m is None:
        return None
    app = cat == "applications"
    h = m.classes["NXt"].groups["entry"]
    if what == "attribute":
        holder = h.fields["f"] if els[0] is not el else h
        found = [v for k, v in holder.attributes.items() if k == name]
        env.check(len(found) == 1 and (str(found[0].xml_attributes["optional"].default_value).lower() == "false") == app,
                  "occurrence of an attribute", cat, name, other, len(found))
        got = len(found)
    else:
        found = [v for k, v in (h.fields if what == "field" else h.groups).items() if k == name]
        want = 0
        if app:
            want = 1 if mo is None else int(mo)
        got = [int(v.xml_attributes["minOccurs"].default_value) for v in found]
        env.check(got == [want], "occurrence of a " + what, cat, name, other, got, want)
    env.reach(what + " " + cat)
    return [got]


def s_among(env):
    """an item among many, at some depth, of a definition among several"""
    ch = env.ch
    cat = ch.pick("cat", CATS)
    other = ch.pick("other", CATS)
    n = ch.pick("others", [3, 15] if not THOROUGH else [3, 15, 40])
    first = ch.bool("first")
    depth = ch.pick("depth", [0, 2, 6] if not THOROUGH else [0, 1, 2, 3, 6, 12])
    mo = occurs(ch, "min")
    f = Xml("field", {"name": "f"} if mo is None else {"name": "f", "minOccurs": mo}, Xml("attribute", {"name": "at"}))
    mins = [None, "0", "3", "1"]
    els = []
    for i in range(n):
        x = mins[i % 4]
        els.append(Xml("field", {"name": "g%d" % i} if x is None else {"name": "g%d" % i, "minOccurs": x}))
    els = [f] + els if first else els + [f]
    for i in range(depth):
        els = [Xml("group", {"type": "NXcollection", "name": "d"}, *els)]
    root = definition("NXt", cat, *els)
    docs = [(cat, "NXt", root)]
    for k in range(3):
        docs.append((other, "NX%d" % k if k else "NXa", definition("NX%d" % k if k else "NXa", other, Xml("field", {"name": "f", "minOccurs": "7"}))))
    m = model(env, docs)
    if m is None:
        return None
    h = m.classes["NXt"]
    out = []
    for i in range(depth):
        h = h.groups["d"]
        g = int(h.xml_attributes["minOccurs"].default_value)
        env.check(g == (1 if cat == "applications" else 0), "occurrence of a group", cat, i, g)
    app = cat == "applications"
    want = (1 if mo is None else number(mo)) if app else 0
    got = int(h.fields["f"].xml_attributes["minOccurs"].default_value)
    env.check(got == want, "occurrence of a field", cat, got, want)
    v = h.fields["f"].attributes["at"].xml_attributes["optional"].default_value
    env.check((str(v).lower() == "false") == app, "occurrence of an attribute", cat, v)
    for i in range(n):
        x = mins[i % 4]
        g = int(h.fields["g%d" % i].xml_attributes["minOccurs"].default_value)
        w = (1 if x is None else int(x)) if app else 0
        env.check(g == w, "occurrence of a field", cat, i, g, w)
        out.append(g)
    env.reach(cat)
    return out


N03 = [
    Scenario("declared", s_declared, [w + " " + c for w in ("field", "group", "attribute") for c in CATS]),
    Scenario("among many", s_among, CATS),
    Scenario("two definitions", s_occurs, [a + " " + b for a in CATS for b in CATS]),
    Scenario("fields of one group", s_two_fields, CATS),
]

# ------------------------------------------------------------------ N04
# each file set by its own schema, whatever came before


def own(ref, cat, *children):
    """a definition as the schema of that file set wants it"""
    root = definition("NXt", cat, *children)
    if ref != "v2018.5":
        root.attrib["version"] = "1"
    return root


def before(env, label, op):
    from punx import cache_manager, schema_manager

    cm = cache_manager.CacheManager()
    if op is None:
        return
    what, ref = op
    if what == "select":
        st, r = env.run(cm.select_NXDL_file_set, ref)
    elif what == "schema":
        st, r = env.run(schema_manager.SchemaManager, cm.NXDL_file_sets[ref].path)
    else:
        st, r = env.run(lambda: cm.NXDL_file_sets[ref].schema_manager.nxdl.patterns)
    if st != "ok":
        env.problem("crash", what, ref, exc(r), str(r)[:200])


OPS = [None] + [(w, r) for w in ("select", "schema", "use") for r in REFS]


def build_set(env, ref, docs, name="fs"):
    from punx import cache_manager, nxdl_manager

    d = fileset_dir(env, ref, name)
    for cat, title, root in docs:
        env.xmlfile(root, os.path.join(d, cat, title + ".nxdl.xml"))
    fs = cache_manager.NXDL_File_Set()
    fs.path = d
    fs.ref = "test"
    return env.run(nxdl_manager.NXDL_Manager, fs)


def s_own_schema(env):
    ch = env.ch
    ref = ch.pick("ref", REFS)
    for i in range(2 if not THOROUGH else 3):
        before(env, "op%d" % i, ch.pick("op%d" % i, OPS))
    n1 = nm(ch, "name", [1, 2])
    fsname = ch.pick("file set", ["fs"] + REFS)  # also of the same name as another one
    doc = own(ref, "base_classes", Xml("field", {"name": n1}))
    st, m = build_set(env, ref, [("base_classes", "NXt", doc)], fsname)
    if st != "ok":
        env.problem("valid file refused", ref, exc(m), str(m)[:300])
        return None
    got = m.classes["NXt"].fields
    env.check(len(got) == 1 and n1 in got, "model", ref, list(got.keys()))
    env.reach(ref)
    return list(got.keys())


def s_long_history(env):
    """many selections, readings and uses before"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    start = ch.pick("start", list(range(1, len(OPS))))
    step = ch.pick("step", [1, 2, 4])
    at = start
    for i in range(7 if not THOROUGH else 18):
        before(env, "op%d" % i, OPS[1 + at % (len(OPS) - 1)])
        at += step
    name = nm(ch, "name", [1])
    bad = ch.bool("version of another schema")
    doc = own(ref, "base_classes", Xml("field", {"name": name}))
    if bad:
        doc = own("v3.3" if ref == "v2018.5" else "v2018.5", "base_classes", Xml("field", {"name": name}))
    st, m = build_set(env, ref, [("base_classes", "NXt", doc)], ch.pick("file set", ["fs", REFS[0]]))
    if bad:
        env.check(st == "exc" and exc(m) == "InvalidNxdlFile", "invalid file accepted", ref, "accepted" if st == "ok" else exc(m))
    elif st != "ok":
        env.problem("valid file refused", ref, exc(m), str(m)[:300])
    else:
        got = m.classes["NXt"].fields
        env.check(list(got.keys()) == [name], "model", ref, list(got.keys()))
    env.reach(ref)
    return [st]


def s_invalid(env):
    ch = env.ch
    ref = ch.pick("ref", REFS)
    before(env, "op", ch.pick("op", OPS))
    what = ch.pick("what", ["nothing", "no name", "unknown element", "unknown attribute", "category", "digit", "no value",
                            "two symbols", "version", "no target", "not XML", "second file"])
    f = Xml("field", {"name": "f"})
    g = Xml("group", {"type": "NXdata"}, f)
    doc = own(ref, "base_classes", g)
    if what == "no name":
        del f.attrib["name"]
    elif what == "unknown element":
        g.add(Xml("thing", {"name": "x"}))
    elif what == "unknown attribute":
        g.attrib["thing"] = ch.str("text", [0, 1], alphabet=TEXT)
    elif what == "category":
        doc.attrib["category"] = "other"
    elif what == "digit":
        f.attrib["name"] = ch.str("first", [1], alphabet=[(0x30, 0x39)]) + nm(ch, "name", [0, 1])
    elif what == "no value":
        f.add(Xml("enumeration", {}, Xml("item", {})))
    elif what == "two symbols":
        doc.children = [Xml("symbols", {}), Xml("symbols", {})] + doc.children
    elif what == "version":
        if ref == "v2018.5":
            doc.attrib["version"] = "1"
        else:
            del doc.attrib["version"]
    elif what == "no target":
        g.add(Xml("link", {"name": "x"}))
    docs = [("base_classes", "NXt", doc)]
    if what == "not XML":
        docs = [("applications", "NXu", None)]
    elif what == "second file":
        docs.append((ch.pick("cat", CATS), "NXu", own(ref, "applications", Xml("field", {"nam": "x"}))))
    st, m = build_set(env, ref, docs)
    if what == "nothing":
        env.check(st == "ok", "valid file refused", ref, exc(m) if st != "ok" else "")
    elif what == "not XML":
        env.check(st == "exc", "file that is not XML accepted", ref, st)
    else:
        env.check(st == "exc" and exc(m) == "InvalidNxdlFile", "invalid file accepted", ref, what,
                  "accepted" if st == "ok" else exc(m))
    env.reach(what)
    return [st, what]


def s_schema(env):
    """the description of the schema of a file set, read after others"""
    from punx import schema_manager
    import punx

    ch = env.ch
    refs = [ch.pick("ref%d" % i, REFS) for i in range(2)]
    sms = []
    for r in refs:
        st, sm = env.run(schema_manager.SchemaManager, os.path.join(os.path.dirname(punx.__file__), "cache", r))
        if st != "ok":
            env.problem("crash", exc(sm))
            return None
        sms.append(sm)
    for r, sm in zip(refs, sms):
        want = nxdlref.schema(r)
        env.check(sorted(sm.nxdl.attrs) == want.definition, "attributes of a definition", r, sorted(sm.nxdl.attrs))
        env.check(sorted(sm.nxdl.children["group"].children) == want.group, "content of a group", r,
                  sorted(sm.nxdl.children["group"].children))
        env.check(sorted(sm.nxdl.children["field"].children) == want.field, "content of a field", r,
                  sorted(sm.nxdl.children["field"].children))
        for k in want.patterns:
            env.check(k in sm.nxdl.patterns and sm.nxdl.patterns[k].re_list == want.patterns[k], "patterns", r, k)
        for k in want.types:
            env.check(k in sm.nxdl.types, "types", r, k)
    env.reach(refs[0] + " " + refs[1])
    return [sorted(sm.nxdl.children) for sm in sms]


N04 = [
    Scenario("own schema", s_own_schema, REFS),
    Scenario("long history", s_long_history, REFS),
    Scenario("invalid files", s_invalid, ["nothing", "no name", "digit", "version", "not XML", "second file"]),
    Scenario("schema", s_schema, [REFS[0] + " " + REFS[0], REFS[1] + " " + REFS[2]]),
]

BOUNDS_OF = {
    "N04": "up to 2 (thorough: 3) selections, uses or readings of file sets before, or 7 (thorough: 18) of them in 24 orders; a file set with the schema of any of the "
           "3 shipped ones; 11 kinds of invalid file; symbolic names",
    "N01": "groups with up to 3 items (groups named or not, fields, links) of symbolic names of 1 or 2 characters at 3 "
           "depths of definitions of 2 categories; an item of a symbolic name in groups of up to 24 (thorough: 60) others, or among "
           "12 of one name, and in chains of 8 (thorough: 20) groups; 5 (thorough: 6) items of names X, X1, X2; 3 attributes of symbolic "
           "names in 4 places; every class of the 3 shipped file sets",
    "N02": "enumerations of up to 3 symbolic values; dimensions with up to 3 dims, symbolic rank, index and value; up to "
           "2 symbols of symbolic names; link targets with symbolic parts; comments and processing instructions between; enumerations, symbols, link targets of "
           "up to 40 (thorough: 120) parts and 12 dims with one symbolic part",
    "N03": "file sets of two definitions of any of the 3 categories, minOccurs absent or any number of 1-2 (thorough: 3) digits; "
           "such a field among 3 or 15 (thorough: 40) others at depths up to 6 (thorough: 12), with three more definitions; "
           "three fields of one group with minOccurs absent, 0, 1 or 2; fields, groups and attributes of symbolic names up to 10 characters, "
           "with each other thing that the schema lets them declare",
}
ASSUMPTIONS = [
    "whether a document is valid by nxdl.xsd is asked of the real XML Schema library, for one member of each path and "
    "again when a path is replayed",
    "minOccurs=\"unbounded\" and attributes named like the XML attributes of their group are outside",
    "the XML Schema nxdl.xsd of the file set is a shipped one",
]
