"""N05: the XML Schema of the NXDL language (schema_manager, nxdl_schema)"""

import os

from props.common import *  # noqa
from props.common import Scenario, THOROUGH
from props.nxdlmodel import CATS, REFS, setup  # noqa
from sx import fakexml
from sx.fakexml import Note, Xml, XS

WORDS = [(0x41, 0x5A), (0x61, 0x7A)]
VALUES = [(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)]


def xs(tag, attrib=None, *children):
    return Xml(tag, attrib, *children, ns=XS)


# ------------------------------------------------------- reading of the declarations


def local(name):
    return name.split(":")[-1]


def kids(x, tag):
    return [c for c in x.children if isinstance(c, Xml) and c.tag == tag]


def named(root, name):
    for c in root.children:
        if isinstance(c, Xml) and c.attrib.get("name") == name:
            return c
    return None


class Want:
    """the attributes and elements of a complex type"""

    def __init__(self, root, x):
        self.attrs = []
        self.elements = []
        self.root = root
        self.body(x)

    def body(self, x):
        for c in x.children:
            if not isinstance(c, Xml):
                continue
            if c.tag == "attribute":
                self.attrs.append(c)
            elif c.tag == "element":
                self.elements.append(c)
            elif c.tag in ("attributeGroup", "group"):
                self.body(named(self.root, local(c.attrib["ref"])))
            elif c.tag == "extension":
                self.body(named(self.root, local(c.attrib["base"])))
                self.body(c)
            elif c.tag in ("sequence", "complexContent"):
                self.body(c)


def want_of(root, element):
    """the content of an element declaration"""
    t = element.attrib.get("type")
    if t is None:
        return Want(root, kids(element, "complexType")[0])
    return Want(root, named(root, local(t)))


def facets(x, tag):
    """values of a simple type without name"""
    return [f.attrib["value"] for s in kids(x, "simpleType") for r in kids(s, "restriction") for f in kids(r, tag)]


class Simple:
    """what the restrictions of a named simple type come to"""

    def __init__(self, root, x):
        self.patterns = []
        self.base = None
        self.maxlen = None
        for r in kids(x, "restriction"):
            self.base = local(r.attrib["base"])
            for p in kids(r, "pattern"):
                self.patterns.append(p.attrib["value"])
            for p in kids(r, "maxLength"):
                self.maxlen = p.attrib["value"]
            b = named(root, self.base)
            if b is not None and r.attrib["base"].startswith("nx:"):
                s = Simple(root, b)
                self.patterns = self.patterns + s.patterns
                self.base = s.base
                if self.maxlen is None:
                    self.maxlen = s.maxlen


# ------------------------------------------------------- comparison


def same_list(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not (x == y):
            return False
    return True


def by_name(env, what, where, have, wants):
    """pairs of declarations and objects of the model"""
    keys = list(have.keys())
    env.check(len(keys) == len(wants), what + " of " + where, keys, len(wants))
    r = []
    for x in wants:
        n = x.attrib["name"]
        if env.check(n in have, what + " missing", where, n, keys):
            r.append((x, have[n]))
    return r


def one_attribute(env, where, root, x, a, full, inline=False):
    """full: the description of schema_manager"""
    n = x.attrib["name"]
    t = x.attrib.get("type")
    d = x.attrib.get("default")
    env.check(a.name == n, "name of attribute", where, n, a.name)
    if t is not None:
        env.check(local(a.type).lstrip("_") == local(t), "type", where, n, a.type, t)
    env.check(a.required == (x.attrib.get("use") == "required"), "required", where, n, a.required)
    if full and t is not None and local(t) == "NX_BOOLEAN":
        want = d == "true" or d == "1"
        env.check((a.default_value is True) == want, "default", where, n, a.default_value, d)
    else:
        env.check(a.default_value == d, "default", where, n, a.default_value, d)
    pats = facets(x, "pattern")
    if full:
        env.check(same_list(a.enum, facets(x, "enumeration")), "values", where, n, a.enum)
    elif inline and t is not None:
        return
    elif t is not None and t.startswith("nx:"):
        s = named(root, local(t))
        if s is not None:
            s = Simple(root, s)
            pats = s.patterns
            have = a.maxLength
            env.check(have is None if s.maxlen is None else have == int(s.maxlen), "longest", where, n, have)
    env.check(same_list(a.patterns, pats), "patterns", where, n, a.patterns, pats)


def full_content(env, where, root, want, obj, below=()):
    """of schema_manager"""
    for x, a in by_name(env, "attributes", where, obj.attrs, want.attrs):
        one_attribute(env, where, root, x, a, True)
    for x, e in by_name(env, "elements", where, obj.children, want.elements):
        n = x.attrib["name"]
        env.check(e.name == n, "name of element", where, n, e.name)
        if n == "group" and below:
            continue
        full_content(env, where + "/" + n, root, want_of(root, x), e, below + (n,))


def summary_content(env, where, root, want, obj, below=(), inline=False):
    """of nxdl_schema (the name rules are not filled in where a type has no name)"""
    for x, a in by_name(env, "attributes", where, obj.attributes, want.attrs):
        one_attribute(env, where, root, x, a, False, inline)
    if below == ():
        return
    for x, e in by_name(env, "elements", where, obj.components, want.elements):
        n = x.attrib["name"]
        if n in ("group", "choice"):
            continue
        env.check(e.name == n, "name of element", where, n, e.name)
        for k in ("minOccurs", "maxOccurs"):
            env.check(getattr(e, k) == x.attrib.get(k), k, where, n, getattr(e, k))
        summary_content(env, where + "/" + n, root, want_of(root, x), e, below + (n,), "type" not in x.attrib)


def judge_manager(env, root, types, sm):
    nxdl = sm.nxdl
    d = [c for c in root.children if isinstance(c, Xml) and c.tag == "element"][0]
    full_content(env, "definition", root, want_of(root, d), nxdl)
    names = [c for c in kids(root, "simpleType") if c.attrib["name"].startswith("valid")]
    for x, p in by_name(env, "patterns", "schema", nxdl.patterns, names):
        s = Simple(root, x)
        n = x.attrib["name"]
        env.check(same_list(p.re_list, s.patterns), "patterns", n, p.re_list, s.patterns)
        env.check(p.base == s.base, "base", n, p.base, s.base)
        env.check(p.maxLength == (-1 if s.maxlen is None else int(s.maxlen)), "longest", n, p.maxLength, s.maxlen)
    simple = [c for c in kids(types, "simpleType") if c.attrib["name"] not in ("anyUnitsAttr", "primitiveType")]
    for x, t in by_name(env, "types", "schema", nxdl.types, simple):
        n = x.attrib["name"]
        env.check(t.name == n, "name of type", n, t.name)
        rs, us = kids(x, "restriction"), kids(x, "union")
        for r in rs:
            env.check(t.restriction == local(r.attrib["base"]), "base of type", n, t.restriction)
            env.check(same_list(t.values, [v.attrib["value"] for v in kids(r, "enumeration")]), "values of type", n, t.values)
        for u in us:
            for again in (1, 2):
                env.check(t.union is not None and same_list(t.union, [local(w) for w in u.attrib["memberTypes"].split()]),
                          "members of type", n, again)
        if not rs:
            env.check(t.restriction is None, "base of type", n, t.restriction)
        if not us:
            env.check(t.union is None, "members of type", n)
    units = named(types, "anyUnitsAttr")
    want = []
    for u in kids(units, "union"):
        want = [local(w) for w in u.attrib["memberTypes"].split()]
    for r in kids(units, "restriction"):
        want = [v.attrib["value"] for v in kids(r, "enumeration")]
    env.check(same_list(nxdl.units, want), "units", nxdl.units, want)


def judge_summary(env, root, s):
    d = [c for c in root.children if isinstance(c, Xml) and c.tag == "element"][0]
    summary_content(env, "definition", root, want_of(root, d), s.definition)
    gg = Want(root, named(root, "groupGroup"))
    parts = {x.attrib["name"]: want_of(root, x) for x in gg.elements}
    summary_content(env, "group", root, parts["group"], s.group, ("group",))
    summary_content(env, "attribute", root, parts["attribute"], s.attribute, ("attribute",))
    summary_content(env, "field", root, parts["field"], s.field, ("field",))
    summary_content(env, "link", root, parts["link"], s.link, ("link",))
    sym = [x for x in want_of(root, d).elements if x.attrib["name"] == "symbols"][0]
    summary_content(env, "symbols", root, want_of(root, sym), s.symbols, ("symbols",))
    for x in kids(root, "simpleType"):
        n = x.attrib["name"]
        if not env.check(n in s.simpleType, "simple type missing", n):
            continue
        p = s.simpleType[n]
        w = Simple(root, x)
        env.check(same_list(p.patterns, w.patterns), "patterns", n, p.patterns, w.patterns)
        env.check(p.base == w.base, "base", n, p.base, w.base)
        have = p.maxLength
        env.check(have is None if w.maxlen is None else have == int(w.maxlen), "longest", n, have)


# ------------------------------------------------------- scenarios

KEPT = {}


def shipped(ref, name):
    """described from the shipped file (a new description)"""
    import punx

    return fakexml.read(os.path.join(os.path.dirname(punx.__file__), "cache", ref, name))


def read_both(env, root, types, which, times=1):
    from punx import nxdl_schema, schema_manager

    d = env.path("fs")
    os.mkdir(d)
    env.xmlfile(root, os.path.join(d, "nxdl.xsd"))
    env.xmlfile(types, os.path.join(d, "nxdlTypes.xsd"))
    for i in range(times):
        if which == "description":
            st, sm = env.run(schema_manager.SchemaManager, d)
            if st != "ok":
                env.problem("crash", exc(sm), str(sm)[:300])
                return
            judge_manager(env, root, types, sm)
        else:
            st, s = env.run(nxdl_schema.NXDL_Summary, os.path.join(d, "nxdl.xsd"))
            if st != "ok":
                env.problem("crash", exc(s), str(s)[:300])
                return
            judge_summary(env, root, s)


PLACES = ["definitionType", "groupType", "basicComponent", "fieldType", "attributeType", "linkType", "deprecatedAttributeGroup",
          "dimensionsType", "symbol", "item", "dim", "choiceType", "symbolsType"]


def find(x, tag, name):
    for c in x.children:
        if isinstance(c, Xml):
            if c.tag == tag and c.attrib.get("name") == name:
                return c
            r = find(c, tag, name)
            if r is not None:
                return r
    return None


def holder(root, place):
    """the node that holds the attribute declarations"""
    if place in ("symbol", "item", "dim"):
        return kids(find(root, "element", place), "complexType")[0]
    x = named(root, place)
    if x is None:
        return None
    for c in kids(x, "complexContent"):
        return kids(c, "extension")[0]
    return x


def insert(ch, h, label, x):
    """before the first of its kind, or behind the last"""
    at = [i for i, c in enumerate(h.children) if isinstance(c, Xml) and c.tag == "attribute"]
    ends = [i for i, c in enumerate(h.children) if isinstance(c, Xml) and c.tag == "attributeGroup"]
    first = ch.bool(label + " first")
    if first and at:
        i = at[0]
    else:
        i = at[-1] + 1 if at else (ends[0] if ends else len(h.children))
    h.children.insert(i, x)
    return i, first


def an_attribute(ch, label):
    a = {"name": ch.str(label, [1, 2] if THOROUGH else [2], alphabet=WORDS)}
    use = ch.pick(label + " use", [None, "required", "optional"] if THOROUGH else [None, "required"])
    if use is not None:
        a["use"] = use
    kind = ch.pick(label + " kind", ["none", "NX_CHAR", "NX_BOOLEAN", "validItemName", "values", "patterns"])
    x = xs("attribute", a)
    if kind == "NX_BOOLEAN":
        a["type"] = "nx:NX_BOOLEAN"
        d = ch.pick(label + " default", [None, "true", "false", "1", "0"])
    elif kind in ("none", "NX_CHAR"):
        if kind == "NX_CHAR":
            a["type"] = "nx:NX_CHAR"
        d = ch.pick(label + " default", [None, "text"])
        if d is not None:
            d = ch.str(label + " value", [0, 1, 2] if THOROUGH else [0, 1], alphabet=VALUES)
    elif kind == "validItemName":
        a["type"] = "nx:validItemName"
        d = None
    else:
        tag = "enumeration" if kind == "values" else "pattern"
        n = ch.pick(label + " n", [0, 1, 2])
        vs = [ch.str("%s v%d" % (label, i), [0, 1] if i == 0 and kind == "values" else [1], alphabet=VALUES) for i in range(n)]
        if n == 2:
            ch.assume(len(vs[0]) != len(vs[1]) or vs[0] != vs[1])
        r = xs("restriction", {"base": "xs:string"}, *[xs(tag, {"value": v}) for v in vs])
        x.children.append(xs("simpleType", {}, r))
        d = None
    if d is not None and use != "required":
        a["default"] = d
    x.attrib = a
    return x, kind


def start(ch, layout=THOROUGH):
    ref = ch.pick("ref", REFS if THOROUGH else REFS[1:2])
    root, types = shipped(ref, "nxdl.xsd"), shipped(ref, "nxdlTypes.xsd")
    one = ch.bool("one line") if layout else False
    root.one_line = types.one_line = one
    return ref, root, types, ch.pick("which", ["description", "defaults"])


def s_attribute(env):
    """an attribute more, at any place"""
    ch = env.ch
    ref, root, types, which = start(ch)
    place = ch.pick("place", PLACES)
    h = holder(root, place)
    if h is None:
        return None
    x, kind = an_attribute(ch, "at")
    i, first = insert(ch, h, "at", x)
    if not THOROUGH:
        root.one_line = first
    if ch.bool("note") if THOROUGH else first:
        h.children.insert(i, Note("comment"))
    env.reach(place)
    env.reach(which + " " + kind)
    read_both(env, root, types, which)
    return [which, place]


def s_notes(env):
    """comments anywhere, annotations or none"""
    ch = env.ch
    ref, root, types, which = start(ch)
    kind = ch.pick("kind", ["comment", "annotation", "no annotation"])
    spots = []

    def walk(x, name):
        for c in x.children:
            if isinstance(c, Xml) and c.tag not in ("annotation", "include"):
                spots.append(c)
                walk(c, name)

    walk(root, "")
    walk(types, "")
    x = spots[ch.pick("spot", list(range(len(spots))))]
    if kind == "comment":
        x.children.insert(ch.pick("end", [0, 1]) * len(x.children), Note("comment"))
    elif kind == "annotation":
        if kids(x, "annotation"):
            return None
        x.children.insert(0, xs("annotation", {}, xs("documentation", {})))
    else:
        if not kids(x, "annotation"):
            return None
        x.children = [c for c in x.children if not (isinstance(c, Xml) and c.tag == "annotation")]
    if not THOROUGH:
        root.one_line = kind == "annotation"
    env.reach(kind)
    read_both(env, root, types, which)
    return [which]


def s_names(env):
    """simple types for names"""
    ch = env.ch
    ref, root, types, which = start(ch)
    n = ch.pick("n", [0, 1, 2])
    r = xs("restriction", {"base": ch.pick("base", ["xs:token", "nx:validItemName", "nx:validTargetName"])})
    for i in range(n):
        if ch.bool("note%d" % i):
            r.children.append(Note("comment"))
        r.children.append(xs("pattern", {"value": ch.str("p%d" % i, [1, 2], alphabet=VALUES)}))
    if ch.bool("longest"):
        r.children.append(xs("maxLength", {"value": ch.str("max", [1], alphabet=[(0x31, 0x39)])}))
    t = xs("simpleType", {"name": "valid" + ch.str("name", [1, 2], alphabet=WORDS)}, r)
    where = ch.pick("where", ["front", "end"])
    if where == "front":
        i = [k for k, c in enumerate(root.children) if isinstance(c, Xml) and c.tag == "simpleType"][0]
        root.children.insert(i, t)
    else:
        root.children.append(t)
    env.reach(where)
    env.reach(r.attrib["base"])
    read_both(env, root, types, which)
    return [which, where]


def s_types(env):
    """data types and units"""
    ch = env.ch
    ref = ch.pick("ref", REFS)
    root, types = shipped(ref, "nxdl.xsd"), shipped(ref, "nxdlTypes.xsd")
    name = "NX_" + ch.str("name", [1], alphabet=[(0x61, 0x7A)])
    kind = ch.pick("kind", ["restriction", "values", "union", "unit"])
    if kind in ("restriction", "values"):
        r = xs("restriction", {"base": ch.pick("base", ["xs:string", "nxdl:NX_CHAR"])})
        if kind == "values":
            for i in range(ch.pick("n", [1, 2])):
                if ch.bool("note%d" % i):
                    r.children.append(Note("comment"))
                r.children.append(xs("enumeration", {"value": ch.str("v%d" % i, [1, 2], alphabet=VALUES)}))
        x = xs("simpleType", {"name": name}, r)
    else:
        other = ch.pick("members", [["NX_CHAR"], ["NX_INT", "NX_CHAR"], ["NX_FLOAT", "NX_INT", "NX_CHAR"]])
        sep = ch.pick("sep", [" ", "\n\t", "  "])
        x = xs("simpleType", {"name": name}, xs("union", {"memberTypes": sep.join(["nxdl:" + m for m in other])}))
    if kind == "unit":
        us = named(types, "anyUnitsAttr")
        for u in kids(us, "union"):
            ms = u.attrib["memberTypes"].split()
            u.attrib["memberTypes"] = " ".join(ms[:2] + ["nxdl:" + name] + ms[2:])
        for u in kids(us, "restriction"):
            u.children.insert(2, xs("enumeration", {"value": name}))
    where = ch.pick("where", ["front", "end"])
    if where == "front":
        i = [k for k, c in enumerate(types.children) if isinstance(c, Xml) and c.tag == "simpleType"][0]
        types.children.insert(i, x)
    else:
        types.children.append(x)
    if ch.bool("note"):
        x.children.insert(0, Note("comment"))
    env.reach(kind)
    read_both(env, root, types, "description")
    return [kind]


def s_shipped(env):
    """the shipped schemas, one after the other"""
    ch = env.ch
    for i in range(2):
        ref = ch.pick("ref%d" % i, REFS)
        which = ch.pick("which%d" % i, ["description", "defaults"])
        root, types = shipped(ref, "nxdl.xsd"), shipped(ref, "nxdlTypes.xsd")
        from punx import nxdl_schema, schema_manager
        import punx

        d = os.path.join(os.path.dirname(punx.__file__), "cache", ref)
        if which == "description":
            st, r = env.run(schema_manager.SchemaManager, d)
        else:
            st, r = env.run(nxdl_schema.NXDL_Summary, os.path.join(d, "nxdl.xsd"))
        if st != "ok":
            env.problem("crash", exc(r), str(r)[:300])
            return None
        if which == "description":
            judge_manager(env, root, types, r)
        else:
            judge_summary(env, root, r)
        env.reach(ref + " " + which)
    return None


SCENARIOS = [
    Scenario("one more attribute", s_attribute, [p for p in PLACES] + [w + " " + k for w in ("description", "defaults") for k in (
        "none", "NX_CHAR", "NX_BOOLEAN", "validItemName", "values", "patterns")]),
    Scenario("notes", s_notes, ["comment", "annotation", "no annotation"]),
    Scenario("names", s_names, ["front", "end", "xs:token", "nx:validItemName"]),
    Scenario("types", s_types, ["restriction", "values", "union", "unit"]),
    Scenario("shipped", s_shipped, [r + " " + w for r in REFS for w in ("description", "defaults")]),
]
BOUNDS = ("the shipped schema v2018.5 (thorough: all 3) with, at any of 13 places, one more attribute of a symbolic name (1-2 letters), any use, 6 kinds of type, "
          "symbolic default, values and patterns; one more name type (up to 2 symbolic patterns, length, 3 bases) or data type or unit; "
          "comments and annotations at any place; both layouts (a line for each element, one line)")
ASSUMPTIONS = [
    "schemas have the form of the shipped ones: named complex types with sequences, extensions of basicComponent, attribute groups",
]
