"""
Independent reading of the NXDL files (the oracle's view of a file set): plain
lxml, nothing of punx.  Concrete data, computed once per run.
"""

import glob
import os

import lxml.etree as ET

REPO = os.environ.get("SX_REPO", "/repo")
_cache = {}


class Item:
    pass


def _ns(node):
    return node.nsmap[None]


def _kids(node, tag):
    return [n for n in node if isinstance(n.tag, str) and n.tag.split("}")[-1] == tag]


def _uniq(name, used):
    if name not in used:
        return name
    i = 1
    while name + str(i) in used:
        i += 1
    return name + str(i)


def _enums(node):
    res = []
    for e in _kids(node, "enumeration"):
        for i in _kids(e, "item"):
            res.append(i.get("value"))
    return res


def read_group(node):
    """names of the groups, fields, links in document order, made unique"""
    g = Item()
    used = []
    g.groups, g.fields, g.links, g.attributes = {}, {}, {}, {}
    for n in _kids(node, "attribute"):
        a = Item()
        a.enums = _enums(n)
        g.attributes[n.get("name")] = a
    for n in _kids(node, "group"):
        name = _uniq(n.get("name") or n.get("type")[2:], used)
        used.append(name)
        sub = read_group(n)
        sub.type = n.get("type")
        sub.min = n.get("minOccurs")
        g.groups[name] = sub
    for n in _kids(node, "field"):
        name = _uniq(n.get("name"), used)
        used.append(name)
        f = Item()
        f.min = n.get("minOccurs")
        f.enums = _enums(n)
        f.type = n.get("type")
        g.fields[name] = f
    for n in _kids(node, "link"):
        name = _uniq(n.get("name"), used)
        used.append(name)
        g.links[name] = n.get("target")
    return g


def fileset(ref):
    if ref in _cache:
        return _cache[ref]
    base = os.path.join(REPO, "punx", "cache", ref)
    res = {}
    for cat in ("base_classes", "applications", "contributed_definitions"):
        for fn in sorted(glob.glob(os.path.join(base, cat, "*.nxdl.xml"))):
            name = os.path.basename(fn).split(".")[0]
            d = read_group(ET.parse(fn).getroot())
            d.category = cat
            d.name = name
            entries = [x for x in d.groups.values() if x.type == "NXentry"]
            d.as_application = cat == "applications" or (
                cat == "contributed_definitions"
                and any("definition" in x.fields for x in entries)
            )
            d.as_base = cat == "base_classes" or (
                cat == "contributed_definitions" and not d.as_application
            )
            res[name] = d
    _cache[ref] = res
    return res


XS = "{http://www.w3.org/2001/XMLSchema}"


def schema(ref):
    """what the XML Schema of a file set allows, read by itself"""
    key = "schema " + ref
    if key in _cache:
        return _cache[key]
    base = os.path.join(REPO, "punx", "cache", ref)
    root = ET.parse(os.path.join(base, "nxdl.xsd")).getroot()
    named = {}
    for n in root:
        if isinstance(n.tag, str) and n.get("name"):
            named[(n.tag, n.get("name"))] = n
    s = Item()
    dt = named[(XS + "complexType", "definitionType")]
    names = [a.get("name") for a in dt.findall(XS + "attribute")]
    for g in dt.findall(XS + "attributeGroup"):
        names += [a.get("name") for a in named[(XS + "attributeGroup", g.get("ref").split(":")[-1])].findall(XS + "attribute")]
    s.definition = sorted(names)
    gg = named[(XS + "group", "groupGroup")]
    s.group = sorted([e.get("name") for e in gg.iter(XS + "element")])
    ft = named[(XS + "complexType", "fieldType")]
    bc = named[(XS + "complexType", "basicComponent")]
    s.field = sorted(set([e.get("name") for e in ft.iter(XS + "element")] + [e.get("name") for e in bc.iter(XS + "element")]))
    s.patterns = {}
    own = {}
    for (tag, name), n in named.items():
        if tag == XS + "simpleType" and name.startswith("valid"):
            r = n.find(XS + "restriction")
            own[name] = (r.get("base").split(":")[-1], [p.get("value") for p in r.findall(XS + "pattern")])
    for name, (b, pats) in own.items():
        s.patterns[name] = pats + (own[b][1] if b in own else [])
    troot = ET.parse(os.path.join(base, "nxdlTypes.xsd")).getroot()
    s.types = [n.get("name") for n in troot.findall(XS + "simpleType")
               if n.get("name") not in ("anyUnitsAttr", "primitiveType")]
    _cache[key] = s
    return s
