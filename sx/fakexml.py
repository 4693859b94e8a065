"""
Stand-in for lxml.etree over described XML documents (Xml) whose attribute
values and texts may be symbolic.  Files that are not described are parsed by
the real library; so is everything else.
"""

import os
import re
import types

import lxml.etree as real

from . import values as V

FILES = {}  # path -> Xml (root element)
ALIAS = {}  # path -> path of the same content


class Xml:
    """
    an element: tag (no namespace), attributes, children (Xml, comment, PI);
    of the root also: namespace prefixes, and whether each element has a line
    """

    nsmap = None
    one_line = False

    def __init__(self, tag, attrib=None, *children, text=None, ns=None):
        self.ns = ns or NS
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.children = list(children)
        self.text = text

    def add(self, child):
        self.children.append(child)
        return child


class Note:
    """comment or processing instruction"""

    def __init__(self, kind):
        self.kind = kind


NS = "http://definition.nexusformat.org/nxdl/3.1"
XS = "http://www.w3.org/2001/XMLSchema"


def read(path):
    """a real document as a description, without most of its documentation"""

    def make(e):
        q = real.QName(e)
        x = Xml(q.localname, dict(e.attrib), ns=q.namespace)
        if q.localname == "documentation":
            x.text = "text"
            return x
        for c in e:
            if isinstance(c, real._Comment):
                x.add(Note("comment"))
            elif isinstance(c, real._Element):
                x.add(make(c))
        return x

    root = real.parse(path).getroot()
    x = make(root)
    x.nsmap = dict(root.nsmap)
    return x


def build(root, conc=lambda x: x):
    """the same document as a real one"""

    def make(x):
        if isinstance(x, Note):
            if x.kind == "comment":
                return real.Comment("a remark")
            return real.ProcessingInstruction("pi", "x")
        e = real.Element("{%s}%s" % (x.ns, x.tag), nsmap=root.nsmap or {None: NS})
        for k, v in x.attrib.items():
            e.set(k, conc(v))
        if x.text is not None:
            e.text = conc(x.text)
        for c in x.children:
            e.append(make(c))
        if root.nsmap and not root.one_line:
            e.tail = "\n"
            if len(e):
                e.text = "\n"
        return e

    return real.ElementTree(make(root))


def write(path, root):
    if root is None:
        with open(path, "w") as f:
            f.write("this is not XML")
        return
    build(root).write(path, xml_declaration=True, encoding="utf-8")


def witness(doc):
    """a concrete member of the described document, in the model of the path"""
    from .run import to_conc

    return build((doc._root if isinstance(doc, Tree) else doc)._x, to_conc)


class Attrib(dict):
    pass


class _Like(type):
    """isinstance() also accepts the real library's objects"""

    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, cls.real_class)


_VALUES = re.compile(r"[=<>!]|string|contains|starts-with|normalize|translate|concat|substring|number\(|sum\(|lang\(|\.\s*\]")
_LAST = re.compile(r"^(.*)\[\s*@(\w+)\s*=\s*(\"[^\"]*\"|'[^']*')\s*\]$")


class Element(metaclass=_Like):
    """
    The structure is that of a real element, without the values: paths and
    axes are left to the real library, values come from the description.
    """

    real_class = real._Element

    def __init__(self, x, tree, node):
        self._x = x
        self._tree = tree
        self._r = node
        tree.fake[node] = self
        node.text = "x" if x.text is not None and len(x.text) else None
        for k in x.attrib:
            node.set(k, "x")
        for c in x.children:
            if isinstance(c, Note):
                (Comment_ if c.kind == "comment" else PI_)(tree, node)
            else:
                Element(c, tree, real.SubElement(node, "{%s}%s" % (c.ns, c.tag)))

    def _map(self, r):
        """the result of the real library"""
        if isinstance(r, (list, tuple)):
            return [self._map(x) for x in r]
        if isinstance(r, real._Element):
            return self._tree.fake[r]
        if isinstance(r, real._ElementTree):
            return self._tree
        if isinstance(r, str) and hasattr(r, "getparent"):  # attribute or text
            e = self._tree.fake[r.getparent()]
            if r.is_attribute:
                return e._x.attrib[r.attrname]
            return e.text
        return r

    def _maps(self, it):
        return iter([self._map(x) for x in it])

    @property
    def tag(self):
        return self._r.tag

    @property
    def prefix(self):
        for k, v in self._tree.nsmap.items():
            if v == self._x.ns:
                return k

    @property
    def attrib(self):
        return dict(self._x.attrib)

    @property
    def text(self):
        t = self._x.text
        return t if t is not None and len(t) else None

    tail = None

    @property
    def base(self):
        return self._tree.path

    @property
    def nsmap(self):
        return dict(self._tree.nsmap)

    @property
    def sourceline(self):
        return self._tree.lines[self._r]

    def __iter__(self):
        return self._maps(self._r)

    def __len__(self):
        return len(self._r)

    def __getitem__(self, i):
        return self._map(self._r[i])

    def __contains__(self, e):
        return e in list(self)

    def __bool__(self):
        return len(self._r) > 0

    def get(self, k, default=None):
        return self._x.attrib.get(k, default)

    def keys(self):
        return list(self._x.attrib.keys())

    def values(self):
        return list(self._x.attrib.values())

    def items(self):
        return list(self._x.attrib.items())

    def index(self, e):
        return list(self).index(e)

    def getparent(self):
        return self._map(self._r.getparent())

    def getnext(self):
        return self._map(self._r.getnext())

    def getprevious(self):
        return self._map(self._r.getprevious())

    def getroottree(self):
        return self._tree

    def getchildren(self):
        return list(self)

    def iterchildren(self, *a, **k):
        return self._maps(self._r.iterchildren(*a, **k))

    def itersiblings(self, *a, **k):
        return self._maps(self._r.itersiblings(*a, **k))

    def iterancestors(self, *a, **k):
        return self._maps(self._r.iterancestors(*a, **k))

    def iterdescendants(self, *a, **k):
        return self._maps(self._r.iterdescendants(*a, **k))

    def iter(self, *a, **k):
        return self._maps(self._r.iter(*a, **k))

    def itertext(self):
        return iter([e.text for e in self.iter() if isinstance(e, Element) and e.text is not None])

    def _path(self, path, f):
        """f(path) with equality of an attribute decided here"""
        m = _LAST.match(path)
        if m is None:
            if _VALUES.search(path):
                raise V.Inconclusive("xpath " + path)
            return self._map(f(path))
        found = self._path(m.group(1), f)
        want = m.group(3)[1:-1]
        out = []
        for e in found:
            v = e._x.attrib.get(m.group(2))
            if v is not None and len(v) == len(want) and v == want:
                out.append(e)
        return out

    def xpath(self, path, namespaces=None, **kw):
        if isinstance(path, V.SymStr):
            raise V.Inconclusive("symbolic xpath")
        return self._path(path, lambda p: self._r.xpath(p, namespaces=namespaces))

    def findall(self, path, namespaces=None):
        if isinstance(path, real.QName):
            path = path.text
        return self._path(path, lambda p: self._r.findall(p, namespaces))

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def find(self, path, namespaces=None):
        r = self.findall(path, namespaces)
        return r[0] if r else None

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path, namespaces)
        return default if e is None else (e.text or "")


class ContentOnly(metaclass=_Like):
    real_class = ()

    def __init__(self, tree, parent):
        self._tree = tree
        self._r = self.real_make()
        parent.append(self._r)
        tree.fake[self._r] = self
        self.attrib = {}
        self.text = "a remark"
        self.tail = None

    _map = Element._map
    sourceline = Element.sourceline
    getparent = Element.getparent
    getnext = Element.getnext
    getprevious = Element.getprevious

    def get(self, k, default=None):
        return default

    def keys(self):
        return []

    items = values = keys

    def xpath(self, *a, **k):
        return []

    findall = xpath

    def find(self, *a, **k):
        return None

    def __iter__(self):
        return iter(())

    iterchildren = getchildren = lambda self, *a, **k: iter(())

    def __len__(self):
        return 0


class Comment_(ContentOnly):
    tag = real.Comment
    real_class = real._Comment

    @staticmethod
    def real_make():
        return real.Comment("a remark")


class PI_(ContentOnly):
    tag = real.ProcessingInstruction
    real_class = real._ProcessingInstruction

    @staticmethod
    def real_make():
        return real.ProcessingInstruction("pi", "x")


class Tree(metaclass=_Like):
    real_class = real._ElementTree

    def __init__(self, root, path):
        self.path = path
        self.fake = {}
        self.nsmap = root.nsmap or {None: NS}
        node = real.Element("{%s}%s" % (root.ns, root.tag), nsmap=self.nsmap)
        self._t = real.ElementTree(node)
        self._root = Element(root, self, node)
        self.lines = {n: 1 if root.one_line else i + 1 for i, n in enumerate(node.iter())}

    def getroot(self):
        return self._root

    def xpath(self, path, namespaces=None, **kw):
        return self._root._path(path, lambda p: self._t.xpath(p, namespaces=namespaces))

    def findall(self, path, namespaces=None):
        return self._root._path(path, lambda p: self._t.findall(p, namespaces))

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def find(self, path, namespaces=None):
        r = self.findall(path, namespaces)
        return r[0] if r else None

    def iter(self, *a, **k):
        return self._root._maps(self._t.iter(*a, **k))

    def getpath(self, e):
        return self._t.getpath(e._r)

    @property
    def docinfo(self):
        return types.SimpleNamespace(URL=self.path)


class QName(real.QName):
    def __init__(self, x, tag=None):
        super().__init__(x._r if isinstance(x, (Element, ContentOnly)) and hasattr(x, "_tree") else x, tag)


def xpath_object(path, namespaces=None, **k):
    def f(doc, **kw):
        if type(doc) in (Tree, Element):
            return doc.xpath(path, namespaces=namespaces)
        return x(doc, **kw)

    x = real.XPath(path, namespaces=namespaces, **k)
    return f


class XMLSchema:
    """
    a described document is valid when its witness is (the scenarios constrain
    their symbolic texts such that all documents of a path are alike)
    """

    def __init__(self, etree=None, **k):
        if type(etree) in (Tree, Element):
            tree = etree if type(etree) is Tree else etree._tree
            for x in tree._root._x.children:
                p = os.path.join(os.path.dirname(tree.path), x.attrib["schemaLocation"]) if getattr(x, "tag", "") == "include" else ""
                if p in FILES:
                    witness(types.SimpleNamespace(_x=FILES[p])).write(p)
            w = witness(tree)
            w.docinfo.URL = tree.path
            etree = w
        self._r = real.XMLSchema(etree, **k)

    def _real(self, doc):
        if type(doc) in (Tree, Element):
            return witness(doc)
        return doc

    def assertValid(self, doc):
        return self._r.assertValid(self._real(doc))

    def validate(self, doc):
        return self._r.validate(self._real(doc))

    def __call__(self, doc):
        return self.validate(doc)

    def assert_(self, doc):
        return self._r.assert_(self._real(doc))

    @property
    def error_log(self):
        return self._r.error_log

    def __deepcopy__(self, memo):
        return self


class XSLT:
    """transformation of the witness; see XMLSchema"""

    def __init__(self, doc, **k):
        self._r = real.XSLT(doc, **k)

    def __call__(self, doc, **k):
        return self._r(witness(doc) if type(doc) in (Tree, Element) else doc, **k)


def parse(source, *a, **k):
    key = str(source) if not isinstance(source, V.SymStr) else source._concrete()
    if key in FILES:
        x = FILES[key]
        if x is None:
            raise real.XMLSyntaxError("Start tag expected, '<' not found", 4, 1, 1)
        return Tree(x, key)
    if key in ALIAS:
        return real.parse(ALIAS[key], *a, **k)
    return real.parse(source, *a, **k)


class _Etree(types.ModuleType):
    def __getattr__(self, name):
        return getattr(real, name)


etree = _Etree("lxml.etree")
etree.parse = parse
etree.XMLSchema = XMLSchema
etree.XSLT = XSLT
etree._Comment = Comment_
etree.XPath = xpath_object
etree.QName = QName
etree._ProcessingInstruction = PI_
etree._Element = Element
etree._ElementTree = Tree

MODULE = types.ModuleType("lxml")
MODULE.etree = etree
