"""
Neutral description of an HDF5 file, used by both sides: the symbolic stand-in
for h5py (fakeh5) and the writer of real files (realh5).
"""


class Val:
    """
    value of an attribute or dataset; kind is one of

    str     variable-length UTF-8 string          bytes   fixed-length string
    strs    1-D array of variable-length strings  bytess  1-D array of fixed-length strings
    int, float, bool                              ints, floats  1-D arrays
    empty   null dataspace                        nd      numpy array (concrete)
    raw     one of rawvals.MAKE
    """

    def __init__(self, kind, data=None):
        self.kind = kind
        self.data = data

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.data)

    def is_text(self):
        return self.kind in ("str", "bytes")

    def texts(self):
        """list of strings for string-valued content, else None"""
        if self.kind in ("str", "bytes"):
            return [self.data]
        if self.kind in ("strs", "bytess"):
            return list(self.data)
        return None


class Node:
    def __init__(self, kind, attrs=(), children=(), value=None, **extra):
        self.kind = kind  # group dataset soft external hard datatype
        self.attrs = list(attrs)
        self.children = list(children)
        self.value = value
        self.extra = extra

    def add(self, name, node):
        self.children.append((name, node))
        return node

    def set(self, name, val):
        self.attrs.append((name, val))
        return self

    def attr(self, name):
        for k, v in self.attrs:
            if k == name:
                return v
        return None

    def __repr__(self):
        return "Node(%s)" % self.kind


def group(nx=None, *children, attrs=()):
    n = Node("group", attrs=list(attrs), children=children)
    if nx is not None:
        n.attrs.insert(0, ("NX_class", nx if isinstance(nx, Val) else Val("str", nx)))
    return n


def dataset(value=None, attrs=()):
    return Node("dataset", attrs=attrs, value=value or Val("int", 1))


def soft(path):
    return Node("soft", path=path)


def external(filename, path):
    return Node("external", filename=filename, path=path)


def hard(target):
    return Node("hard", target=target)


def describe(name, node, indent=0, seen=None):
    """readable dump, for replay files"""
    out = []
    pad = "  " * indent
    extra = {k: v for k, v in node.extra.items() if not isinstance(v, Node)}
    out.append(
        "%s%r: %s%s%s"
        % (pad, name, node.kind, " = %r" % node.value if node.value else "", " %r" % extra if extra else "")
    )
    for k, v in node.attrs:
        out.append("%s  @%r = %r" % (pad, k, v))
    for k, c in node.children:
        out += describe(k, c, indent + 1)
    return out
