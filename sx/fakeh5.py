"""
Stand-in for h5py over the neutral description (spec.py): the subset of its
behaviour that punx uses, with symbolic names and values.  Checked against the
real h5py by replaying path models (see DESIGN.md).
"""

import os
import types

import h5py as real
import numpy

from . import rawvals
from . import values as V
from .values import FakeArray, SymBytes, SymInt, SymStr

FILES = {}  # path -> root Node, or None (exists, not readable as HDF5)


class HardLink:
    pass


class SoftLink:
    def __init__(self, path):
        self._p = path

    @property
    def path(self):
        return self._p


class ExternalLink:
    def __init__(self, filename, path):
        self._f, self._p = filename, path

    @property
    def filename(self):
        return self._f

    @property
    def path(self):
        return self._p


def attr_value(v):
    k, d = v.kind, v.data
    if k == "str":
        return d
    if k == "bytes":
        return SymBytes(d) if isinstance(d, SymStr) else numpy.bytes_(d.encode("utf8"))
    if k == "strs":
        if all(isinstance(x, str) for x in d):
            a = numpy.empty(len(d), dtype=object)
            a[:] = d
            return a
        return FakeArray(d, "O")
    if k == "bytess":
        if all(isinstance(x, str) for x in d):
            return numpy.array([x.encode("utf8") for x in d], dtype="S" if d else "S1")
        return FakeArray(
            [SymBytes(x) if isinstance(x, SymStr) else numpy.bytes_(x.encode()) for x in d],
            "S",
            8,
        )
    if k == "int":
        return SymInt(d._e, True) if isinstance(d, SymInt) else numpy.int64(d)
    if k == "ints":
        if any(isinstance(x, SymInt) for x in d):
            return FakeArray([SymInt(x._e, True) if isinstance(x, SymInt) else numpy.int64(x) for x in d], "i")
        return numpy.array(d, dtype="int64")
    if k == "float":
        return numpy.float64(d)
    if k == "floats":
        return numpy.array(d, dtype="float64")
    if k == "bool":
        return numpy.bool_(d)
    if k == "empty":
        return real.Empty(numpy.dtype("f8").newbyteorder("<"))
    if k == "nd":
        return d
    if k == "raw":
        return rawvals.made_attribute(d)
    raise AssertionError(k)


def data_value(v):
    """what dataset[()] gives"""
    k, d = v.kind, v.data
    if k == "str":
        return SymBytes(d) if isinstance(d, SymStr) else d.encode("utf8")
    if k == "strs":
        items = [SymBytes(x) if isinstance(x, SymStr) else x.encode("utf8") for x in d]
        if any(isinstance(x, SymBytes) for x in items):
            return FakeArray(items, "O")
        a = numpy.empty(len(d), dtype=object)
        a[:] = items
        return a
    if k == "raw":
        return rawvals.made_dataset(d)[()]
    return attr_value(v)


class AttributeManager:
    def __init__(self, node):
        self._n = node

    def _find(self, name):
        if not V.is_strlike(name):
            if isinstance(name, (bytes, SymBytes)):
                name = name.decode("utf8")
            else:
                raise TypeError("A name should be string or bytes, not %s" % type(name))
        for k, v in self._n.attrs:
            if k == name:
                return v
        return None

    def get(self, name, default=None):
        v = self._find(name)
        return default if v is None else attr_value(v)

    def __getitem__(self, name):
        v = self._find(name)
        if v is None:
            raise KeyError("Can't open attribute (can't locate attribute)")
        return attr_value(v)

    def __contains__(self, name):
        return self._find(name) is not None

    def __iter__(self):
        return iter([k for k, _ in self._n.attrs])

    def __len__(self):
        return len(self._n.attrs)

    def keys(self):
        return [k for k, _ in self._n.attrs]

    def values(self):
        return [attr_value(v) for _, v in self._n.attrs]

    def items(self):
        return [(k, attr_value(v)) for k, v in self._n.attrs]


class HLObject:
    def __init__(self, node, name, file, parentobj):
        self._node = node
        self._name = name
        self._file = file
        self._parentobj = parentobj

    def _check(self):
        if self._file is not None and self._file._closed:
            raise ValueError("Invalid location identifier")

    @property
    def name(self):
        self._check()
        return self._name

    @property
    def attrs(self):
        self._check()
        return AttributeManager(self._node)

    @property
    def parent(self):
        self._check()
        return self._parentobj or self

    @property
    def file(self):
        return self._file

    @property
    def id(self):
        return types.SimpleNamespace(valid=not self._file._closed, __bool__=lambda: True)

    def __bool__(self):
        return not self._file._closed

    def __eq__(self, o):
        return isinstance(o, HLObject) and o._node is self._node

    def __hash__(self):
        return id(self._node)

    def __repr__(self):
        return "<fake %s %r>" % (self._node.kind, self._name)


class Datatype(HLObject):
    pass


class Empty:
    pass


class Dataset(HLObject):
    @property
    def _val(self):
        self._check()
        return self._node.value

    @property
    def shape(self):
        v = self._val
        if v.kind == "empty":
            return None
        if v.kind == "raw":
            return rawvals.made_dataset(v.data).shape
        x = data_value(v)
        return getattr(x, "shape", ()) if not isinstance(x, (SymBytes, SymInt)) else ()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        s = self.shape
        if s is None:
            return None
        n = 1
        for x in s:
            n *= x
        return n

    @property
    def dtype(self):
        v = self._val
        k = v.kind
        if k in ("str", "strs"):
            return real.string_dtype()
        if k in ("bytes", "bytess"):
            x = data_value(v)
            if isinstance(x, FakeArray):
                return x.dtype
            if isinstance(x, SymBytes):
                return numpy.dtype("S%d" % max(1, len(x)))
            return numpy.asarray(x).dtype
        if k in ("int", "ints"):
            return numpy.dtype("int64").newbyteorder("<")
        if k in ("float", "floats", "empty"):
            return numpy.dtype("float64").newbyteorder("<")
        if k == "bool":
            return numpy.dtype(bool)
        if k == "raw":
            return rawvals.made_dataset(v.data).dtype
        return v.data.dtype

    def __getitem__(self, k):
        v = self._val
        if v.kind == "raw":
            return rawvals.made_dataset(v.data)[k]
        x = data_value(v)
        if v.kind == "empty":
            if k == () or k is Ellipsis:
                return x
            raise ValueError("Empty datasets cannot be sliced")
        if isinstance(k, tuple) and k == ():
            return x
        if k is Ellipsis:
            return x
        if v.kind in ("str", "bytes", "int", "float", "bool"):
            raise ValueError("Illegal slicing argument for scalar dataspace")
        if V.is_strlike(k):
            raise ValueError("Field names only allowed for compound types")
        if isinstance(k, int) and isinstance(x, numpy.ndarray):
            n = x.shape[0] if x.ndim else 0
            if not -n <= k < n:
                raise IndexError("Index (%d) out of range for (0-%d)" % (k, n - 1))
        return x[k]

    def __len__(self):
        s = self.shape
        if not s:
            raise TypeError("Attempt to take scalar dataset len()")
        return s[0]

    def len(self):
        return self.__len__()

    def __iter__(self):
        if not self.shape:
            raise TypeError("Can't iterate over a scalar dataset")
        for i in range(self.shape[0]):
            yield self[i]

    def asstr(self, *a, **k):
        return _AsStr(self)


class _AsStr:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        x = self.d[k]
        if isinstance(x, (bytes, SymBytes)):
            return x.decode("utf8")
        return FakeArray([y.decode("utf8") for y in x], "O")


_MISS = object()


class Group(HLObject):
    def _link(self, name):
        """child link Node by exact name, or None"""
        for k, c in self._node.children:
            if k == name:
                return k, c
        return None

    def _open(self, key, link, depth=0):
        """object behind a link of this group; KeyError if it cannot be opened"""
        base = self._name if self._name != "/" else ""
        name = base + "/" + key
        k = link.kind
        if k == "hard":
            return wrap(link.extra["target"], name, self._file, self)
        if k == "soft":
            if depth >= 16:
                raise RuntimeError("Special link traversal failed (too many links)")
            target = self._resolve(link.extra["path"], depth + 1)
            if target is None:
                raise KeyError("Unable to synchronously open object (component not found)")
            return wrap(target._node, name, self._file, self)
        if k == "external":
            fn = link.extra["filename"]
            if isinstance(fn, str) and not os.path.isabs(fn):
                fn = os.path.join(os.path.dirname(self._file._fname), fn)
            node = FILES.get(fn) if isinstance(fn, str) else None
            if node is None:
                raise KeyError("Unable to synchronously open object (can't open file)")
            if depth >= 16:
                raise KeyError("Can't find object (too many links)")
            ext = File.__new__(File)
            ext._init(node, fn)
            o = ext._resolve(link.extra["path"], depth + 1)
            if o is None:
                raise KeyError("Unable to synchronously open object")
            if isinstance(o, File):
                o = Group(o._node, "/", o, None)
            return o
        return wrap(link, name, self._file, self)

    def _parts(self, path):
        start = self
        if path.startswith("/"):
            start = self._file
        parts = [p for p in path.split("/") if len(p) > 0 and p != "."]
        return start, parts

    def _resolve(self, path, depth=0):
        """object at path or None"""
        if len(path) == 0:
            return None
        cur, parts = self._parts(path)
        for p in parts:
            if not isinstance(cur, Group):
                return None
            hit = cur._link(p)
            if hit is None:
                return None
            try:
                cur = cur._open(hit[0], hit[1], depth)
            except KeyError:
                return None
        return cur

    def _lookup_link(self, path):
        """(group, name, link) of the last component, or None"""
        if len(path) == 0:
            return None
        cur, parts = self._parts(path)
        if not parts:
            return (cur, None, None)
        for i, p in enumerate(parts):
            if not isinstance(cur, Group):
                return None
            hit = cur._link(p)
            if hit is None:
                return None
            if i == len(parts) - 1:
                return (cur,) + hit
            try:
                cur = cur._open(*hit)
            except KeyError:
                return None

    @staticmethod
    def _text(name, what):
        if isinstance(name, (bytes, SymBytes)):
            return name.decode("utf8")
        if not V.is_strlike(name):
            raise TypeError("%s, not %s" % (what, type(name)))
        return name

    def __contains__(self, name):
        self._check()
        if name is None:
            raise TypeError("Argument 'path' must not be None")
        name = self._text(name, "A name should be string or bytes")
        return self._lookup_link(name) is not None

    def __getitem__(self, name):
        self._check()
        name = self._text(name, "Accessing a group is done with bytes or str")
        o = self._resolve(name)
        if o is None:
            raise KeyError("Unable to synchronously open object (object doesn't exist)")
        return o

    def get(self, name, default=None, getclass=False, getlink=False):
        self._check()
        if not (getclass or getlink):
            try:
                return self[name]
            except KeyError:
                return default
        name = self._text(name, "A name should be string or bytes")
        hit = self._lookup_link(name)
        if hit is None:
            return default
        if getlink:
            link = hit[2]
            if link is not None and link.kind == "soft":
                return SoftLink if getclass else SoftLink(link.extra["path"])
            if link is not None and link.kind == "external":
                if getclass:
                    return ExternalLink
                return ExternalLink(link.extra["filename"], link.extra["path"])
            return HardLink if getclass else HardLink()
        try:
            o = self[name]
        except KeyError:
            raise RuntimeError("Can't get deprecated info for object")
        if isinstance(o, Group):
            return Group
        return type(o)

    def __iter__(self):
        self._check()
        return iter([k for k, _ in self._node.children])

    def __len__(self):
        return len(self._node.children)

    def keys(self):
        return list(self)

    def values(self):
        return [self.get(k) for k in self]

    def items(self):
        return [(k, self.get(k)) for k in self]

    def visititems(self, func):
        raise V.Inconclusive("visititems")

    visit = visititems


class File(Group):
    def __init__(self, name, mode="r", **k):
        if isinstance(name, SymStr) or name not in FILES:
            raise FileNotFoundError("[Errno 2] Unable to synchronously open file")
        node = FILES[name]
        if node is None:
            raise OSError("Unable to synchronously open file (file signature not found)")
        if mode != "r":
            raise AssertionError("write access to the data file: mode=%r" % mode)
        self._init(node, name)

    def _init(self, node, name):
        HLObject.__init__(self, node, "/", self, None)
        self._closed = False
        self._fname = name
        OPENED.append(self)

    @property
    def filename(self):
        return self._fname

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


OPENED = []


def wrap(node, name, file, parent):
    if node.kind == "group":
        if node is file._node:
            return Group(node, name, file, parent)
        return Group(node, name, file, parent)
    if node.kind == "dataset":
        return Dataset(node, name, file, parent)
    if node.kind == "datatype":
        return Datatype(node, name, file, parent)
    raise AssertionError(node.kind)


def make_module():
    m = types.ModuleType("h5py")
    for c in (File, Group, Dataset, Datatype, HardLink, SoftLink, ExternalLink):
        setattr(m, c.__name__, c)
    m.Empty = real.Empty
    m.AttributeManager = AttributeManager
    m.HLObject = HLObject
    hl = types.ModuleType("h5py._hl")
    for sub, names in {
        "files": ["File"],
        "group": ["Group", "HardLink", "SoftLink", "ExternalLink"],
        "dataset": ["Dataset"],
        "datatype": ["Datatype"],
        "attrs": ["AttributeManager"],
        "base": ["HLObject", "Empty"],
    }.items():
        s = types.ModuleType("h5py._hl." + sub)
        for n in names:
            setattr(s, n, getattr(m, n))
        setattr(hl, sub, s)
    m._hl = hl
    m.is_hdf5 = lambda p: FILES.get(p) is not None
    m.check_string_dtype = real.check_string_dtype
    m.string_dtype = real.string_dtype
    m.special_dtype = real.special_dtype
    m.check_dtype = real.check_dtype
    m.version = real.version
    m.__version__ = real.__version__
    return m


MODULE = make_module()
