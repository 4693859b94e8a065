"""
Values of kinds without a symbolic stand-in (references, variable-length arrays, enumerations,
opaque data, compounds with texts, texts that are not UTF-8, ...): made by the real library, on the symbolic side
in a file in memory.
"""

import h5py
import numpy

TEXT = h5py.string_dtype()


def _vlen(rows, scalar=False):
    a = numpy.empty(len(rows), dtype=object)
    for i, r in enumerate(rows):
        a[i] = numpy.array(r, dtype="i4")
    return a


# name -> arguments of create_dataset / attrs.create
MAKE = {
    "reference": lambda f: dict(data=f.ref, dtype=h5py.ref_dtype),
    "references": lambda f: dict(data=numpy.array([f.ref, f.ref], dtype=h5py.ref_dtype)),
    "vlen": lambda f: dict(data=_vlen([[1, 2], [3]]), dtype=h5py.vlen_dtype("i4")),
    "vlen of one": lambda f: dict(data=_vlen([[5]]), dtype=h5py.vlen_dtype("i4")),
    "enum": lambda f: dict(data=1, dtype=h5py.enum_dtype({"A": 0, "B": 1})),
    "enums": lambda f: dict(data=numpy.array([0, 1]), dtype=h5py.enum_dtype({"A": 0, "B": 1})),
    "opaque": lambda f: dict(data=numpy.void(b"abc\x01")),
    "opaques": lambda f: dict(data=numpy.array([numpy.void(b"abc"), numpy.void(b"abd")])),
    "compound": lambda f: dict(data=numpy.array([(b"a", 1)], dtype=[("a", "S2"), ("b", "i4")])),
    "array type": lambda f: dict(data=numpy.zeros((2,), dtype=[("a", "i4", (2,))])),
    "half": lambda f: dict(data=numpy.float16(1.5)),
    "big endian": lambda f: dict(data=numpy.arange(3, dtype=">i4")),
    "not utf8": lambda f: dict(data=b"\xff\xfe", dtype=h5py.string_dtype("ascii")),
    "not utf8 fixed": lambda f: dict(data=numpy.bytes_(b"\xff\xfe")),
    "not utf8 list": lambda f: dict(data=numpy.array([b"\xff\xfe", b"a"])),
    "not utf8 vlen list": lambda f: dict(data=[b"\xff\xfe", b"a"], dtype=TEXT),
    "empty text": lambda f: dict(data=h5py.Empty("S3")),
    "empty vlen text": lambda f: dict(data=h5py.Empty(TEXT)),
    "texts 2d": lambda f: dict(data=numpy.array([["a", "bb"]], dtype=object), dtype=TEXT),
    "no texts": lambda f: dict(data=numpy.empty((0,), dtype=object), dtype=TEXT),
    "nan": lambda f: dict(data=numpy.nan),
    "complex": lambda f: dict(data=1 + 2j),
}
_CACHE = {}


def dataset(group, name, kind):
    return group.create_dataset(name, track_order=True, **MAKE[kind](group.file))


def attribute(obj, name, kind):
    k = MAKE[kind](obj.file)
    if "dtype" in k:
        obj.attrs.create(name, k["data"], dtype=k["dtype"])
    else:
        obj.attrs.create(name, k["data"])


def _home():
    if "file" not in _CACHE:
        _CACHE["file"] = h5py.File("raw.h5", "w", driver="core", backing_store=False)
    return _CACHE["file"]


def made_dataset(kind):
    f = _home()
    key = "d " + kind
    if key not in f:
        dataset(f, key, kind)
    return f[key]


def made_attribute(kind):
    f = _home()
    if kind not in f.attrs:
        attribute(f, kind, kind)
    return f.attrs[kind]
