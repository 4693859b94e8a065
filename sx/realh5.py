"""write a neutral description (spec.py) as a real HDF5 file"""

import h5py
import numpy

from . import rawvals


def _attr(obj, k, v):
    kind, d = v.kind, v.data
    if kind == "str":
        obj.attrs.create(k, d, dtype=h5py.string_dtype("utf-8"))
    elif kind == "bytes":
        b = d.encode("utf8")
        obj.attrs.create(k, numpy.array(b, dtype="S%d" % max(1, len(b))))
    elif kind == "strs":
        a = numpy.empty(len(d), dtype=object)
        a[:] = d
        obj.attrs.create(k, a, dtype=h5py.string_dtype("utf-8"))
    elif kind == "bytess":
        obj.attrs.create(k, _sarr(d))
    elif kind == "empty":
        obj.attrs.create(k, h5py.Empty("f8"))
    elif kind == "raw":
        rawvals.attribute(obj, k, d)
    else:
        obj.attrs.create(k, _num(v))


def _sarr(d):
    bs = [x.encode("utf8") for x in d]
    return numpy.array(bs, dtype="S%d" % max([1] + [len(b) for b in bs]))


def _num(v):
    kind, d = v.kind, v.data
    if kind == "int":
        return numpy.int64(d)
    if kind == "ints":
        return numpy.array(d, dtype="int64")
    if kind == "float":
        return numpy.float64(d)
    if kind == "floats":
        return numpy.array(d, dtype="float64")
    if kind == "bool":
        return numpy.bool_(d)
    return d


def _dataset(g, k, v):
    kind, d = v.kind, v.data
    if kind == "str":
        return g.create_dataset(k, data=d, dtype=h5py.string_dtype("utf-8"), track_order=True)
    if kind == "strs":
        a = numpy.empty(len(d), dtype=object)
        a[:] = d
        return g.create_dataset(k, data=a, dtype=h5py.string_dtype("utf-8"), track_order=True)
    if kind == "bytes":
        b = d.encode("utf8")
        return g.create_dataset(k, data=numpy.array(b, dtype="S%d" % max(1, len(b))), track_order=True)
    if kind == "bytess":
        return g.create_dataset(k, data=_sarr(d), track_order=True)
    if kind == "empty":
        return g.create_dataset(k, data=h5py.Empty("f8"), track_order=True)
    if kind == "raw":
        return rawvals.dataset(g, k, d)
    return g.create_dataset(k, data=_num(v), track_order=True)


def write(path, root):
    later = []
    made = {}
    with h5py.File(path, "w", track_order=True) as f:

        def fill(g, node):
            made[id(node)] = g
            for k, v in node.attrs:
                _attr(g, k, v)
            for k, c in node.children:
                if c.kind == "group":
                    fill(g.create_group(k, track_order=True), c)
                elif c.kind == "dataset":
                    ds = _dataset(g, k, c.value)
                    made[id(c)] = ds
                    for ak, av in c.attrs:
                        _attr(ds, ak, av)
                elif c.kind == "datatype":
                    g[k] = numpy.dtype("f8")
                    for ak, av in c.attrs:
                        _attr(g[k], ak, av)
                elif c.kind == "soft":
                    g[k] = h5py.SoftLink(c.extra["path"])
                elif c.kind == "external":
                    g[k] = h5py.ExternalLink(c.extra["filename"], c.extra["path"])
                elif c.kind == "hard":
                    t = made.get(id(c.extra["target"]))
                    if t is not None:
                        g[k] = t
                    else:
                        later.append((g, k, c.extra["target"]))

        fill(f, root)
        for g, k, t in later:
            g[k] = made[id(t)]
