"""read a real HDF5 file into the neutral description (spec.py)"""

import h5py
import numpy

from .spec import Node, Val


def val(x):
    if isinstance(x, str):
        return Val("str", x)
    if isinstance(x, h5py.Empty):
        return Val("empty")
    return Val("nd", x)


def read(path):
    seen = {}

    def attrs(o):
        return [(k, val(o.attrs[k])) for k in o.attrs]

    def conv(o):
        if o.id in seen:
            return Node("hard", target=seen[o.id])
        if isinstance(o, h5py.Dataset):
            n = Node("dataset", attrs=attrs(o))
            seen[o.id] = n
            if h5py.check_string_dtype(o.dtype) is not None and o.shape == ():
                x = o[()]
                n.value = Val("str", x.decode("utf8")) if h5py.check_string_dtype(o.dtype).length is None else Val("nd", x)
            elif o.shape is None:
                n.value = Val("empty")
            else:
                n.value = Val("nd", o[()])
            return n
        n = Node("group", attrs=attrs(o))
        seen[o.id] = n
        for k in o:
            link = o.get(k, getlink=True)
            if isinstance(link, h5py.SoftLink):
                n.add(k, Node("soft", path=link.path))
            elif isinstance(link, h5py.ExternalLink):
                n.add(k, Node("external", filename=link.filename, path=link.path))
            else:
                n.add(k, conv(o[k]))
        return n

    with h5py.File(path, "r") as f:
        return conv(f)
