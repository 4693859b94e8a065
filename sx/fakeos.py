"""
Stand-in for the operating system's files below one directory (the scratch
directory of the path): names may be symbolic.  Everything else of the file
system is the real one, read only.  The pure Python modules of the standard
library that work on files (os, posixpath, pathlib, shutil, tempfile) are
instrumented copies of the installed ones on top of it.
"""

import builtins
import errno
import io
import json
import os
import posix
import stat
import sys
import types
import zipfile

from . import hooks
from . import values as V
from .core import Inconclusive
from .faults import FAULTS, Scan


class Node:
    n = 0

    def __init__(self):
        Node.n += 1
        self.ino = 1000000 + Node.n


class Dir(Node):
    def __init__(self):
        Node.__init__(self)
        self.items = []  # [name, node]


class File(Node):
    def __init__(self, data=()):
        Node.__init__(self)
        self.data = list(data)  # pieces: str or bytes


class FS:
    root = Dir()
    base = ("\0",)
    reverse = False
    tokens = {}
    parents = {}


def reset(scratch):
    FS.root = Dir()
    FS.base = tuple([x for x in scratch.split("/") if x])
    FS.reverse = False
    FS.tokens = {}
    FAULTS.__init__()


def text(p):
    if isinstance(p, (str, V.SymStr)):
        return p
    if isinstance(p, bytes):
        return os.fsdecode(p)
    if isinstance(p, V.SymBytes):
        return p.text
    m = getattr(type(p), "__fspath__", None)
    if m is None:
        raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)
    return m(p)


def locate(p):
    """list of names below the scratch directory, or None (the real system)"""
    p = text(p)
    if isinstance(p, str) and "\0" in p:
        raise ValueError("embedded null byte")
    if not len(p):
        return None
    if p[0] != "/":
        p = os.getcwd() + "/" + p
    parts = []
    for x in p.split("/"):
        if not len(x) or x == ".":
            continue
        if x == "..":
            if parts:
                parts.pop()
            continue
        parts.append(x)
    n = len(FS.base)
    if len(parts) >= n and all(parts[i] == FS.base[i] for i in range(n)):
        return parts[n:]
    if isinstance(p, V.SymStr):
        raise Inconclusive("symbolic path outside of the scratch directory")
    return None


def oserror(no, p):
    return OSError(no, os.strerror(no), text(p))


def entry(d, name):
    for e in d.items:
        if len(e[0]) == len(name) and e[0] == name:
            return e
    return None


def walk_to(parts, p):
    d = FS.root
    for x in parts:
        if not isinstance(d, Dir):
            raise oserror(errno.ENOTDIR, p)
        e = entry(d, x)
        if e is None:
            raise oserror(errno.ENOENT, p)
        d = e[1]
    return d


def node(p):
    return walk_to(locate(p), p)


def place(p, parts=None):
    """(directory, name) of a path that may not exist"""
    parts = locate(p) if parts is None else parts
    if parts is None:
        raise Inconclusive("change outside of the scratch directory: %s" % (p,))
    if not parts:
        raise oserror(errno.EBUSY, p)
    d = walk_to(parts[:-1], p)
    if not isinstance(d, Dir):
        raise oserror(errno.ENOTDIR, p)
    return d, parts[-1]


# ------------------------------------------------------------ system calls


def f_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return posix.stat(path)
    parts = locate(path)
    if parts is None:
        return posix.stat(path, follow_symlinks=follow_symlinks)
    FAULTS.reading()
    x = walk_to(parts, path)
    if isinstance(x, Dir):
        return os.stat_result((stat.S_IFDIR | 0o755, x.ino, 1, 2, 0, 0, 4096, 0, 0, 0))
    return os.stat_result((stat.S_IFREG | 0o644, x.ino, 1, 1, 0, 0, size(x), 0, 0, 0))


def size(f):
    return len(content(f))


def f_lstat(path, *, dir_fd=None):
    return f_stat(path, follow_symlinks=False)


def f_access(path, mode, **k):
    parts = locate(path)
    if parts is None:
        return posix.access(path, mode)
    try:
        walk_to(parts, path)
    except OSError:
        return False
    return True


def names(path):
    x = node(path)
    if not isinstance(x, Dir):
        raise oserror(errno.ENOTDIR, path)
    items = list(x.items)
    out = []
    for e in items:  # by name, as far as the names are known
        i = len(out)
        if not isinstance(e[0], V.SymStr):
            i = 0
            while i < len(out) and (isinstance(out[i][0], V.SymStr) or (out[i][0] < e[0]) != FS.reverse):
                i += 1
        else:
            i = 0
            while i < len(out) and (out[i][0] < e[0]) != FS.reverse:
                i += 1
        out.insert(i, e)
    return out


def f_listdir(path="."):
    if isinstance(path, int) or locate(path) is None:
        return sorted(posix.listdir(path), reverse=FS.reverse)
    FAULTS.reading()
    return [e[0] for e in names(path)]


class Entry:
    def __init__(self, d, e):
        self.name = e[0]
        self.path = d + "/" + e[0]
        self._n = e[1]

    def is_dir(self, *, follow_symlinks=True):
        return isinstance(self._n, Dir)

    def is_file(self, *, follow_symlinks=True):
        return isinstance(self._n, File)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._n.ino

    def stat(self, *, follow_symlinks=True):
        return f_stat(self.path)

    def __fspath__(self):
        return self.path


def f_scandir(path="."):
    if isinstance(path, int) or locate(path) is None:
        with posix.scandir(path) as it:
            return Scan(sorted(it, key=lambda x: x.name, reverse=FS.reverse))
    FAULTS.reading()
    d = text(path)
    if d.endswith("/"):
        d = d[:-1]
    return Scan([Entry(d, e) for e in names(path)])


def f_mkdir(path, mode=0o777, *, dir_fd=None):
    parts = locate(path)
    if parts is None:
        posix.stat(path)
        raise oserror(errno.EEXIST, path)
    FAULTS.point()
    if not parts:
        raise oserror(errno.EEXIST, path)
    d, n = place(path, parts)
    if entry(d, n) is not None:
        raise oserror(errno.EEXIST, path)
    d.items.append([n, Dir()])


def f_unlink(path, *, dir_fd=None):
    parts = locate(path)
    FAULTS.point()
    d, n = place(path, parts)
    e = entry(d, n)
    if e is None:
        raise oserror(errno.ENOENT, path)
    if isinstance(e[1], Dir):
        raise oserror(errno.EISDIR, path)
    d.items.remove(e)


def f_rmdir(path, *, dir_fd=None):
    parts = locate(path)
    FAULTS.point()
    d, n = place(path, parts)
    e = entry(d, n)
    if e is None:
        raise oserror(errno.ENOENT, path)
    if not isinstance(e[1], Dir):
        raise oserror(errno.ENOTDIR, path)
    if e[1].items:
        raise oserror(errno.ENOTEMPTY, path)
    d.items.remove(e)


def below(a, b):
    """is node b the directory a or below it?"""
    return b is a or isinstance(a, Dir) and any(below(e[1], b) for e in a.items)


def f_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    sp, dp = locate(src), locate(dst)
    if sp is None or dp is None:
        raise Inconclusive("rename outside of the scratch directory")
    FAULTS.point()
    sd, sn = place(src, sp)
    s = entry(sd, sn)
    if s is None:
        raise oserror(errno.ENOENT, src)
    dd, dn = place(dst, dp)
    if below(s[1], dd):
        raise oserror(errno.EINVAL, dst)
    e = entry(dd, dn)
    if e is not None:
        if e[1] is s[1]:
            return
        if isinstance(s[1], Dir):
            if not isinstance(e[1], Dir):
                raise oserror(errno.ENOTDIR, dst)
            if e[1].items:
                raise oserror(errno.ENOTEMPTY, dst)
        elif isinstance(e[1], Dir):
            raise oserror(errno.EISDIR, dst)
        dd.items.remove(e)
    sd.items.remove(s)
    dd.items.append([dn, s[1]])


def content(f):
    """the bytes of a file (or its symbolic text)"""
    if any(isinstance(x, (V.SymStr, V.SymBytes)) for x in f.data):
        out = ""
        for x in f.data:
            if isinstance(x, bytes):
                x = x.decode("utf8")
            elif isinstance(x, V.SymBytes):
                x = x.text
            out = out + x
        return out
    return b"".join([x.encode("utf8") if isinstance(x, str) else x for x in f.data])


class Opened:
    def __init__(self, f, name, mode):
        self.f = f
        self.name = name
        self.mode = mode
        self.binary = "b" in mode
        self.closed = False
        self.pos = 0
        self.writable_ = bool(set(mode) & set("wax+"))

    def _all(self):
        c = content(self.f)
        if self.binary or not isinstance(c, bytes):
            return c
        return c.decode("utf8").replace("\r\n", "\n").replace("\r", "\n")

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._check()
        if self.writable_ and "+" not in self.mode:
            raise io.UnsupportedOperation("not readable")
        c = self._all()
        if n is None or n < 0:
            n = len(c)
        r = c[self.pos : self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        c = self._all()
        sep = b"\n" if isinstance(c, bytes) else "\n"
        i = c.find(sep, self.pos)
        end = len(c) if i < 0 else i + 1
        r = c[self.pos : end]
        self.pos = end
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            t = self.readline()
            if not len(t):
                return
            yield t

    def write(self, data):
        self._check()
        if not self.writable_:
            raise io.UnsupportedOperation("not writable")
        if isinstance(data, (memoryview, bytearray)):
            data = bytes(data)
        if isinstance(data, (str, V.SymStr)) == self.binary:
            raise TypeError("wrong type of data for this file")
        x = FAULTS.strike()
        if x is not None:
            if not isinstance(x, KeyboardInterrupt):
                self.f.data.append(data[: len(data) // 2])
            raise x
        self.f.data.append(data)
        return len(data)

    def writelines(self, lines):
        for t in lines:
            self.write(t)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def writable(self):
        return self.writable_

    def seek(self, n, w=0):
        self.pos = n if w == 0 else len(self._all()) + n
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def f_open(file, mode="r", *a, **k):
    if isinstance(file, int):
        return builtins.open(file, mode, *a, **k)
    parts = locate(file)
    if parts is None:
        if set(mode) & set("wax+"):
            raise Inconclusive("change outside of the scratch directory: %s" % (file,))
        return builtins.open(text(file), mode, *a, **k)
    if not set(mode) & set("wax"):
        FAULTS.reading()
        f = walk_to(parts, file)
        if isinstance(f, Dir):
            raise oserror(errno.EISDIR, file)
        return Opened(f, file, mode)
    FAULTS.point()
    if not parts:
        raise oserror(errno.EISDIR, file)
    d, n = place(file, parts)
    e = entry(d, n)
    if e is None:
        e = [n, File()]
        d.items.append(e)
    elif isinstance(e[1], Dir):
        raise oserror(errno.EISDIR, file)
    elif "x" in mode:
        raise oserror(errno.EEXIST, file)
    elif "w" in mode:
        e[1].data = []
    return Opened(e[1], file, mode)


def _none(*a, **k):
    return None


def f_listxattr(*a, **k):
    return []


def _unmodelled(name):
    def f(*a, **k):
        raise Inconclusive("os." + name)

    return f


def fake_posix():
    m = types.ModuleType("posix")
    for n in dir(posix):
        if n not in ("_path_normpath", "_path_splitroot", "fspath", "_have_functions") and not n.startswith("__"):
            setattr(m, n, getattr(posix, n))
    m._have_functions = []
    for n, f in dict(
        stat=f_stat, lstat=f_lstat, access=f_access, listdir=f_listdir, scandir=f_scandir, mkdir=f_mkdir,
        unlink=f_unlink, remove=f_unlink, rmdir=f_rmdir, rename=f_rename, replace=f_rename, chmod=_none,
        utime=_none, chown=_none, listxattr=f_listxattr,
    ).items():
        setattr(m, n, f)
    for n in "open link symlink readlink truncate chdir fchdir mkfifo mknod".split():
        setattr(m, n, _unmodelled(n))
    m.readlink = lambda p, **k: (_ for _ in ()).throw(oserror(errno.EINVAL, p))
    return m


# ----------------------------------------------------------------- archives


class Archive:
    """entries: [name, content, (y, m, d, h, m, s)]; comment: text"""

    def __init__(self, entries, comment):
        self.entries = entries
        self.comment = comment


class Info:
    def __init__(self, e):
        self.filename = e[0]
        self.content = e[1]
        self.date_time = e[2]
        self.file_size = len(e[1])
        self.comment = b""

    def is_dir(self):
        return self.filename.endswith("/")


class FakeZip:
    def __init__(self, file, mode="r", *a, **k):
        if isinstance(file, (str, V.SymStr)) or hasattr(file, "__fspath__"):
            raise Inconclusive("archive by name")
        data = file.read()
        if hasattr(file, "seek"):
            file.seek(0)
        a = FS.tokens.get(data)
        if not isinstance(a, Archive):
            raise zipfile.BadZipFile("File is not a zip file")
        self.filelist = [Info(e) for e in a.entries]
        self.comment = V.SymBytes(a.comment) if isinstance(a.comment, V.SymStr) else a.comment.encode("utf8")

    def infolist(self):
        return self.filelist

    def namelist(self):
        return [x.filename for x in self.filelist]

    @property
    def NameToInfo(self):
        return {x.filename: x for x in self.filelist}

    def getinfo(self, name):
        for x in reversed(self.filelist):
            if x.filename == name:
                return x
        raise KeyError("There is no item named %r in the archive" % (name,))

    def _info(self, m):
        return m if isinstance(m, Info) else self.getinfo(m)

    def read(self, m, pwd=None):
        return self._info(m).content

    def open(self, m, mode="r", pwd=None, **k):
        return io.BytesIO(self._info(m).content)

    def extract(self, m, path=None, pwd=None):
        return self._extract(self._info(m), OS.getcwd() if path is None else text(path))

    def extractall(self, path=None, members=None, pwd=None):
        path = OS.getcwd() if path is None else text(path)
        for m in self.namelist() if members is None else members:
            self._extract(self._info(m), path)

    def _extract(self, x, target):
        parts = []
        for p in x.filename.split("/"):
            if len(p) and not p == "." and not p == "..":
                parts.append(p)
        for p in parts:
            target = target + "/" + p
        up = target[: target.rfind("/")]
        if not OS.path.exists(up):
            OS.makedirs(up)
        if x.is_dir():
            if not OS.path.isdir(target):
                f_mkdir(target)
            return target
        with f_open(target, "wb") as f:
            if len(x.content):
                f.write(x.content)
        return target

    def testzip(self):
        return None

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def zip_bytes(archive):
    """content of a response with this archive, for the stand-in"""
    t = b"PKsx archive %d" % len(FS.tokens)
    FS.tokens[t] = archive
    return t


# --------------------------------------------------------------------- JSON

MARK = "\1sx"


def f_dumps(obj, **k):
    if not hooks._deepsym(obj):
        return json.dumps(obj, **k)
    t = len(FS.tokens)
    FS.tokens[t] = copy(obj)
    return json.dumps({MARK: t}, **k)


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [copy(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)) or getattr(type(x), "_sx", False) or V.issym(x):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def f_dump(obj, fp, **k):
    if not hooks._deepsym(obj):
        return json.dump(obj, fp, **k)
    fp.write(f_dumps(obj, **k))


def _back(d):
    if MARK in d:
        return copy(FS.tokens[d[MARK]])
    return d


def f_loads(s, **k):
    if V.issym(s):
        raise Inconclusive("symbolic JSON text")
    return json.loads(s, object_hook=_back, **k)


def f_load(fp, **k):
    return f_loads(fp.read(), **k)


# ------------------------------------------------------------------ modules

OS = None


def proxy(module, **changed):
    m = types.ModuleType(module.__name__)
    m.__dict__.update({k: v for k, v in vars(module).items() if not k.startswith("__")})
    m.__dict__.update(changed)
    return m


def load(name, instrument):
    """an instrumented copy of a pure Python module of the standard library"""
    fn = os.path.join(os.path.dirname(json.__file__), os.pardir, name + ".py")
    m = types.ModuleType("sxstd." + name)
    m.__file__ = fn
    with builtins.open(fn, "rb") as f:
        src = f.read()
    code = instrument.instrument_source(src, fn, m.__name__)
    instrument.prepare(m)
    exec(code, m.__dict__)
    return m


def install():
    """replace the modules for everything that is instrumented from now on"""
    global OS
    from . import instrument as I

    over = I.OVERRIDES
    I.BUILTINS["open"] = f_open
    over["posix"] = fake_posix()
    over["io"] = proxy(io, open=f_open)
    keep = sys.modules["os.path"]
    # genericpath and posixpath need an os, os needs posixpath
    stub = types.ModuleType("os")
    over["os"] = stub
    over["genericpath"] = load("genericpath", I)
    over["posixpath"] = load("posixpath", I)
    over["os.path"] = over["posixpath"]
    OS = load("os", I)
    sys.modules["os.path"] = keep
    stub.__dict__.update({k: v for k, v in OS.__dict__.items() if not k.startswith("__")})
    OS = stub
    over["pathlib"] = load("pathlib", I)
    over["shutil"] = load("shutil", I)
    over["shutil"]._USE_CP_SENDFILE = False
    over["shutil"]._use_fd_functions = False
    over["tempfile"] = load("tempfile", I)
    over["json"] = proxy(json, dumps=f_dumps, dump=f_dump, loads=f_loads, load=f_load)
    over["zipfile"] = proxy(zipfile, ZipFile=FakeZip)
    over["datetime"] = load("_pydatetime", I)
    for n in ("fspath", "fsencode", "fsdecode"):
        hooks.HOOKS[getattr(OS, n)] = _fs(n)


def _fs(n):
    def f(x):
        return text(x)

    return f
