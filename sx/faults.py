"""
Faults at the mutating operations of the file system: the n-th of them (n may
be symbolic) does not succeed.  In mode "reader" the operations that read are
counted instead, and another process runs before the n-th of them.  Used by the stand-in of the symbolic run and,
wrapped around the real functions, by the replay.
"""

import builtins
import errno
import io
import os
import shutil


class Crash(BaseException):
    """the process is gone; nothing it does any more has an effect"""


class Faults:
    def __init__(self):
        self.mode = None
        self.at = 0
        self.count = 0
        self.dead = False
        self.hit = False

    def begin(self, mode, at, other=None):
        self.__init__()
        self.mode = mode
        self.at = at
        self.other = other

    def end(self):
        self.mode = None
        self.dead = False

    def strike(self):
        """the fault of this operation, or None"""
        if self.dead:
            raise Crash()
        if self.mode is None or self.mode == "reader":
            return None
        return self.next()

    def reading(self):
        if self.mode == "reader":
            self.next()

    def next(self):
        n = self.count
        self.count += 1
        if self.hit or self.at != n:
            return None
        self.hit = True
        if self.mode in ("other", "reader"):  # another process runs here
            keep = dict(self.__dict__)
            self.mode = None
            keep["other"]()
            self.__dict__.update(keep)
            return None
        if self.mode == "crash":
            self.dead = True
            return Crash()
        if self.mode == "interrupt":
            return KeyboardInterrupt()
        return OSError(errno.ENOSPC, "No space left on device")

    def point(self):
        x = self.strike()
        if x is not None:
            raise x


FAULTS = Faults()
real_open = builtins.open
real = {n: getattr(os, n) for n in "mkdir rename replace unlink remove rmdir listdir scandir stat lstat".split()}


class Writer:
    """a file opened for writing, unbuffered as far as faults are concerned"""

    def __init__(self, f):
        self._f = f

    def write(self, data):
        x = FAULTS.strike()
        if x is not None:
            if not isinstance(x, KeyboardInterrupt):
                self._f.write(data[: len(data) // 2])
                self._f.flush()
            raise x
        n = self._f.write(data)
        self._f.flush()
        return n

    def writelines(self, lines):
        for t in lines:
            self.write(t)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


class Scan:
    def __init__(self, items):
        self.items = items

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.items)

    def __next__(self):
        if not self.items:
            raise StopIteration
        return self.items.pop(0)

    def close(self):
        pass


class RealPatches:
    """faults and order of listings for the real functions"""

    def __init__(self, scratch, reverse):
        self.scratch = scratch
        self.reverse = reverse

    def inside(self, p, dir_fd=None):
        if isinstance(p, int) or dir_fd is not None:
            return True
        return os.path.abspath(os.fspath(p)).startswith(self.scratch)

    def __enter__(self):
        self.keep = dict(real)
        self.fd = getattr(shutil, "_use_fd_functions", None), getattr(shutil, "_USE_CP_SENDFILE", None)
        shutil._use_fd_functions = False
        shutil._USE_CP_SENDFILE = False

        def wrap(name):
            f = real[name]

            def g(path, *a, **k):
                if self.inside(path, k.get("dir_fd")):
                    FAULTS.point()
                return f(path, *a, **k)

            return g

        for n in "mkdir rename replace unlink remove rmdir".split():
            setattr(os, n, wrap(n))

        def look(name):
            f = real[name]

            def g(path, *a, **k):
                if FAULTS.mode == "reader" and self.inside(path, k.get("dir_fd")):
                    FAULTS.reading()
                return f(path, *a, **k)

            return g

        for n in ("stat", "lstat"):
            setattr(os, n, look(n))

        def listdir(path="."):
            if self.inside(path):
                FAULTS.reading()
            return sorted(real["listdir"](path), reverse=self.reverse)

        def scandir(path="."):
            if self.inside(path):
                FAULTS.reading()
            with real["scandir"](path) as it:
                return Scan(sorted(it, key=lambda x: x.name, reverse=self.reverse))

        def open_(file, mode="r", *a, **k):
            if isinstance(file, int) or not self.inside(file):
                return real_open(file, mode, *a, **k)
            if not set(mode) & set("wax+"):
                FAULTS.reading()
                return real_open(file, mode, *a, **k)
            FAULTS.point()
            return Writer(real_open(file, mode, *a, **k))

        os.listdir = listdir
        os.scandir = scandir
        builtins.open = open_
        io.open = open_
        return self

    def __exit__(self, *a):
        for n, f in self.keep.items():
            setattr(os, n, f)
        builtins.open = real_open
        io.open = real_open
        shutil._use_fd_functions, shutil._USE_CP_SENDFILE = self.fd
