"""
What a scenario sees of the world, in the two modes: symbolic (h5py replaced by
its stand-in) and real (files written to a scratch directory).
"""

import contextlib
import io
import json
import logging
import os
import pickle
import shutil
import tempfile


class Env:
    mode = None

    def __init__(self, ch, scratch):
        self.ch = ch
        self.scratch = scratch
        self.problems = []
        self.nfile = 0

    def problem(self, code, *details):
        self.problems.append((code, details))

    def check(self, cond, code, *details):
        if not cond:
            self.problems.append((code, details))
        return cond

    def path(self, name):
        return os.path.join(self.scratch, name)

    def reach(self, label):
        self.ch.reach(label)

    def mkdir(self, p):
        os.mkdir(p)

    # -- shared helpers
    def validator(self, ref=None, n=0):
        return POOL[(ref, n)]

    def newpath(self, name=None):
        self.nfile += 1
        return self.path(name or "data%d.h5" % self.nfile)


POOL = {}


def load_validators(wanted):
    """real constructor calls, once, before any path starts"""
    from punx import validate

    for ref, n in wanted:
        with contextlib.redirect_stdout(io.StringIO()):
            POOL[(ref, n)] = validate.Data_File_Validator(ref)


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple([freeze(y) for y in x])
    if isinstance(x, dict):
        return tuple([(freeze(k), freeze(v)) for k, v in x.items()])
    return x


class FakeErr:
    """standard output or error, written to directly (argparse)"""

    def write(self, text):
        from .core import ENG

        ENG.out.append(("err", text))

    def flush(self):
        pass


class Collect(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.INFO)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


KNOWN = {}


def fakeos_module(name):
    from . import instrument

    return instrument.OVERRIDES[name]


class SymEnv(Env):
    mode = "sym"
    symbolic = True

    def isolated(self, f):
        """
        result of f run in another process: no change of the state of the
        program remains (files do)
        """
        from .core import ENG

        keep = ENG.journal, ENG.touched, {k: (v[0], list(v[1])) for k, v in ENG.symdicts.items()}, list(ENG.out)
        caches = [(c, c.entries) for c in ENG.caches]
        for c, _ in caches:
            c.cache_clear()
        ENG.journal, ENG.touched = [], {}
        r = freeze(f())
        ENG.undo()
        for c, entries in caches:
            c.entries = entries
        ENG.journal, ENG.touched, ENG.symdicts, ENG.out = keep
        return r

    def h5file(self, root, name=None):
        from . import fakeh5

        p = self.newpath(name)
        open(p, "w").close()
        fakeh5.FILES[p] = root
        return p

    def garbage(self, name=None):
        from . import fakeh5

        p = self.newpath(name)
        open(p, "w").close()
        fakeh5.FILES[p] = None
        return p

    def xmlfile(self, root, path):
        from . import fakexml

        open(path, "w").close()
        fakexml.FILES[path] = root
        return path

    def stdout(self):
        from .core import ENG

        return [x for x in ENG.out if not isinstance(x, tuple)]

    # -- files below the scratch directory (properties with a virtual file system)
    def begin_fs(self, reverse=False):
        from PyQt5 import QtCore

        from . import fakeos

        fakeos.reset(self.scratch)
        fakeos.FS.reverse = reverse
        t = fakeos_module("tempfile")
        t._name_sequence = iter(["t%d" % i for i in range(100)])
        t.tempdir = self.scratch + "/tmp"
        QtCore.QSettings.setPath(QtCore.QSettings.IniFormat, QtCore.QSettings.UserScope, self.scratch + "/user")
        self.fs_mkdir(self.scratch + "/tmp")

    def fs_mkdir(self, path):
        fakeos_module("os").makedirs(path, exist_ok=True)

    def fs_write(self, path, data):
        from . import fakeos

        if isinstance(data, (dict, list)):
            data = fakeos.f_dumps(data)
        with fakeos.f_open(path, "wb" if isinstance(data, bytes) else "w") as f:
            f.write(data)

    def fs_copy(self, src, path):
        """a copy of a file of the real file system, XML parsers see the original"""
        from . import fakexml

        self.fs_write(path, b"copy")
        fakexml.ALIAS[path] = src

    def fs_xml(self, root, path):
        from . import fakexml

        self.fs_write(path, b"<xml/>")
        fakexml.FILES[path] = root

    def fs_h5(self, root, path):
        from . import fakeh5

        self.fs_write(path, b"hdf5")
        fakeh5.FILES[path] = root

    def known_h5(self, path):
        """an existing HDF5 file"""
        from . import fakeh5, fromh5

        if path not in KNOWN:
            KNOWN[path] = fromh5.read(path)
        fakeh5.FILES[path] = KNOWN[path]

    def fs_exists(self, path):
        return fakeos_module("os.path").exists(path)

    def fs_files(self, path):
        """[(relative path, content)] of all files; (relative path, None) of empty directories"""
        from . import fakeos

        out = []

        def go(d, rel):
            for name, n in d.items:
                r = rel + "/" + name if rel != "" else name
                if isinstance(n, fakeos.File):
                    out.append((r, fakeos.content(n)))
                elif n.items:
                    go(n, r)
                else:
                    out.append((r, None))

        n = fakeos.node(path)
        go(n, "")
        return out

    def fs_json(self, data):
        from . import fakeos

        return fakeos.f_loads(data)

    def response(self, archive):
        """bytes of the answer of the server: an Archive, or a page that is none"""
        from . import fakeos

        if not isinstance(archive, fakeos.Archive):
            return b"404: Not Found"
        return fakeos.zip_bytes(archive)

    def hit(self):
        """did the fault happen?"""
        from .faults import FAULTS

        return FAULTS.hit

    def faulty(self, mode, at, f, other=None):
        from .faults import FAULTS, Crash

        FAULTS.begin(mode, at, other)
        try:
            return self.run(f)
        except Crash:
            return ("crash", None)
        except KeyboardInterrupt:
            return ("interrupt", None)
        finally:
            FAULTS.end()

    def messages(self):
        """log messages (info or more) and texts written to stderr"""
        from . import hooks
        from .core import ENG

        out = []
        for x in ENG.out:
            if isinstance(x, tuple) and x[0] == "err":
                out.append(x[1])
            elif isinstance(x, tuple) and len(x) > 2:
                out.append(hooks.str_mod(x[2], x[3:]) if len(x) > 3 else x[2])
        return out

    def run(self, f, *a, **k):
        """call f; result ('ok', value) or ('exc', exception)"""
        try:
            with contextlib.redirect_stderr(FakeErr()), contextlib.redirect_stdout(FakeErr()):
                return ("ok", f(*a, **k))
        except RecursionError as e:
            return ("exc", e)
        except SystemExit as e:
            return ("exit", e)
        except Exception as e:
            return ("exc", e)


class RealEnv(Env):
    mode = "real"
    symbolic = False

    def isolated(self, f):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                n = len(self.problems)
                res = freeze(f())
                with os.fdopen(w, "wb") as fd:
                    pickle.dump((res, self.problems[n:], self.nfile), fd)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as fd:
            data = fd.read()
        os.waitpid(pid, 0)
        res, probs, self.nfile = pickle.loads(data)
        self.problems.extend(probs)
        return res

    def __init__(self, ch, scratch):
        Env.__init__(self, ch, scratch)
        self._out = io.StringIO()
        self._err = io.StringIO()
        self._log = Collect()

    def h5file(self, root, name=None):
        from . import realh5

        p = self.newpath(name)
        realh5.write(p, root)
        return p

    def garbage(self, name=None):
        p = self.newpath(name)
        with open(p, "w") as f:
            f.write("this is not an HDF5 file\n" * 20)
        return p

    def xmlfile(self, root, path):
        from . import fakexml

        fakexml.write(path, root)
        return path

    def begin_fs(self, reverse=False):
        from PyQt5 import QtCore

        from . import faults

        self._names = iter(["t%d" % i for i in range(100)])
        tempfile._name_sequence = self._names
        tempfile.tempdir = self.scratch + "/tmp"
        QtCore.QSettings.setPath(QtCore.QSettings.IniFormat, QtCore.QSettings.UserScope, self.scratch + "/user")
        self.fs_mkdir(self.scratch + "/tmp")
        faults.RealPatches(self.scratch, reverse).__enter__()  # of this process, which runs one job

    def fs_mkdir(self, path):
        os.makedirs(path, exist_ok=True)

    def fs_write(self, path, data):
        if isinstance(data, (dict, list)):
            data = json.dumps(data)
        with open(path, "wb" if isinstance(data, bytes) else "w") as f:
            f.write(data)

    def fs_copy(self, src, path):
        shutil.copy(src, path)

    def fs_xml(self, root, path):
        self.xmlfile(root, path)

    def fs_h5(self, root, path):
        from . import realh5

        realh5.write(path, root)

    def known_h5(self, path):
        pass

    def fs_exists(self, path):
        return os.path.exists(path)

    def fs_files(self, path):
        out = []

        def go(d, rel):
            for name in sorted(os.listdir(d)):
                r = rel + "/" + name if rel != "" else name
                p = os.path.join(d, name)
                if not os.path.isdir(p):
                    with open(p, "rb") as f:
                        out.append((r, f.read()))
                elif os.listdir(p):
                    go(p, r)
                else:
                    out.append((r, None))

        go(path, "")
        return out

    def fs_json(self, data):
        return json.loads(data)

    def response(self, archive):
        import zipfile

        from .fakeos import Archive

        if not isinstance(archive, Archive):
            return b"404: Not Found"
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for name, content, date in archive.entries:
                z.writestr(zipfile.ZipInfo(name, tuple(date)), content)
            z.comment = archive.comment.encode("utf8")
        return buf.getvalue()

    hit = SymEnv.hit
    faulty = SymEnv.faulty

    def stdout(self):
        return self._out.getvalue().splitlines()

    def messages(self):
        return self._log.texts + self._err.getvalue().splitlines() + self.stdout()

    def run(self, f, *a, **k):
        root = logging.getLogger()
        root.handlers = [self._log]
        logging.disable(logging.NOTSET)
        try:
            with contextlib.redirect_stdout(self._out), contextlib.redirect_stderr(self._err):
                return ("ok", f(*a, **k))
        except SystemExit as e:
            return ("exit", e)
        except Exception as e:
            return ("exc", e)
        finally:
            logging.disable(logging.CRITICAL)


def make_scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="sxscratch", dir=base)


def clean(d):
    shutil.rmtree(d, ignore_errors=True)
