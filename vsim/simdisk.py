"""
A directory on a simulated disk that other processes look into: every operation on it is a point at which the
process may be killed (files torn), the operation may fail, or somebody else may look.
"""
import __builtin__
import errno
import io
import os
import shutil
import tempfile

_open, _ioopen = open, io.open
NAMES = ("remove", "unlink", "rmdir", "makedirs", "mkdir", "rename")
_os = dict([(n, getattr(os, n)) for n in NAMES])


class Crash(BaseException):
    """ the process is killed """


class WFile(object):
    def __init__(self, disk, path, real):
        self.disk, self.path, self.real = disk, path, real
        self.closed = False

    def write(self, data):
        self.disk.point("write", self.path, self.real, data)
        self.real.write(data)
        self.real.flush()
        self.disk.look()

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        self.disk.point("flush", self.path)
        self.real.flush()

    def fileno(self):
        return self.real.fileno()

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                self.disk.point("close", self.path)
            finally:
                self.real.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __getattr__(self, name):
        return getattr(self.real, name)


class Disk(object):
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vsimdisk"))
        self.n = 0
        self.plan = None
        self.dead = False
        self.full = False
        self.hit = None
        self.watch = None
        self.live = []
        __builtin__.open = lambda *a, **k: self.open(_open, *a, **k)
        io.open = lambda *a, **k: self.open(_ioopen, *a, **k)
        for n in NAMES:
            setattr(os, n, self.wrap(n))

    def close(self):
        __builtin__.open, io.open = _open, _ioopen
        for n in NAMES:
            setattr(os, n, _os[n])
        shutil.rmtree(self.root)

    def mine(self, path):
        return isinstance(path, basestring) and (os.path.abspath(path) + "/").startswith(self.root + "/")

    def arm(self, plan):
        """ {"at": operation number, "what": "crash", "error" or "full", "cut": millionths of what is being written, "err": number} """
        self.n, self.plan, self.dead, self.full, self.hit = 0, plan, False, False, None

    def boot(self):
        """ the process is gone """
        for f in self.live:
            try:
                f.real.close()
            except Exception:
                pass
        self.live = []
        self.dead = False

    def point(self, what, path, real=None, data=None):
        if self.dead:
            raise Crash()
        self.n += 1
        p = self.plan
        if self.full and what in ("write", "create", "makedirs", "mkdir"):
            raise IOError(errno.ENOSPC, "simulated: disk full")
        if p is None or self.n != p["at"]:
            return
        self.hit = "%s-%s" % (p["what"], what)
        if data is not None:
            real.write(data[:p["cut"] * len(data) // 1000000])
            real.flush()
        if p["what"] == "crash":
            self.dead = True
            raise Crash()
        if p["what"] == "full":
            if what not in ("write", "create", "makedirs", "mkdir"):
                self.full = True
                return
            self.full = True
            raise IOError(errno.ENOSPC, "simulated: disk full")
        raise (OSError if what in NAMES else IOError)(p["err"], "simulated: %s failed" % (what,))

    def look(self):
        if self.watch is not None and not self.dead:
            self.watch()

    def wrap(self, name):
        def fn(path, *args):
            if not self.mine(path):
                return _os[name](path, *args)
            self.point(name, path)
            if name == "makedirs":
                # in its own terms, not by way of mkdir
                os.mkdir = _os["mkdir"]
                os.makedirs = _os["makedirs"]
                try:
                    res = _os[name](path, *args)
                finally:
                    os.mkdir = fns["mkdir"]
                    os.makedirs = fns["makedirs"]
            else:
                res = _os[name](path, *args)
            self.look()
            return res
        fns = self.__dict__.setdefault("fns", {})
        fns[name] = fn
        return fn

    def open(self, real, path, mode="r", *args, **kwargs):
        if not self.mine(path):
            return real(path, mode, *args, **kwargs)
        if set(mode) & set("wa+"):
            self.point("create", path)
            f = WFile(self, path, real(path, mode, *args, **kwargs))
            self.live.append(f)
            self.look()
            return f
        self.point("read", path)
        return real(path, mode, *args, **kwargs)

    # -- what others see

    def files(self, top):
        out = {}
        for root, dirs, names in os.walk(top):
            for n in names:
                p = os.path.join(root, n)
                f = _open(p, "rb")
                out[os.path.relpath(p, top)] = f.read()
                f.close()
        return out

    def put(self, path, data):
        if not os.path.isdir(os.path.dirname(path)):
            _os["makedirs"](os.path.dirname(path))
        f = _open(path, "wb")
        f.write(data)
        f.close()
