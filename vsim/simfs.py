"""
A real scratch directory behind simulated open(): the case decides which open or read fails, and every file opened and
not closed is seen.
"""
import __builtin__
import codecs
import io
import os
import shutil
import tempfile
from vsim import streams

_open = __builtin__.open
_ioopen = io.open


class SimFile(streams.SimInput):
    """ a file of the scratch directory, read through the simulator """

    def __init__(self, fs, path, data, failat, error, uni):
        streams.SimInput.__init__(self, data, failat, error)
        self.fs = fs
        self.name = path
        self.mode = "r"
        self.closed = False
        self.uni = uni

    def _to(self, end):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        s = streams.SimInput._to(self, end)
        return s.decode("utf-8") if self.uni else s

    def read(self, size=-1):
        return self._to(len(self.data) if size is None or size < 0 else min(len(self.data), self.pos + size))

    def readlines(self, hint=-1):
        return list(self)

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def __iter__(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.live.remove(self)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class SimFS(object):

    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vsimfs"))
        self.plan = None
        self.opened = []
        self.live = []
        self.hit = None
        self.struck = None
        __builtin__.open = lambda *a, **k: self.open(_open, *a, **k)
        io.open = lambda *a, **k: self.open(_ioopen, *a, **k)

    def close(self):
        __builtin__.open = _open
        io.open = _ioopen
        shutil.rmtree(self.root)

    def real(self, name):
        return os.path.join(self.root, name)

    def write(self, name, data):
        p = self.real(name)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        f = _open(p, "wb")
        f.write(data)
        f.close()

    def remove(self, name):
        if os.path.exists(self.real(name)):
            os.unlink(self.real(name))

    def arm(self, plan):
        """ {"at": "open" or millionths of the file, "err": name or "eof"} for the next file opened """
        self.plan = plan
        self.hit = self.struck = None

    def disarm(self):
        self.plan = None

    def open(self, real, path, mode="r", *args, **kwargs):
        full = os.path.abspath(path) if isinstance(path, basestring) else None
        if full is None or set(mode) & set("wa+") or os.path.isdir(full) or not os.path.exists(full):
            return real(path, mode, *args, **kwargs)
        # the Python library and the harness are not part of the simulated world
        if full.startswith(("/usr", "/opt", "/proc", "/verif")) and not full.startswith(self.root):
            return real(path, mode, *args, **kwargs)
        self.opened.append(os.path.realpath(full))
        f = _open(path, "rb")
        data = f.read()
        f.close()
        failat = None
        error = "ioerror"
        plan, self.plan = self.plan, None
        if plan is not None:
            if plan["at"] == "open":
                self.hit = self.struck = "open"
                raise IOError({"emfile": 24, "eacces": 13}.get(plan["err"], 5), "simulated open failure")
            at = plan["at"] * len(data) // 1000000
            if plan["err"] == "eof":
                # somebody is writing the file at the moment
                if at < len(data.rstrip()):
                    self.hit = self.struck = "eof"
                data = data[:at]
            else:
                self.hit = self.struck = "read"
                failat = at
                error = plan["err"]
        uni = real is _ioopen and "b" not in mode
        if uni:
            data = data.replace("\r\n", "\n")
        out = SimFile(self, full, data, failat, error, uni)
        self.live.append(out)
        return out
