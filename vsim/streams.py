"""
Simulated input and output streams: every read and write goes through here, and the case decides which one fails, how
and when.
"""
from vsim import core, docs

FAULTS = ["ioerror", "oserror", "valueerror", "timeout"]


class SimTimeout(Exception):
    """ what a socket raises: not an IOError for everyone """


def make_error(name):
    if name == "ioerror":
        return IOError(5, "simulated I/O error")
    if name == "oserror":
        return OSError(9, "simulated bad descriptor")
    if name == "valueerror":
        return ValueError("I/O operation on closed file")
    if name == "diskfull":
        return IOError(28, "No space left on device")
    return SimTimeout("simulated time-out")


class SimInput(object):
    """ file-like input: readline(), read(); fails at the first read that would pass byte `failat` """

    def __init__(self, data, failat=None, error="ioerror", hook=None):
        self.data = data
        self.pos = 0
        self.failat = failat
        self.error = error
        self.failed = False
        self.reads = 0
        self.hook = hook

    def _to(self, end):
        self.reads += 1
        if self.hook is not None:
            self.hook()
        if self.failat is not None and end > self.failat or self.failat is not None and end == self.pos:
            # the error is met at this read: a buffered reader has already lost what it read
            self.failed = True
            raise make_error(self.error)
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def readline(self, size=-1):
        i = self.data.find("\n", self.pos)
        return self._to(len(self.data) if i < 0 else i + 1)

    def read(self, size=-1):
        return self._to(len(self.data))

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def close(self):
        pass


class SimOutput(object):
    """ file-like output: takes `room` bytes in all; the write that does not fit stores what does (or nothing) and raises """

    def __init__(self, room=None, error="diskfull", torn=True, hook=None, once=False):
        self.once = once
        self.parts = []
        self.size = 0
        self.room = room
        self.error = error
        self.torn = torn
        self.failed = False
        self.writes = 0
        self.hook = hook

    def write(self, s):
        self.writes += 1
        if self.hook is not None:
            self.hook()
        if isinstance(s, unicode):
            s = s.encode("utf-8")
        if self.writes > 200000:
            raise core.Violation("endless", "writing does not end: %d writes, %d bytes, the last of them %r" % (self.writes, self.size, s[-60:]))
        if self.room is not None and self.size + len(s) > self.room:
            if self.torn:
                self.parts.append(s[:self.room - self.size])
                self.size = self.room
            self.failed = True
            # nothing fits any more, unless it was a passing failure
            self.room = None if self.once else self.size
            raise make_error(self.error)
        self.parts.append(s)
        self.size += len(s)

    def getvalue(self):
        return "".join(self.parts)


def gen_layout(rnd):
    """ how a document is laid out in bytes: none of it has a meaning """
    return {"eol": rnd.choice(["crlf", "crlf", "lf", "mixed"]), "fold": rnd.choice(["none", "75", "tight", "tab"]),
            "blank": rnd.choice([0, 0, 0, 15]), "final": rnd.chance(80), "seed": rnd.below(1 << 30)}


def layout(lines, lay, core):
    """ logical lines -> bytes """
    rnd = core.Rnd("layout%d" % lay["seed"])
    out = []

    def eol():
        if lay["eol"] == "crlf":
            return "\r\n"
        if lay["eol"] == "lf":
            return "\n"
        return rnd.choice(["\r\n", "\n"])

    for line in lines:
        if lay["blank"] and rnd.chance(lay["blank"]):
            out.append(eol())
        if lay["fold"] == "none":
            out.append(line)
        else:
            width = 75 if lay["fold"] == "75" else rnd.between(1, 20)
            pad = "\t" if lay["fold"] == "tab" else " "
            first = True
            while True:
                # never so that nothing comes before the fold
                chunk, line = line[:max(1, width)], line[max(1, width):]
                out.append(("" if first else pad) + chunk)
                first = False
                if not line:
                    break
                out.append(eol())
        out.append(eol())
    if not lay["final"]:
        out.pop()
        return "".join(out)
    if lay["blank"] and rnd.chance(30):
        out.append(eol())
    return "".join(out)
