"""
P19: a new UID is like no other, whatever made it; and chance decides nothing else that is written.

Processes come and go (with the same number, the clock standing still or going back), each with threads that
switch at any line of the library; what they make is all put together and compared.
"""
import os
import sys
import threading
import __builtin__
from vsim import core, instrument
from vsim.sched import Scheduler, raise_if_unexpected

instrument.install(["pycalendar.stringutils", "pycalendar.componentbase", "pycalendar.icalendar.component", "pycalendar.icalendar.componentrecur"])


class SimLock(object):
    """ a lock of the library, were it to have one: waits by letting others go on """
    sched = None

    def __init__(self, make):
        self.real = make()

    def acquire(self, *args):
        if args and not args[0]:
            return self.real.acquire(False)
        while not self.real.acquire(False):
            if SimLock.sched is None:
                raise core.HarnessError("deadlock")
            SimLock.sched.pause()
        return True

    def release(self):
        self.real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


def _wrap(name):
    real = getattr(threading, name)
    setattr(threading, name, lambda *args, **kw: SimLock(real))
    return real


_reals = dict([(n, _wrap(n)) for n in ("Lock", "RLock")])

import uuid
from vsim.lib import LibScenario
from pycalendar.icalendar import component as component_module
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.icalendar.vjournal import VJournal
from pycalendar.icalendar.vfreebusy import VFreeBusy
from pycalendar.icalendar.vpoll import VPoll

for _n in _reals:
    setattr(threading, _n, _reals[_n])

KINDS = {"VEVENT": VEvent, "VTODO": VToDo, "VJOURNAL": VJournal, "VFREEBUSY": VFreeBusy, "VPOLL": VPoll}
_SIMPLE = (int, long, str, unicode, float, bool, type(None))


def _fresh():
    """ what a process starts with """
    return [(o, k, v) for o in (component_module, Component, VEvent, VToDo, VJournal, VFreeBusy, VPoll, Calendar)
            for k, v in o.__dict__.items() if isinstance(v, _SIMPLE) and not k.startswith("__")]


FRESH = _fresh()


class P19(LibScenario):
    prop = "P19"

    def generate(self, rnd, tier):
        procs = []
        for _i in range(rnd.between(1, 5)):
            tasks = []
            for _j in range(rnd.choice([1, 1, 2, 3])):
                tasks.append([self.gen_op(rnd) for _k in range(rnd.between(1, 4))])
            n = rnd.choice([0, 100, 1000])
            procs.append({"pid": rnd.choice([1, 1, 2, 77, 4194303]), "tasks": tasks, "sched": [rnd.below(12) if rnd.chance(4) else 0 for _i in range(n)],
                          # the clock when the process starts, to that before: as it was, on, back
                          "step": rnd.choice([0, 0, 0, 1, 1000, -3, -100000]), "die": rnd.choice([None, None, 1, 2, 5])})
        texts = [self.gen_text(rnd) for _i in range(rnd.below(3))]
        return {"procs": procs, "texts": texts, "domain": rnd.choice(["com.mulberrymail", "x"])}

    def gen_op(self, rnd):
        k = rnd.weighted([("new", 6), ("again", 2), ("given", 2), ("rename", 1), ("copy", 2), ("wait", 2)])
        return {"op": k, "kind": rnd.choice(sorted(KINDS)), "x": rnd.below(1000), "by": rnd.choice([0.01, 0.5, 1, 60, -1, -0.01])}

    def gen_text(self, rnd):
        """ components with and without a UID, and of no known kind """
        out = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"]
        for i in range(rnd.between(2, 6)):
            k = rnd.choice(["X-COMP", "X-COMP", "X-OTHER", "VEVENT", "VTODO", "VPOLL", "VFREEBUSY", "VAVAILABILITY"])
            out += ["BEGIN:" + k, "X-NUM:%d" % i]
            if rnd.chance(40):
                out.append("UID:u%d" % (rnd.below(3),))
            if k in ("VEVENT", "VTODO", "X-COMP"):
                for j in range(rnd.choice([0, 0, 2, 3])):
                    sub = {"X-COMP": rnd.choice(["X-SUB", "VALARM"])}.get(k, "VALARM")
                    out += ["BEGIN:" + sub, "X-NUM:%d" % (100 * i + j)]
                    if sub == "VALARM":
                        out += ["ACTION:AUDIO", "TRIGGER:" + rnd.choice(["-PT15M", "PT0S"])]
                    out.append("END:" + sub)
            elif k == "VAVAILABILITY":
                for j in range(rnd.below(3)):
                    out += ["BEGIN:AVAILABLE", "X-NUM:%d" % (100 * i + j), "DTSTART:20140101T000000Z"] + (["UID:a%d" % (rnd.below(3),)] if rnd.chance(60) else []) + ["END:AVAILABLE"]
            out.append("END:" + k)
        return "\r\n".join(out + ["END:VCALENDAR", ""])

    def simplify(self, case):
        import copy
        for i, p in enumerate(case["procs"]):
            for j in range(len(p["tasks"])):
                c = copy.deepcopy(case)
                del c["procs"][i]["tasks"][j]
                yield c
                for k in range(len(p["tasks"][j])):
                    c = copy.deepcopy(case)
                    del c["procs"][i]["tasks"][j][k]
                    yield c
            if len(case["procs"]) > 1:
                c = copy.deepcopy(case)
                del c["procs"][i]
                yield c
            if p["sched"]:
                c = copy.deepcopy(case)
                c["procs"][i]["sched"] = p["sched"][:len(p["sched"]) // 2]
                yield c
            for m, s in enumerate(p["sched"]):
                if s:
                    c = copy.deepcopy(case)
                    c["procs"][i]["sched"][m] = 0
                    yield c
        for i in range(len(case["texts"])):
            c = copy.deepcopy(case)
            del c["texts"][i]
            yield c

    # -- the world around

    def uuid4(self):
        self.point()
        self.nrand += 1
        return uuid.UUID(int=core.Rnd(self.rand * 1000003 + self.nrand).below(1 << 30) * (1 << 96) + self.rand * 1000003 + self.nrand + (4 << 76) + (2 << 62))

    def getpid(self):
        self.point()
        return self.pid

    def time(self):
        self.point()
        return self.clock

    def gmtime(self, t=None):
        return self.realtime.gmtime(self.clock if t is None else t)

    def __getattr__(self, name):
        # the rest of the module time
        if name.startswith("__") or "realtime" not in self.__dict__:
            raise AttributeError(name)
        return getattr(self.realtime, name)

    def point(self):
        """ another thread may go on here """
        s = self.sched
        if s is None or s.current is None:
            return
        i = self.npoint = self.npoint + 1
        c = self.choices[i] if i < len(self.choices) else 0
        if c:
            s.choices.append(c)
            while len(s.choices) <= s.steps:
                s.choices.append(c)
            s.pause()

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        self.uids = {}
        self.sched, self.nrand, self.clock, self.pid, self.rand = None, 0, 1400000000.0, 1, 1
        self.realtime = sys.modules["time"]
        real = uuid.uuid4, os.getpid
        times = [m for m in (component_module,) if hasattr(m, "time")]
        domain = Calendar.sDomain
        uuid.uuid4, os.getpid = self.uuid4, self.getpid
        __builtin__.__vsim_point__ = self.point
        old = [(m, m.time) for m in times]
        for m in times:
            m.time = self
        try:
            for k, p in enumerate(case["procs"]):
                self.process(k, p, case)
            self.texts(case)
        finally:
            uuid.uuid4, os.getpid = real
            __builtin__.__vsim_point__ = lambda: None
            for m, t in old:
                m.time = t
            for o, k, v in FRESH:
                setattr(o, k, v)
            Calendar.sDomain = domain
            SimLock.sched = None

    def process(self, k, p, case):
        ctx = self.ctx
        for o, n, v in FRESH:
            setattr(o, n, v)
        Calendar.sDomain = case["domain"]
        if k:
            ctx.fault("restart")
            if p["pid"] == self.pid:
                ctx.fault("same-pid")
            if p["step"] <= 0:
                ctx.fault("clock-back" if p["step"] else "clock-still")
        self.pid, self.rand = p["pid"], k + 1
        self.clock += p["step"]
        self.done = 0
        self.die = p["die"]
        self.choices, self.npoint = p["sched"], 0
        if len(p["tasks"]) == 1:
            self.task(k, 0, p["tasks"][0])
        else:
            self.sched = SimLock.sched = Scheduler([], ctx)
            for j, ops in enumerate(p["tasks"]):
                self.sched.add("t%d" % j, self.body(k, j, ops))
            ts = self.sched.run()
            if self.sched.switches > len(ts):
                ctx.fault("preempted", self.sched.switches - len(ts))
            self.sched = SimLock.sched = None
            for t in ts:
                if isinstance(t.error, (core.Violation, core.HarnessError)):
                    raise t.error
                raise_if_unexpected(t)
        ctx.fp(p["pid"], len(p["tasks"]), self.done, p["step"] > 0, [o["op"] for ops in p["tasks"] for o in ops])

    def body(self, k, j, ops):
        return lambda: self.task(k, j, ops)

    def fresh(self, comp, where):
        uid = comp.getUID()
        if uid in self.uids:
            self.ctx.fail("repeated", "the new UID %s of %s is also that of %s" % (uid, where, self.uids[uid]))
        self.uids[uid] = where
        self.same(comp, uid, where)
        if not uid or [c for c in uid if not (c.isalnum() or c in "@.-_")]:
            self.ctx.fail("form", "the new UID of %s is %r" % (where, uid))

    def same(self, comp, uid, where):
        got = [str(x.getTextValue().getValue()) for x in comp.getProperties("UID")]
        if comp.getUID() != uid or got != [uid]:
            self.ctx.fail("written", "%s has the UID %s, and writes %s" % (where, comp.getUID(), got))

    def task(self, k, j, ops):
        comps = []
        for n, op in enumerate(ops):
            where = "process %d thread %d operation %d" % (k, j, n)
            o = op["op"]
            if o == "wait":
                self.clock += op["by"]
                if op["by"] < 0:
                    self.ctx.fault("clock-back")
                continue
            if self.die is not None and self.done >= self.die:
                self.ctx.fault("killed")
                return
            if o in ("again", "rename", "copy") and not comps:
                o = "new"
            if o in ("new", "given"):
                cal = Calendar()
                c = KINDS[op["kind"]](parent=cal)
                want = None if o == "new" else "given-%d-%d-%d" % (k, j, n)
                c.setUID(want)
                cal.addComponent(c)
                comps.append((cal, c))
            else:
                cal, c = comps[op["x"] % len(comps)]
                want = None
                if o == "copy":
                    cal = cal.duplicate()
                    c = cal.getComponents()[0]
                    comps.append((cal, c))
                elif o == "rename":
                    want = "renamed-%d-%d-%d" % (k, j, n)
                c.setUID(want)
            self.done += 1
            if want is None:
                self.fresh(c, where)
            else:
                self.same(c, want, where)
            uid = c.getUID()
            again = Calendar.parseText(cal.getText()).getComponents()[0]
            self.same(again, uid, where + " read again")
            for cal2, c2 in comps:
                if c2 is not c and c2.getUID() == uid:
                    self.ctx.fail("shared", "the UID of %s became that of another component" % (where,))
            if self.sched is None:
                self.ctx.ev(o, where)

    def texts(self, case):
        for text in case["texts"]:
            out = []
            for r in (101, 202, 303):
                self.rand, self.nrand = r, 0
                cal = Calendar.parseText(text)
                a = cal.getText()
                b = cal.duplicate().getText()
                c = Calendar.parseText(a).getText()
                out += [a, b, c]
                out.append(cal.getText())
            for o in out[1:]:
                if o != out[0]:
                    x, y = out[0].split("\r\n"), o.split("\r\n")
                    i = [i for i in range(min(len(x), len(y))) if x[i] != y[i]]
                    self.ctx.fail("chance", "the same calendar is written with %r or %r in line %s, by chance" % (x[i[0]] if i else "", y[i[0]] if i else "", i[:1]))
            self.ctx.probe("texts")


SCENARIO = P19()
