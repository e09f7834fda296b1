"""
P16: what the library says of now and of today is what the clock says, and what it writes of them too.
"""
import copy
from vsim import core, dates as D, tzmodel, world
from vsim.lib import LibScenario, dt_wall, install_zone, make_dt
from vsim.scenarios.p12 import Clock
from pycalendar import datetime as dtmod, utils
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.period import Period
from pycalendar.timezone import Timezone

DAY = 86400
ZONES = ["Sim/A", "Sim/B"]
STATUS = {"NEEDS-ACTION": definitions.eStatus_VToDo_NeedsAction, "IN-PROCESS": definitions.eStatus_VToDo_InProcess,
          "COMPLETED": definitions.eStatus_VToDo_Completed, "CANCELLED": definitions.eStatus_VToDo_Cancelled}
KINDS = ("utc", "local", "local", "floating", "date")
BASE = D.secs((2013, 1, 1, 0, 0, 0))


def gen_when(rnd, kinds=KINDS):
    k = rnd.choice(list(kinds))
    s = BASE + rnd.below(700) * DAY
    if k != "date":
        s += rnd.choice([0, 9, 23, rnd.below(24)]) * 3600 + rnd.choice([0, 0, 59, rnd.below(60)]) * 60 + rnd.choice([0, 59])
    return {"k": k, "s": s, "z": rnd.choice(ZONES)}


class P16(LibScenario):
    prop = "P16"

    def generate(self, rnd, tier):
        comps = []
        for i in range(rnd.between(1, 4)):
            w = gen_when(rnd)
            if rnd.chance(50):
                n = rnd.choice([0, 0, 3, 5])
                comps.append({"c": "VEVENT", "uid": "e%d" % i, "w": w, "dur": rnd.choice([1, 60, 3600, DAY, 3 * DAY]) if w["k"] != "date" else DAY * rnd.between(1, 3), "n": n})
            else:
                comps.append({"c": "VTODO", "uid": "t%d" % i, "w": w if rnd.chance(80) else None, "status": rnd.choice(sorted(STATUS)), "done": None, "form": rnd.choice(["due", "due", "dur"])})
        ops = []
        for i in range(rnd.between(6, 24)):
            k = rnd.weighted([("to", 8), ("tick", 4), ("zone", 1), ("now", 4), ("today", 3), ("month", 1), ("stamp", 2), ("modified", 2), ("status", 3), ("completed", 1), ("reread", 1), ("dup", 1)])
            op = {"op": k, "x": rnd.below(10000)}
            if k == "tick":
                op["s"] = rnd.choice([0, 1, 59, 3600, DAY, rnd.below(40 * DAY), -1, -3600, -DAY * rnd.below(30)])
            elif k == "to":
                op["a"] = rnd.choice(["start", "end", "midnight", "midnight", "change", "year", "leap"])
                op["d"] = rnd.choice([-1, 0, 0, 1, -3600, 3600, 43200])
                op["frac"] = rnd.choice([0, 0, 5, 999])
            elif k == "zone":
                op["s"] = 900 * rnd.between(-48, 56)
            elif k in ("now", "today"):
                op["z"] = rnd.choice(ZONES)
                op["how"] = rnd.below(4)
            elif k == "status":
                op["v"] = rnd.choice(sorted(STATUS))
            elif k == "completed":
                op["w"] = gen_when(rnd, ("utc", "local", "local"))
            elif k == "month":
                op["wk"] = rnd.below(7)
                op["m"] = rnd.between(-1, 1)
            ops.append(op)
        return {"zones": [tzmodel.gen_zone(rnd, z) for z in ZONES], "now": BASE + rnd.below(700 * DAY), "tzoff": 900 * rnd.between(-48, 56), "comps": comps, "ops": ops}

    def simplify(self, case):
        for i in range(len(case["comps"])):
            c = copy.deepcopy(case)
            del c["comps"][i]
            yield c

    # -- text

    def at(self, name, w, s=None):
        return name + {"utc": ":", "floating": ":", "date": ";VALUE=DATE:", "local": ";TZID=%s:" % w["z"]}[w["k"]] + D.fmtsec(w["s"] if s is None else s, w["k"] == "utc", w["k"] == "date")

    def load(self, comps):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"]
        for c in comps:
            lines += ["BEGIN:" + c["c"], "UID:" + c["uid"], "DTSTAMP:20000101T000000Z"]
            if c["c"] == "VEVENT":
                lines += [self.at("DTSTART", c["w"]), self.at("DTEND", c["w"], c["w"]["s"] + c["dur"])]
                if c["n"]:
                    lines.append("RRULE:FREQ=WEEKLY;COUNT=%d" % c["n"])
            else:
                lines.append("STATUS:" + c["status"])
                if c["w"] and c["form"] == "dur":
                    lines += [self.at("DTSTART", c["w"], c["w"]["s"] - 2 * DAY), "DURATION:P2D"]
                elif c["w"]:
                    lines.append(self.at("DUE", c["w"]))
            lines.append("END:" + c["c"])
        return Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR", ""]))

    # -- model

    def instant(self, w, s=None):
        s = w["s"] if s is None else s
        return self.zones[w["z"]].to_utc(s) if w["k"] == "local" else s

    def now(self):
        return int(self.clock.now)

    def wall(self, z):
        """ the zone's clock, now """
        o = self.zones[z].offset_utc(self.now())
        return None if o is None else self.now() + o

    def here(self):
        return self.now() + self.clock.zone

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        self.clock = Clock(case["now"], case["tzoff"])
        saved = dtmod.time
        dtmod.time = self.clock
        try:
            self.run(case)
        finally:
            dtmod.time = saved

    def run(self, case):
        ctx = self.ctx
        self.zones = {}
        for z in case["zones"]:
            self.zones[z["tzid"]] = tzmodel.Zone(z, 2045)
            install_zone(self.zones[z["tzid"]])
        self.comps = copy.deepcopy(case["comps"])
        self.cal = self.load(self.comps)
        self.did = []
        self.said()
        for op in case["ops"]:
            self.did.append(op["op"])
            getattr(self, "op_" + op["op"])(op)
            self.said()
            ctx.ev(op["op"], self.now(), self.clock.zone)

    def fail(self, kind, msg):
        self.ctx.fail(kind, "at %s (the process's clock shows %s): %s; after %s" % (D.fmtsec(self.now(), True), D.fmtsec(self.here()), msg, " ".join(self.did)))

    def is_dt(self, what, dt, kind, wall, z=None):
        if kind == "date":
            if not dt.isDateOnly() or dt_wall(dt) // DAY != wall // DAY:
                self.fail(what, "%s is %s, should be %s" % (what, dt, D.fmtsec(wall, date=True)))
        elif dt.isDateOnly() or dt_wall(dt) != wall or dt.getTimezoneUTC() != (kind == "utc") or (kind == "local" and dt.getTimezoneID() != z):
            self.fail(what, "%s is %s, should be %s%s" % (what, dt.getText(), D.fmtsec(wall, kind == "utc"), " in " + z if z else ""))
        # (an hour the zone's clock shows twice is the first)
        at = self.zones[z].to_utc(wall) if kind == "local" else self.now()
        if kind != "date" and at is not None and dt.getPosixTime() != at:
            self.fail(what, "%s is the instant %s" % (what, dt.getPosixTime()))

    # -- the clock

    def op_tick(self, op):
        self.clock.now = self.now() + op["s"]
        self.ctx.elapse(op["s"])
        self.ctx.fault("clock went back" if op["s"] < 0 else "clock stood still" if op["s"] == 0 else "clock went on")

    def op_to(self, op):
        x = op["x"]
        z = self.zones[ZONES[x % 2]]
        now = self.now()
        c = self.comps[x % len(self.comps)] if self.comps else None
        a = None
        if op["a"] in ("start", "end") and c is not None and c["w"] is not None:
            s = c["w"]["s"] + (x // 7 % c["n"] * 7 * DAY if c.get("n") else 0) + (c["dur"] if op["a"] == "end" and c["c"] == "VEVENT" else 0)
            a = self.instant(c["w"], s)
        elif op["a"] == "midnight":
            off = [0, self.clock.zone, z.offset_utc(now) or 0][x % 3]
            a = (now + off) // DAY * DAY + DAY - off
        elif op["a"] == "change":
            near = [t[0] - t[1] for t in z.trans if abs(t[0] - now) < 400 * DAY]
            a = near[x % len(near)] if near else None
        elif op["a"] == "year":
            a = D.secs((2013 + x % 3, 1, 1, 0, 0, 0)) - [0, self.clock.zone][x % 2]
        elif op["a"] == "leap":
            a = D.secs((2016, 2, 29, 0, 0, 0))
        if a is None:
            a = now
        self.ctx.elapse(a + op["d"] - now)
        self.clock.now = a + op["d"] + op["frac"] / 1000.0
        self.ctx.fault("clock jumped back" if a + op["d"] < now else "clock jumped on")

    def op_zone(self, op):
        self.clock.zone = op["s"]
        self.ctx.fault("the process moved to another zone")

    # -- asking

    def some_dt(self, op, kind):
        return make_dt(kind, BASE + op["x"] * 3600, op["z"])

    def op_now(self, op):
        how, z = op["how"], op["z"]
        if how == 0:
            self.is_dt("now", DateTime.getNowUTC(), "utc", self.now())
        elif how == 1:
            dt = self.some_dt(op, ["utc", "local", "floating"][op["x"] % 3])
            dt.setNowUTC()
            self.is_dt("now", dt, "utc", self.now())
        elif how == 2:
            dt = self.some_dt(op, "utc")
            dt.getPosixTime()
            dt.setNow()
            self.is_dt("now", dt, "utc", self.now())
            self.is_dt("now", DateTime.getNow(Timezone(utc=True)), "utc", self.now())
        elif self.wall(z) is not None:
            dt = self.some_dt(op, "local")
            dt.getPosixTime()
            dt.setNow()
            self.is_dt("now", dt, "local", self.wall(z), z)
            self.is_dt("now", DateTime.getNow(Timezone(utc=False, tzid=z)), "local", self.wall(z), z)

    def op_today(self, op):
        how, z = op["how"], op["z"]
        if how == 0:
            self.is_dt("today", DateTime.getToday(), "date", self.here())
            self.is_dt("today", DateTime.getToday(None), "date", self.here())
        elif how == 1:
            dt = self.some_dt(op, "floating")
            dt.setToday()
            self.is_dt("today", dt, "date", self.here())
        elif how == 2:
            dt = self.some_dt(op, "utc")
            dt.setToday()
            self.is_dt("today", dt, "date", self.now())
            self.is_dt("today", DateTime.getToday(Timezone(utc=True)), "date", self.now())
        elif self.wall(z) is not None:
            dt = self.some_dt(op, "local")
            dt.setToday()
            self.is_dt("today", dt, "date", self.wall(z))
            self.is_dt("today", DateTime.getToday(Timezone(utc=False, tzid=z)), "date", self.wall(z))

    def op_month(self, op):
        y, m, _d = D.wall(self.here())[:3]
        m += op["m"]
        if m in (0, 13):
            y, m = (y - 1, 12) if m == 0 else (y + 1, 1)
        table, today = utils.getMonthTable(m, y, op["wk"], None, None)
        first = D.secs((y, m, 1, 0, 0, 0))
        # 1970-01-01 was a Thursday, 4 counting from Sunday
        top = first - ((first // DAY + 4 - op["wk"]) % 7) * DAY
        want, cell, s = [], [-1, -1], top
        while D.wall(s)[:2] == (y, m) or s < first:
            row = []
            for i in range(7):
                w = D.wall(s + i * DAY)
                row.append((w[0], w[1], w[2] if w[:2] == (y, m) else -w[2]))
                if (s + i * DAY) // DAY == self.here() // DAY:
                    cell = [len(want), i]
            want.append(row)
            s += 7 * DAY
        got = [[(utils.unpackDateYear(v), utils.unpackDateMonth(v), utils.unpackDateDay(v)) for v in row] for row in table]
        if got != want:
            self.fail("month", "the table of month %d-%d, weeks from day %d, is %s" % (y, m, op["wk"], got))
        if list(today) != cell:
            self.fail("month", "in the table of month %d-%d, weeks from day %d, today is at %s, should be %s" % (y, m, op["wk"], today, cell))

    # -- what is written

    def stamped(self, l, name):
        ps = l.getProperties(name)
        if len(ps) != 1:
            self.fail("stamp", "%d of %s" % (len(ps), name))
        want = "%s:%s\r\n" % (name, D.fmtsec(self.now(), True))
        if ps[0].getText() != want:
            self.fail("stamp", "%r was written, should be %r" % (ps[0].getText(), want))

    def pick(self, op, kind=None):
        cs = [c for c in self.comps if kind in (None, c["c"])]
        if not cs:
            return None, None
        c = cs[op["x"] % len(cs)]
        return c, self.lib(c)

    def lib(self, c):
        return [l for l in self.cal.getComponents(c["c"]) if l.getUID() == c["uid"]][0]

    def op_stamp(self, op):
        _c, l = self.pick(op)
        if l is not None:
            l.initDTSTAMP()
            self.stamped(l, "DTSTAMP")
            self.is_dt("stamp", l.getStamp(), "utc", self.now())
            self.ctx.probe("stamps")

    def op_modified(self, op):
        _c, l = self.pick(op)
        if l is not None:
            l.updateLastModified()
            self.stamped(l, "LAST-MODIFIED")

    def op_status(self, op):
        c, l = self.pick(op, "VTODO")
        if l is not None:
            l.editStatus(STATUS[op["v"]])
            if c["status"] != op["v"]:
                c["status"] = op["v"]
                c["done"] = self.now() if op["v"] == "COMPLETED" else None
                if op["v"] == "COMPLETED":
                    self.stamped(l, "COMPLETED")

    def op_completed(self, op):
        c, l = self.pick(op, "VTODO")
        at = self.instant(op["w"])
        if l is not None and at is not None:
            w = op["w"]
            given = make_dt(w["k"], w["s"], w["z"])
            l.editCompleted(given)
            if dt_wall(given) != w["s"]:
                self.fail("completed", "the time given was changed")
            c["done"] = at

    def op_reread(self, op):
        self.cal = Calendar.parseText(world.text_of(self.cal))
        self.ctx.fault("written and read again")

    def op_dup(self, op):
        self.cal = self.cal.duplicate()

    # -- what is said of the components now

    def said(self):
        before = world.text_of(self.cal)
        states = []
        for c in self.comps:
            l = self.lib(c)
            if c["c"] == "VEVENT":
                states.append(self.said_event(c, l))
            else:
                states.append(self.said_todo(c, l))
        if world.text_of(self.cal) != before:
            self.fail("text", "asking changed the calendar")
        self.ctx.fp(states, self.did[-1:], self.here() // DAY - self.now() // DAY, self.now() % DAY // 3600)

    def said_event(self, c, l):
        items = []
        w = c["w"]
        span = 7 * DAY * max(1, c["n"]) + 4 * DAY
        l.expandPeriod(Period(make_dt("utc", w["s"] - 2 * DAY), make_dt("utc", w["s"] + span)), items)
        if len(items) != max(1, c["n"]):
            return "?"
        items.sort(key=lambda i: dt_wall(i.getInstanceStart()))
        out = []
        for i, item in enumerate(items):
            s = w["s"] + i * 7 * DAY
            a, b = self.instant(w, s), self.instant(w, s + c["dur"])
            got = item.isNow()
            if got not in (True, False):
                self.fail("isnow", "%r" % (got,))
            if a is None or b is None or dt_wall(item.getInstanceEnd()) != s + c["dur"]:
                continue
            if w["k"] in ("floating", "date"):
                # settled where every clock agrees
                says = set([x < b and x >= a for x in [self.now(), self.here()]])
            else:
                says = set([a <= self.now() < b])
            if got not in says:
                self.fail("isnow", "what takes from %s%s for %d seconds is %sgoing on" % (D.fmtsec(s, w["k"] == "utc"), " in " + w["z"] if w["k"] == "local" else "", c["dur"], "" if got else "not "))
            out.append(got)
        return out

    def said_todo(self, c, l):
        got = l.getCompletionState()
        w = c["w"]
        if c["status"] == "COMPLETED":
            want = [VToDo.DONE]
        elif c["status"] == "CANCELLED":
            want = [VToDo.CANCELLED]
        elif w is None:
            want = [VToDo.DUE_NOW]
        else:
            # today is the process's, or that of the zone of the time it is due
            days = [self.here() // DAY]
            if w["k"] == "utc":
                days.append(self.now() // DAY)
            elif w["k"] == "local":
                days.append((self.wall(w["z"]) or self.here()) // DAY)
            dues = [w["s"] // DAY]
            if w["k"] in ("utc", "local"):
                at = self.instant(w)
                dues.append(((w["s"] if at is None else at) + self.clock.zone) // DAY)
            want = []
            for d in days:
                for u in dues:
                    want.append(VToDo.OVERDUE if u < d else VToDo.DUE_NOW if u == d else VToDo.DUE_LATER)
        if got not in want:
            self.fail("todo", "what is %s and due %s has state %s" % (c["status"], w and D.fmtsec(w["s"], w["k"] == "utc"), got))
        if not isinstance(l.getStatusText(), str) or not l.getStatusText():
            self.fail("todo", "it has no text of its status")
        if l.hasCompleted() != (c["done"] is not None) or len(l.getProperties("COMPLETED")) != (c["done"] is not None):
            self.fail("todo", "is %scompleted at a time" % ("" if l.hasCompleted() else "not "))
        if c["done"] is not None:
            if l.getCompleted().getPosixTime() != c["done"] or l.getProperties("COMPLETED")[0].getText() != "COMPLETED:%s\r\n" % (D.fmtsec(c["done"], True),):
                self.fail("todo", "was completed at %s, should be %s" % (l.getCompleted(), D.fmtsec(c["done"], True)))
        return got


SCENARIO = P16()
