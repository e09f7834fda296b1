"""
P21: an alarm goes off once for each of its times: none is passed over and none repeated, whenever it is
asked, and wherever the program is stopped and started again from what it had written.
"""
import copy
from vsim import core, dates as D, tzmodel, world
from vsim.lib import LibScenario, install_zone, make_dt
from vsim.scenarios.p12 import Clock
from pycalendar import datetime as dtmod
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions

DAY = 86400
ZONE = "Sim/Z"
BASE = D.secs((2013, 2, 1, 0, 0, 0))
PENDING, DONE = definitions.eAlarm_Status_Pending, definitions.eAlarm_Status_Completed


def gen_trigger(rnd):
    if rnd.chance(30):
        return {"abs": rnd.below(40 * DAY // 60) * 60}
    return {"by": rnd.choice([-1, -1, -1, 1]) * rnd.choice([0, 300, 900, 3600, DAY, 7 * DAY, 60 * rnd.below(3000)]), "end": rnd.chance(35), "said": rnd.chance(50)}


def gen_repeat(rnd):
    return {"n": rnd.weighted([(0, 3), (1, 2), (2, 2), (4, 2)]), "every": rnd.choice([60, 300, 300, 3600, DAY, 2 * DAY, 60 * rnd.between(1, 5000)])}


def gen_owner(rnd, uid):
    a = []
    for _j in range(rnd.between(1, 3)):
        a.append({"t": gen_trigger(rnd), "r": gen_repeat(rnd), "action": rnd.choice(["DISPLAY", "AUDIO", "EMAIL", "X-OTHER"])})
    return {"uid": uid, "c": rnd.choice(["VEVENT", "VTODO"]), "k": rnd.choice(["utc", "local"]), "s": rnd.below(40 * DAY // 60) * 60, "dur": rnd.choice([60, 1800, 3600, DAY, 3 * DAY]), "dform": rnd.chance(30), "alarms": a}


class P21(LibScenario):
    prop = "P21"

    def generate(self, rnd, tier):
        zone = tzmodel.gen_zone(rnd, ZONE)
        z = tzmodel.Zone(zone, 2045)
        # around then the zone keeps to one offset: times added across a change are not of this property
        base = BASE
        while len(set(z.offset_utc(base + d * DAY) for d in range(-25, 90))) > 1 and base < BASE + 2000 * DAY:
            base += 17 * DAY
        owners = [gen_owner(rnd, "u%d" % i) for i in range(rnd.between(1, 2))]
        ops = []
        for i in range(rnd.between(6, 30)):
            k = rnd.weighted([("aim", 12), ("back", 2), ("tick", 4), ("poll", 10), ("ask", 4), ("save", 4), ("crash", 3), ("reread", 2), ("dup", 1), ("move", 2), ("trigger", 2), ("repeat", 1), ("rearm", 2)])
            op = {"op": k, "x": rnd.below(10000)}
            if k == "tick":
                op["s"] = rnd.choice([0, 60, 3600, DAY, DAY, rnd.below(5 * DAY), -60, -3600, -rnd.below(3 * DAY)])
            elif k == "aim":
                op["d"] = rnd.choice([-1, 0, 0, 0, 1, 30, 3600, DAY, DAY + 1, DAY - 1])
                op["poll"] = rnd.chance(50)
            elif k == "move":
                op["s"], op["dur"] = rnd.below(40 * DAY // 60) * 60, rnd.choice([60, 3600, DAY])
            elif k == "trigger":
                op["t"] = gen_trigger(rnd)
            elif k == "repeat":
                op["r"] = gen_repeat(rnd)
            ops.append(op)
        return {"zone": zone, "base": base, "now": rnd.below(45 * DAY), "owners": owners, "ops": ops}

    def simplify(self, case):
        for i in range(len(case["owners"])):
            if len(case["owners"]) > 1:
                c = copy.deepcopy(case)
                del c["owners"][i]
                yield c
            for j in range(len(case["owners"][i]["alarms"])):
                if len(case["owners"][i]["alarms"]) > 1:
                    c = copy.deepcopy(case)
                    del c["owners"][i]["alarms"][j]
                    yield c

    # -- text

    def dt(self, kind, u):
        """ the instant, on the clock of its kind """
        return make_dt(kind, u + (self.off if kind == "local" else 0), ZONE)

    def line(self, name, kind, u):
        return name + (":" if kind == "utc" else ";TZID=%s:" % ZONE) + D.fmtsec(u + (self.off if kind == "local" else 0), kind == "utc")

    def dur(self, s):
        return Duration(duration=s).getText()

    def load(self, owners):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"]
        for o in owners:
            lines += ["BEGIN:" + o["c"], "UID:" + o["uid"], "DTSTAMP:20000101T000000Z", self.line("DTSTART", o["k"], o["s"])]
            if o["dform"]:
                lines.append("DURATION:" + self.dur(o["dur"]))
            else:
                lines.append(self.line("DTEND" if o["c"] == "VEVENT" else "DUE", o["k"], o["s"] + o["dur"]))
            for j, a in enumerate(o["alarms"]):
                lines += ["BEGIN:VALARM", "X-N:%d" % j, "ACTION:" + a["action"]]
                t = a["t"]
                if "abs" in t:
                    lines.append("TRIGGER;VALUE=DATE-TIME:" + D.fmtsec(t["abs"], True))
                else:
                    lines.append("TRIGGER%s:%s" % (";RELATED=END" if t["end"] else ";RELATED=START" if t["said"] else "", self.dur(t["by"])))
                if a["r"]["n"]:
                    lines += ["REPEAT:%d" % a["r"]["n"], "DURATION:" + self.dur(a["r"]["every"])]
                lines += ["DESCRIPTION:d", "SUMMARY:s", "ATTENDEE:mailto:a@b.c", "END:VALARM"]
            lines.append("END:" + o["c"])
        return Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR", ""]))

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        self.base = case["base"]
        self.clock = Clock(self.base + case["now"], 0)
        saved = dtmod.time
        dtmod.time = self.clock
        try:
            self.run(case)
        finally:
            dtmod.time = saved

    def run(self, case):
        zone = tzmodel.Zone(case["zone"], 2045)
        install_zone(zone)
        self.off = zone.offset_utc(self.base)
        self.owners = copy.deepcopy(case["owners"])
        for o in self.owners:
            o["s"] += self.base
            for a in o["alarms"]:
                if "abs" in a["t"]:
                    a["t"]["abs"] += self.base
                a["last"], a["done"], a["fired"] = None, False, []
        self.cal = self.load(self.owners)
        self.did = []
        self.op_save(None)
        for op in case["ops"]:
            self.did.append(op["op"])
            getattr(self, "op_" + op["op"])(op)
            self.ctx.ev(op["op"], self.now())

    def now(self):
        return int(self.clock.now)

    def fail(self, kind, msg):
        self.ctx.fail(kind, "at %s: %s; after %s" % (D.fmtsec(self.now(), True), msg, " ".join(self.did)))

    def lib_owner(self, o):
        return [l for l in self.cal.getComponents(o["c"]) if l.getUID() == o["uid"]][0]

    def lib_alarm(self, o, j):
        got = [l for l in self.lib_owner(o).getComponents("VALARM") if l.getPropertyString("X-N") == str(j)]
        if len(got) != 1:
            self.fail("alarm", "%d of one alarm" % (len(got),))
        return got[0]

    def each(self):
        for o in self.owners:
            for j, a in enumerate(o["alarms"]):
                yield o, j, a

    def times(self, o, a):
        t = a["t"]
        first = t["abs"] if "abs" in t else o["s"] + (o["dur"] if t["end"] else 0) + t["by"]
        return [first + k * a["r"]["every"] for k in range(a["r"]["n"] + 1)]

    def text(self, o, a):
        return "times %s, last %s" % (" ".join(D.fmtsec(t, True) for t in self.times(o, a)), a["last"] and D.fmtsec(a["last"], True))

    # -- the clock

    def op_tick(self, op):
        self.clock.now += op["s"]
        self.ctx.elapse(op["s"])
        self.ctx.fault("clock went back" if op["s"] < 0 else "clock went on")

    def op_aim(self, op):
        """ to just about the next time of one of the alarms """
        ts = sorted([t for o, _j, a in self.each() for t in self.times(o, a) if t > self.now()])
        if ts:
            to = ts[min(len(ts) - 1, op["x"] % 7 // 4)] + op["d"]
            if op["d"] >= DAY:
                self.ctx.fault("program was stalled for more than a day")
            self.ctx.elapse(to - self.now())
            self.clock.now = to
        if op["poll"]:
            self.op_poll(op)

    def op_back(self, op):
        """ to before a time which was triggered """
        ts = [(t, a["last"]) for o, _j, a in self.each() if a["last"] is not None for t in self.times(o, a) if t <= a["last"]]
        if ts:
            t, last = ts[op["x"] % len(ts)]
            to = t + [0, 1, 0, -1][op["x"] // 7 % 4]
            self.ctx.elapse(to - self.now())
            self.clock.now = to
            self.ctx.fault("clock went back to before an alarm went off")

    # -- asking

    def expect(self, o, a):
        """ the times it may say come next; None is that there are none """
        ts, now, last = self.times(o, a), self.now(), a["last"]
        if a["done"]:
            return [None]
        past = [t for t in ts if t <= now]
        if past and now - past[-1] <= DAY and (last is None or past[-1] > last):
            return [past[-1]]
        floor = now if last is None else max(now, last)
        due = [t for t in ts if t > floor]
        out = [t for t in ts if t > now and not [u for u in due if u < t]]
        return out if due else out + [None]

    def asked(self, o, j, a):
        l = self.lib_alarm(o, j)
        before = world.text_of(self.cal)
        dt = DateTime()
        l.getNextTrigger(dt)
        got = dt.getPosixTime() if l.getAlarmStatus() == PENDING else None
        want = self.expect(o, a)
        if got not in want:
            self.fail("next", "the alarm with %s says %s comes next, should be %s" % (self.text(o, a), got and D.fmtsec(got, True), [w and D.fmtsec(w, True) for w in want]))
        if world.text_of(self.cal) != before:
            self.fail("text", "asking changed the calendar")
        self.ctx.fp(self.did[-2:], a["last"] is None, a["r"]["n"], len(a["fired"]), got is None, "abs" in a["t"], (self.now() - (got or 0)) // 3600 if got and got <= self.now() else -1)
        return l, dt, got

    def op_ask(self, op):
        for o, j, a in self.each():
            self.asked(o, j, a)

    def op_poll(self, op):
        """ as a program does which minds the alarms """
        for o, j, a in self.each():
            l, dt, got = self.asked(o, j, a)
            if got is None or got > self.now():
                continue
            if got in a["fired"]:
                self.fail("twice", "the alarm with %s goes off again for %s" % (self.text(o, a), D.fmtsec(got, True)))
            a["fired"].append(got)
            self.ctx.probe("went off")
            ts = self.times(o, a)
            more = l.alarmTriggered(dt)
            k = ts.index(got)
            a["last"] = got
            a["done"] = k == len(ts) - 1
            if more != (not a["done"]):
                self.fail("more", "the alarm with %s went off for %s, and says there are %s to come" % (self.text(o, a), D.fmtsec(got, True), "more" if more else "none"))
            if more and dt.getPosixTime() != ts[k + 1]:
                self.fail("more", "the alarm with %s went off for %s, and says %s comes next" % (self.text(o, a), D.fmtsec(got, True), dt))
            if (l.getAlarmStatus() == DONE) != a["done"]:
                self.fail("more", "status %s" % (l.getAlarmStatus(),))

    # -- the program is stopped and started

    def op_save(self, op):
        self.saved = world.text_of(self.cal), copy.deepcopy(self.owners)

    def op_crash(self, op):
        """ what was not saved is lost """
        self.cal, self.owners = Calendar.parseText(self.saved[0]), copy.deepcopy(self.saved[1])
        self.ctx.fault("stopped, what was not saved is lost")

    def op_reread(self, op):
        self.cal = Calendar.parseText(world.text_of(self.cal))
        self.ctx.fault("saved and started again")

    def op_dup(self, op):
        self.cal = self.cal.duplicate()

    # -- edits

    def op_move(self, op):
        o = self.owners[op["x"] % len(self.owners)]
        s = self.base + op["s"]
        l = self.lib_owner(o)
        if op["x"] % 2:
            l.editTimingStartEnd(self.dt(o["k"], s), self.dt(o["k"], s + op["dur"]))
        else:
            l.editTimingStartDuration(self.dt(o["k"], s), Duration(duration=op["dur"]))
        o["s"], o["dur"] = s, op["dur"]
        for a in o["alarms"]:
            if "abs" not in a["t"]:
                a["fired"] = []

    def some(self, op):
        al = list(self.each())
        return al[op["x"] % len(al)]

    def op_trigger(self, op):
        o, j, a = self.some(op)
        l = self.lib_alarm(o, j)
        t = dict(op["t"])
        if "abs" in t:
            t["abs"] += self.base
            l.editTriggerOn(self.dt("utc", t["abs"]))
        else:
            l.editTriggerBy(Duration(duration=t["by"]), not t["end"])
        a["t"], a["fired"] = t, []

    def op_repeat(self, op):
        o, j, a = self.some(op)
        self.lib_alarm(o, j).editRepeats(op["r"]["n"], Duration(duration=op["r"]["every"]))
        a["r"] = op["r"]

    def op_rearm(self, op):
        o, j, a = self.some(op)
        l = self.lib_alarm(o, j)
        l.editStatus(PENDING)
        a["done"] = False
        l.removeProperties(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
        l.finalise()
        a["last"], a["fired"] = None, []


SCENARIO = P21()
