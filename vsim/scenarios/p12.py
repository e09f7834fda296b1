"""
P12: edits made through the API are what an object answers and what it writes.
"""
import copy
from vsim import core, dates as D, docs, rrule as R, tzmodel, world
from vsim.docs import P
from vsim.gen import gen_rule, gen_day, gen_tod, horizon
from vsim.lib import LibScenario, make_dt, dt_desc, dt_wall, install_zone
import pycalendar.datetime as dtmod
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar import definitions as defs
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.period import Period

ZONE = "Sim/Z"
EVSTATUS = [("NONE", defs.eStatus_VEvent_None), ("TENTATIVE", defs.eStatus_VEvent_Tentative), ("CONFIRMED", defs.eStatus_VEvent_Confirmed), ("CANCELLED", defs.eStatus_VEvent_Cancelled)]
TDSTATUS = [("NONE", defs.eStatus_VToDo_None), ("NEEDS-ACTION", defs.eStatus_VToDo_NeedsAction), ("COMPLETED", defs.eStatus_VToDo_Completed),
            ("IN-PROCESS", defs.eStatus_VToDo_InProcess), ("CANCELLED", defs.eStatus_VToDo_Cancelled)]
ALSTATUS = [("PENDING", defs.eAlarm_Status_Pending), ("COMPLETED", defs.eAlarm_Status_Completed), ("DISABLED", defs.eAlarm_Status_Disabled)]
TIMING = ["DTSTART", "DTEND", "DURATION", "DUE"]
RECUR = ["RRULE", "RDATE", "EXDATE"]


class Clock(object):
    """ stands in for the time module """

    def __init__(self, now, zone):
        self.now = now
        self.zone = zone

    def time(self):
        return float(self.now)

    def _tm(self, s):
        class T(object):
            pass
        t = T()
        t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec = D.wall(s)
        return t

    def gmtime(self, s=None):
        return self._tm(int(self.now if s is None else s))

    def localtime(self, s=None):
        return self._tm(int(self.now if s is None else s) + self.zone)


def gen_start(rnd, kinds=("floating", "utc", "date", "local", "local")):
    k = rnd.choice(list(kinds))
    s = D.secs(gen_day(rnd, 2008, 2016) + ((0, 0, 0) if k == "date" else gen_tod(rnd)))
    v = {"k": k, "s": s}
    if k == "local":
        v["tz"] = ZONE
    return v


def gen_end(rnd, st):
    """ mostly after the start, sometimes on or before it """
    unit = 86400 if st["k"] == "date" else 900
    n = rnd.weighted([(rnd.between(1, 12), 8), (1, 3), (0, 1), (-rnd.between(1, 5), 1)])
    return dict(st, s=st["s"] + n * unit)


def gen_dur(rnd, st):
    if st["k"] == "date":
        return 86400 * rnd.choice([1, 1, 2, 3, 7, 14])
    return rnd.choice([900, 3600, 86400, 604800, 90000, 1, 59])


def gen_set(rnd, st):
    """ properties of a recurrence set for something that starts then """
    out = []
    for _i in range(rnd.weighted([(0, 2), (1, 6), (2, 2)])):
        rule = gen_rule(rnd, st["k"] == "date", sub=False)
        r = {"rule": rule}
        k = rnd.below(3)
        if k == 0:
            rule["count"] = rnd.between(1, 20)
        elif k == 1:
            r["until"] = D.fmtsec(st["s"] + rnd.between(0, horizon(rule)), st["k"] in ("utc", "local"), st["k"] == "date")
        out.append(P("RRULE", "recur", r))
    if rnd.chance(40):
        out.append(P("RDATE", "dtlist", [dict(st, s=st["s"] + 86400 * rnd.between(1, 300)) for _i in range(rnd.between(1, 3))]))
    if rnd.chance(25) and st["k"] != "date":
        out.append(P("RDATE", "periodlist", [[dict(st, s=st["s"] + 86400 * rnd.between(1, 300)), rnd.choice([3600, 7200]), rnd.chance(50)] for _i in range(rnd.between(1, 2))]))
    if rnd.chance(40):
        out.append(P("EXDATE", "dtlist", [dict(st, s=st["s"] + 86400 * rnd.between(1, 300)) for _i in range(rnd.between(1, 3))]))
    return out


def gen_action(rnd):
    a = rnd.choice(["AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"])
    d = {"a": a}
    if a == "AUDIO":
        d["t"] = rnd.choice([None, docs.gen_text(rnd)])
    elif a == "DISPLAY":
        d["t"] = docs.gen_text(rnd)
    elif a == "EMAIL":
        d["t"], d["s"] = docs.gen_text(rnd), docs.gen_text(rnd)
        d["w"] = ["mailto:user%02d@example.com" % rnd.below(20) for _i in range(rnd.between(1, 3))]
    elif a == "URI":
        d["t"] = "http://example.com/%d" % rnd.below(50)
    return d


def action_props(d):
    a = d["a"]
    out = [P("ACTION", "text", a)]
    if a == "AUDIO":
        if d["t"] is not None:
            out.append(P("X-MULBERRY-SPEAK-TEXT", "text", d["t"]))
    elif a == "DISPLAY":
        out.append(P("DESCRIPTION", "text", d["t"]))
    elif a == "EMAIL":
        out += [P("DESCRIPTION", "text", d["t"]), P("SUMMARY", "text", d["s"])] + [P("ATTENDEE", "cal", w) for w in d["w"]]
    elif a == "URI":
        out.append(P("URL", "uri", d["t"]))
    return out


def gen_put(rnd, kind, st):
    """ a property some program adds by itself """
    c = [P("SUMMARY", "text", docs.gen_text(rnd)), P("SEQUENCE", "int", rnd.below(9)), P("DESCRIPTION", "text", docs.gen_text(rnd)), P("LOCATION", "text", docs.gen_text(rnd)),
         P("X-SIM-1", "raw", "v%d" % rnd.below(9))]
    if kind == "VEVENT":
        c += [P("STATUS", "text", rnd.choice(["TENTATIVE", "CONFIRMED", "CANCELLED"]))] * 2
        c += gen_set(rnd, st)
    elif kind == "VTODO":
        c += [P("STATUS", "text", rnd.choice([i[0] for i in TDSTATUS[1:]]))] * 2
        c += [P("PRIORITY", "int", rnd.below(10)), P("PERCENT-COMPLETE", "int", rnd.below(101)), P("COMPLETED", "dt", docs.stamp(rnd)), P("DUE", "dt", dict(st, s=st["s"] + 86400))]
    elif kind == "VJOURNAL":
        c += gen_set(rnd, st)
    elif kind == "VFREEBUSY":
        c = [P("FREEBUSY", "periodlist", [[{"k": "utc", "s": D.secs(gen_day(rnd, 2008, 2016) + gen_tod(rnd))}, 3600 * rnd.between(1, 50), rnd.chance(50)] for _i in range(rnd.between(1, 3))],
               rnd.choice([[], [], [["FBTYPE", ["BUSY-TENTATIVE"]]], [["FBTYPE", ["FREE"]]], [["FBTYPE", ["BUSY-UNAVAILABLE"]]]])) for _i in range(3)] + [P("X-SIM-1", "raw", "z")]
    elif kind == "VALARM":
        c = [P("TRIGGER", "dur", rnd.choice([-900, -3600, 600]), rnd.choice([[], [["RELATED", ["END"]]], [["RELATED", ["START"]]]])), P("TRIGGER", "dt", docs.stamp(rnd)),
             P("REPEAT", "int", rnd.between(1, 5)), P("DURATION", "dur", 300), P("ACTION", "text", rnd.choice(["AUDIO", "DISPLAY", "NONE"])), P("DESCRIPTION", "text", docs.gen_text(rnd)),
             P("X-MULBERRY-ALARM-STATUS", "raw", rnd.choice([i[0] for i in ALSTATUS]))]
    elif kind == "VCALENDAR":
        c = [P("X-WR-CALNAME", "raw", "n%d" % rnd.below(9)), P("X-WR-CALDESC", "raw", "d%d" % rnd.below(9)), P("METHOD", "text", "PUBLISH")]
    return rnd.choice(c)


DROPS = {
    "VEVENT": ["SUMMARY", "SEQUENCE", "DESCRIPTION", "LOCATION", "STATUS", "RRULE", "RDATE", "EXDATE", "DTEND", "DURATION"],
    "VTODO": ["SUMMARY", "SEQUENCE", "STATUS", "PRIORITY", "PERCENT-COMPLETE", "COMPLETED", "DUE", "DURATION"],
    "VJOURNAL": ["SUMMARY", "SEQUENCE", "DESCRIPTION", "RRULE", "RDATE", "EXDATE"],
    "VFREEBUSY": ["FREEBUSY", "DTEND", "DURATION", "SEQUENCE"],
    "VALARM": ["ACTION", "TRIGGER", "REPEAT", "DURATION", "DESCRIPTION", "X-MULBERRY-ALARM-STATUS"],
    "VCALENDAR": ["X-WR-CALNAME", "X-WR-CALDESC", "METHOD"],
}
OPS = {
    "VEVENT": [("summary", 2), ("details", 2), ("untime", 1), ("startend", 3), ("startdur", 3), ("recur", 3), ("exclude", 3), ("future", 3), ("status", 4), ("seq", 1), ("stamp", 1), ("put", 3), ("drop", 3)],
    "VTODO": [("summary", 2), ("details", 2), ("untime", 1), ("due", 3), ("startend", 2), ("startdur", 3), ("status", 7), ("completed", 2), ("seq", 1), ("stamp", 1), ("put", 3), ("drop", 3)],
    "VJOURNAL": [("summary", 2), ("details", 2), ("recur", 3), ("exclude", 2), ("future", 2), ("seq", 1), ("put", 3), ("drop", 2)],
    "VFREEBUSY": [("untime", 1), ("startend", 3), ("startdur", 3), ("seq", 1), ("put", 3), ("drop", 3)],
    "VALARM": [("astatus", 3), ("action", 4), ("trigon", 2), ("trigby", 3), ("repeats", 3), ("put", 3), ("drop", 3)],
    "VCALENDAR": [("name", 3), ("desc", 3), ("put", 1), ("drop", 1)],
}


def gen_op(rnd, target, kind):
    k = rnd.weighted(OPS[kind])
    op = {"op": k, "t": target}
    if k in ("startend", "startdur", "due"):
        op["st"] = gen_start(rnd)
        op["en"] = gen_end(rnd, op["st"])
        op["du"] = gen_dur(rnd, op["st"])
        op["share"] = rnd.chance(25)
    elif k == "recur":
        op["set"] = rnd.below(1 << 30)
        op["share"] = rnd.chance(20)
    elif k in ("exclude", "future"):
        op["i"], op["off"] = rnd.below(40), rnd.choice([0, 0, 1, -1])
    elif k == "status":
        op["x"] = rnd.below(20)
    elif k == "astatus":
        op["x"] = rnd.below(3)
    elif k == "seq":
        op["x"] = rnd.below(30)
    elif k == "completed":
        op["dt"] = gen_start(rnd, ("utc", "local"))
    elif k == "action":
        op["d"] = gen_action(rnd)
    elif k == "trigon":
        op["dt"] = docs.stamp(rnd)
    elif k == "trigby":
        op["du"], op["x"] = rnd.choice([-900, -3600, 0, 600, -86400, -604800]), rnd.chance(50)
    elif k == "repeats":
        op["n"], op["du"] = rnd.below(5), rnd.choice([60, 300, 3600])
    elif k in ("summary", "details"):
        op["s"], op["s2"] = [rnd.weighted([(docs.gen_text(rnd), 5), ("", 1)]) for _i in range(2)]
    elif k in ("name", "desc"):
        op["s"] = rnd.choice(["", "one", "two three", "T-%d" % rnd.below(30)])
    elif k == "put":
        op["seed"] = rnd.below(1 << 30)
    elif k == "drop":
        op["n"] = rnd.choice(DROPS[kind])
    return op


def gen_comp(rnd, i):
    kind = rnd.weighted([("VEVENT", 5), ("VTODO", 4), ("VJOURNAL", 1), ("VFREEBUSY", 2)])
    st = gen_start(rnd)
    props = [P("UID", "text", "u%d" % i), P("DTSTAMP", "dt", docs.stamp(rnd))]
    if kind in ("VEVENT", "VJOURNAL") or rnd.chance(70):
        props.append(P("DTSTART", "dt", st))
        if kind != "VJOURNAL" and rnd.chance(70):
            if rnd.chance(50):
                props.append(P("DUE" if kind == "VTODO" else "DTEND", "dt", dict(st, s=st["s"] + rnd.between(1, 5) * 86400)))
            else:
                props.append(P("DURATION", "dur", gen_dur(rnd, st)))
    if kind in ("VEVENT", "VJOURNAL") and rnd.chance(60):
        props += gen_set(rnd, st)
    for _i in range(rnd.below(4)):
        p = gen_put(rnd, kind, st)
        if p["n"] not in [q["n"] for q in props]:
            props.append(p)
    kids = [docs.gen_alarm(rnd) for _i in range(rnd.below(3))] if kind in ("VEVENT", "VTODO") else []
    return {"n": kind, "p": props, "c": kids}


def norm(line):
    """ the order of parameters is nobody's business """
    head, value = line.split(":", 1)
    if '"' in head:
        return line
    parts = head.split(";")
    return ";".join(parts[:1] + sorted(parts[1:])) + ":" + value


class P12(LibScenario):
    prop = "P12"

    def generate(self, rnd, tier):
        comps = [gen_comp(rnd, i) for i in range(rnd.between(1, 3))]
        targets = [([], "VCALENDAR")]
        for i, c in enumerate(comps):
            targets += [([i], c["n"])] * 3
            targets += [([i, j], "VALARM") for j in range(len(c["c"]))] * 2
        ops = []
        hot = rnd.choice(targets)
        for _i in range(rnd.between(4, 16)):
            if rnd.chance(15):
                ops.append({"op": "tick", "s": rnd.choice([1, 3600, 86400, 86400 * 40, -86400])})
            elif rnd.chance(12):
                ops.append({"op": "dup" if rnd.chance(50) else "reread"})
            else:
                t = hot if rnd.chance(50) else rnd.choice(targets)
                ops.append(gen_op(rnd, t[0], t[1]))
        return {"zone": tzmodel.gen_zone(rnd, ZONE), "comps": comps, "ops": ops, "now": D.secs((2012, 1, 1, 0, 0, 0)) + rnd.below(3 * 366 * 86400), "tzoff": rnd.choice([0, 3600, -18000, 43200])}

    def simplify(self, case):
        for i in range(len(case["comps"])):
            for j in range(len(case["comps"][i]["p"])):
                if case["comps"][i]["p"][j]["n"] not in ("UID", "DTSTAMP", "DTSTART"):
                    c = copy.deepcopy(case)
                    del c["comps"][i]["p"][j]
                    yield c
            for op in [o for o in case["ops"] if o.get("t") and o["t"][0] == i]:
                break
            else:
                if len(case["comps"]) == i + 1 and i:
                    c = copy.deepcopy(case)
                    del c["comps"][i]
                    yield c

    def execute(self, case, ctx):
        self.ctx = ctx
        self.clock = Clock(case["now"], case["tzoff"])
        saved = dtmod.time
        dtmod.time = self.clock
        try:
            self.run(case)
        finally:
            dtmod.time = saved

    def run(self, case):
        ctx = self.ctx
        install_zone(tzmodel.Zone(case["zone"], 2045))
        doc = {"n": "VCALENDAR", "p": [P("VERSION", "text", "2.0"), P("PRODID", "text", "-//v//EN")], "c": case["comps"]}
        self.cal = Calendar.parseText(docs.plain_text(doc))
        self.index()
        self.did = []
        self.agree()
        kinds = []
        for op in case["ops"]:
            k = op["op"]
            if k == "tick":
                self.clock.now += op["s"]
                ctx.elapse(op["s"])
                ctx.fault("clock jump" if op["s"] < 0 or op["s"] > 86400 else "clock")
            elif k == "dup":
                old = self.snap(self.cal)
                self.cal = self.cal.duplicate()
                self.same("copy", old, self.snap(self.cal), "a copy answers")
                self.index()
            elif k == "reread":
                self.cal = Calendar.parseText(world.text_of(self.cal))
                self.index()
            else:
                obj = self.find(op["t"])
                if obj is None:
                    continue
                self.one(op, obj)
            self.did.append(k if k not in ("put", "drop") else k + ":" + (op.get("n") or ""))
            self.agree()
            ctx.ev(k, self.lines(self.cal))
            kinds.append(k)
            ctx.fp(kinds[-3:], op.get("t") and self.find(op["t"]).getType(), sorted(set([l.split(":")[0].split(";")[0] for l in self.deep(self.cal)])))

    # -- objects

    def index(self):
        """ components by UID, alarms by the order their texts have """
        self.comps = {}
        for c in self.cal.getComponents():
            if c.getType() != "VTIMEZONE":
                kids = sorted(c.getComponents(), key=lambda a: str(a))
                self.comps[c.getUID()] = (c, kids)

    def find(self, t):
        if not t:
            return self.cal
        hit = self.comps.get("u%d" % t[0])
        if hit is None:
            return None
        if len(t) == 1:
            return hit[0]
        return hit[1][t[1] % len(hit[1])] if hit[1] else None

    def lines(self, obj):
        out = []
        for ps in obj.getProperties().values():
            for p in ps:
                out.append(norm(str(p).replace("\r\n ", "").rstrip("\r\n")))
        return sorted(out)

    def deep(self, obj):
        out = self.lines(obj)
        for c in obj.getComponents():
            out += self.deep(c)
        return out

    # -- what is answered

    def snap(self, o, known=None):
        """ with everything in it """
        s = dict(known[id(o)] if known is not None else self.flat(o))
        kids = [c for c in o.getComponents() if c.getType() != "VTIMEZONE"]
        s["kids"] = sorted([self.snap(c, known) for c in kids], key=lambda x: x["lines"])
        return s

    def flat(self, o):
        s = {"type": o.getType(), "lines": self.lines(o)}
        t = o.getType()
        if t == "VCALENDAR":
            s.update({"name": o.getName(), "description": o.getDescription(), "method": o.getMethod()})
            return s
        if t == "VALARM":
            a = o.getActionData()
            s["action"] = [o.getAction(), a.getType(), sorted([(k, repr(v)) for k, v in a.__dict__.items()])]
            s["trigger"] = [o.isTriggerAbsolute(), dt_desc(o.getTriggerOn()) if o.isTriggerAbsolute() else [o.getTriggerDuration().getText(), o.isTriggerOnStart()]] if o.hasProperty("TRIGGER") else None
            s["repeat"] = [o.getRepeats(), o.getInterval().getText() if o.getRepeats() else None]
            s["status"] = o.getAlarmStatus()
            return s
        s["uid"], s["sequence"] = o.getUID(), o.getSeq()
        if t in ("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY"):
            s["has"] = [o.hasStart(), o.hasEnd()]
            s["start"] = dt_desc(o.getStart()) if o.hasStart() else None
            s["end"] = dt_desc(o.getEnd()) if o.hasStart() or (o.hasEnd() and not o.hasProperty("DURATION")) else None
            s["duration used"] = o.useDuration()
        if t in ("VEVENT", "VTODO", "VJOURNAL"):
            s["summary"], s["description"], s["location"] = o.getSummary(), o.getDescription(), o.getLocation()
            s["stamp"] = dt_desc(o.getStamp()) if o.hasStamp() else None
            s["instance"] = [o.isRecurrenceInstance(), dt_desc(o.getRecurrenceID()), o.isAdjustFuture(), o.isAdjustPrior()]
            s["recurring"] = o.isRecurring()
            r = o.getRecurrenceSet()
            if o.isRecurring():
                s["set"] = self.set_of(r)
                s["ui"] = [r.isSimpleUI(), r.isAdvancedUI(), r.getUIDescription()]
            if o.hasStart():
                s["instances"] = self.instances(o)
        if t == "VEVENT":
            s["status"] = o.getStatus()
        if t == "VTODO":
            s["status"] = [o.getStatus(), o.getCompletionState(), o.getStatusText()]
            s["priority"] = o.getPriority()
            s["completed"] = dt_desc(o.getCompleted()) if o.hasCompleted() else None
        if t == "VFREEBUSY":
            out = []
            o.expandPeriodFB(Period(DateTime(2000, 1, 1), DateTime(2030, 1, 1)), out)
            s["busy"] = sorted([(f.getType(), f.getPeriod().getText()) for f in out])
        return s

    def set_of(self, r):
        return [sorted([x.getText() for x in r.getRules()]), sorted([x.getText() for x in r.getExrules()]), sorted([dt_desc(x) for x in r.getDates()]), sorted([dt_desc(x) for x in r.getExdates()]),
                sorted([x.getText() for x in r.getPeriods()]), sorted([x.getText() for x in r.getExperiods()])]

    def instances(self, o):
        """ from its recurrence set, the first two years """
        if not o.isRecurring():
            return [dt_desc(o.getStart())]
        st = o.getStart()
        end = st.duplicate()
        end.offsetYear(2)
        items = []
        lo = st.duplicate()
        lo.offsetDay(-1)
        o.getRecurrenceSet().expand(st, Period(lo, end), items)
        return [dt_desc(i) for i in items]

    def diff(self, a, b, path=""):
        if isinstance(a, dict) and isinstance(b, dict):
            out = []
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    out += self.diff(a.get(k), b.get(k), path + "/" + k)
            return out
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and path.endswith("kids"):
            out = []
            for x, y in zip(a, b):
                out += self.diff(x, y, path + "/" + x["type"]) if x != y else []
            return out
        if isinstance(a, list) and isinstance(b, list) and (path.endswith("lines") or path.endswith("instances")):
            return ["%s: %s / %s" % (path, [x for x in a if x not in b][:4], [x for x in b if x not in a][:4])]
        return ["%s: %r / %r" % (path, a, b)]

    def same(self, kind, a, b, what):
        if a != b:
            self.ctx.fail(kind, "%s something else (was / is): %s; after %s" % (what, "; ".join(self.diff(a, b))[:900], " ".join(self.did)))

    def agree(self):
        text = world.text_of(self.cal)
        other = Calendar.parseText(text)
        self.state = self.flats()
        self.same("reread", self.snap(self.cal, self.state), self.snap(other), "the object answers this, read back from its text")
        again = world.text_of(other)
        if again != text:
            self.ctx.fail("text", "the text of what was read back is different; after %s:\n%s\n%s" % (" ".join(self.did), text, again))

    # -- edits

    def objects(self):
        out = [self.cal]
        for uid in sorted(self.comps):
            out += [self.comps[uid][0]] + self.comps[uid][1]
        return out

    def flats(self):
        return dict([(id(o), self.flat(o)) for o in self.objects()])

    def one(self, op, obj):
        k = op["op"]
        before = self.lines(obj)
        self.args = []
        res = getattr(self, "op_" + k)(op, obj)
        if res is None:
            return
        names, new = res
        self.did.append("%s(%s)" % (k, obj.getType()))
        after = self.lines(obj)
        want = sorted([l for l in before if l.split(":")[0].split(";")[0] not in names] + [norm(l) for l in new])
        self.did.pop()
        if after != want:
            self.ctx.fail("edit", "%s of a %s leaves the properties %s, should be %s; after %s" % (
                k, obj.getType(), [l for l in after if l not in want], [l for l in want if l not in after], " ".join(self.did)))
        for o in self.objects():
            if o is not obj:
                now = self.flat(o)
                was = self.state[id(o)]
                if now != was:
                    self.ctx.fail("elsewhere", "%s of a %s changed something else: %s; after %s" % (k, obj.getType(), "; ".join(self.diff(was, now))[:900], " ".join(self.did)))
        for a, was in self.args:
            if a.getText() != was:
                self.ctx.fail("argument", "%s of a %s changed a value it was given from %s to %s; after %s" % (k, obj.getType(), was, a.getText(), " ".join(self.did)))

    def arg(self, x):
        self.args.append((x, x.getText()))
        return x

    def expect(self, what, got, want, obj):
        if got != want:
            self.ctx.fail("answer", "%s of a %s is %r after setting it to %r; after %s" % (what, obj.getType(), got, want, " ".join(self.did)))

    def op_put(self, op, o):
        st = {"k": "utc", "s": D.secs((2012, 5, 5, 10, 0, 0))}
        if o.getType() != "VCALENDAR" and o.getType() != "VALARM" and o.hasStart():
            st = self.spec(o.getStart())
        p = gen_put(core.Rnd(op["seed"]), o.getType(), st)
        multi = p["n"] in ("RDATE", "EXDATE", "FREEBUSY", "X-SIM-1")
        # a to-do has one of these
        also = {"DUE": ["DURATION"], "DURATION": ["DUE"] if o.getType() == "VTODO" else []}.get(p["n"], [])
        names = ([] if multi else [p["n"]]) + also
        for n in names:
            o.removeProperties(n)
        o.addProperty(Property.parseText(docs.prop_line(p)))
        o.finalise()
        return names, [docs.prop_line(p)]

    def op_drop(self, op, o):
        if not o.hasProperty(op["n"]):
            return None
        o.removeProperties(op["n"])
        o.finalise()
        return [op["n"]], []

    def op_summary(self, op, o):
        o.editSummary(op["s"])
        self.expect("summary", o.getSummary() or "", op["s"], o)
        return ["SUMMARY"], [docs.prop_line(P("SUMMARY", "text", op["s"]))] if op["s"] else []

    def op_details(self, op, o):
        o.editDetails(op["s"], op["s2"])
        self.expect("description", o.getDescription(), op["s"], o)
        self.expect("location", o.getLocation(), op["s2"], o)
        return ["DESCRIPTION", "LOCATION"], [docs.prop_line(P(n, "text", s)) for n, s in (("DESCRIPTION", op["s"]), ("LOCATION", op["s2"])) if s]

    def op_name(self, op, o):
        o.editName(op["s"])
        self.expect("name", o.getName(), op["s"], o)
        return ["X-WR-CALNAME"], ["X-WR-CALNAME:" + op["s"]] if op["s"] else []

    def op_desc(self, op, o):
        o.editDescription(op["s"])
        self.expect("description", o.getDescription(), op["s"], o)
        return ["X-WR-CALDESC"], ["X-WR-CALDESC:" + op["s"]] if op["s"] else []

    def op_seq(self, op, o):
        o.setSeq(op["x"])
        self.expect("sequence", o.getSeq(), op["x"], o)
        return ["SEQUENCE"], ["SEQUENCE:%d" % op["x"]]

    def op_stamp(self, op, o):
        o.initDTSTAMP()
        o.updateLastModified()
        now = D.fmtsec(self.clock.now, True)
        self.expect("stamp", o.getStamp().getText(), now, o)
        return ["DTSTAMP", "LAST-MODIFIED"], ["DTSTAMP:" + now, "LAST-MODIFIED:" + now]

    def spec(self, dt):
        k = "date" if dt.isDateOnly() else "utc" if dt.utc() else "local" if dt.local() else "floating"
        v = {"k": k, "s": dt_wall(dt)}
        if k == "local":
            v["tz"] = dt.getTimezoneID()
        return v

    def op_untime(self, op, o):
        if o.getType() == "VEVENT" and o.isRecurring():
            return None
        o.editTiming()
        self.expect("start and end", [o.hasStart(), o.hasEnd()], [False, False], o)
        return TIMING, []

    def lender(self, op, o):
        """ another component, whose values are passed on """
        if op["share"]:
            for uid in sorted(self.comps):
                c = self.comps[uid][0]
                if c is not o and c.getType() in ("VEVENT", "VTODO", "VFREEBUSY") and c.hasStart():
                    return c
        return None

    def op_startend(self, op, o):
        self.mixed(op, o)
        endname = "DUE" if o.getType() == "VTODO" else "DTEND"
        st, en = make_dt(op["st"]["k"], op["st"]["s"], ZONE), make_dt(op["en"]["k"], op["en"]["s"], ZONE)
        c = self.lender(op, o)
        if c is not None and c.hasEnd() and c.getEnd() > c.getStart() and c.getStart().isDateOnly() == c.getEnd().isDateOnly():
            st, en = c.getStart(), c.getEnd()
        late = en > st
        self.arg(st)
        self.arg(en)
        o.editTimingStartEnd(st, en)
        self.expect("start", dt_desc(o.getStart()), dt_desc(st), o)
        if late:
            self.expect("end", dt_desc(o.getEnd()), dt_desc(en), o)
        elif not o.getEnd() > o.getStart():
            self.ctx.fail("answer", "the end of a %s is not after its start; after %s" % (o.getType(), " ".join(self.did)))
        out = [docs.prop_line(P("DTSTART", "dt", self.spec(st)))]
        for name in (endname,):
            if o.hasProperty(name):
                # an end that makes no sense is replaced, and for one day no end is needed: reading it again tells whether it is right
                line = norm(str(o.getProperties(name)[0]).replace("\r\n ", "").rstrip("\r\n"))
                if late:
                    self.expect(name, line, norm(docs.prop_line(P(name, "dt", self.spec(en)))), o)
                out.append(line)
        return TIMING + RECUR, out

    def mixed(self, op, o):
        """ dates and times other than those of the start in a recurrence set make no sense: drop them first """
        if o.getType() in ("VEVENT", "VJOURNAL") and o.isRecurring():
            o.editRecurrenceSet(RecurrenceSet())
            for n in RECUR:
                if o.hasProperty(n):
                    self.ctx.fail("edit", "an empty recurrence set leaves %s; after %s" % (n, " ".join(self.did)))

    def op_startdur(self, op, o):
        self.mixed(op, o)
        st, du = make_dt(op["st"]["k"], op["st"]["s"], ZONE), self.arg(Duration(duration=op["du"]))
        c = self.lender(op, o)
        if c is not None and c.getStart().isDateOnly() == (op["st"]["k"] == "date"):
            st = c.getStart()
        self.arg(st)
        o.editTimingStartDuration(st, du)
        self.expect("start", dt_desc(o.getStart()), dt_desc(st), o)
        self.expect("end", dt_desc(o.getEnd()), dt_desc(st + du), o)
        out = [docs.prop_line(P("DTSTART", "dt", self.spec(st)))]
        if o.hasProperty("DURATION") or not st.isDateOnly() or op["du"] != 86400 or o.getType() == "VTODO":
            out.append("DURATION:" + docs.dur_text(op["du"]))
        return TIMING + RECUR, out

    def op_due(self, op, o):
        due = make_dt(op["st"]["k"], op["st"]["s"], ZONE)
        c = self.lender(op, o)
        if c is not None:
            due = c.getStart()
        self.arg(due)
        o.editTimingDue(due)
        self.expect("due", [o.hasEnd(), dt_desc(o.getEnd())], [True, dt_desc(due)], o)
        return TIMING, [docs.prop_line(P("DUE", "dt", self.spec(due)))]

    def op_recur(self, op, o):
        if not o.hasStart():
            return None
        r = RecurrenceSet()
        lines = None
        if op["share"]:
            for uid in sorted(self.comps):
                c = self.comps[uid][0]
                if c is not o and c.getType() in ("VEVENT", "VJOURNAL") and c.isRecurring() and self.spec(c.getStart())["k"] == self.spec(o.getStart())["k"]:
                    r = c.getRecurrenceSet()
                    break
        if not r.hasRecurrence():
            for p in gen_set(core.Rnd(op["set"]), self.spec(o.getStart())):
                v = world.native(p)
                if p["k"] == "recur":
                    r.addRule(v)
                else:
                    for i in v:
                        (r.subtractDT if p["n"] == "EXDATE" else r.addPeriod if p["k"] == "periodlist" else r.addDT)(i)
        want = self.set_of(r)
        o.editRecurrenceSet(r)
        self.expect("recurrence set", self.set_of(o.getRecurrenceSet()) if o.isRecurring() else [[]] * 6, want, o)
        # how many properties the dates are spread over is nobody's business
        self.expect("properties", self.listed(o), want, o)
        return RECUR, [l for l in self.lines(o) if l.split(":")[0].split(";")[0] in RECUR]

    def listed(self, o):
        rules = [l.split(":", 1)[1] for l in self.lines(o) if l.startswith("RRULE")]
        out = [sorted(rules), [], [], [], [], []]
        for n, i in (("RDATE", 2), ("EXDATE", 3)):
            for p in o.getProperties(n):
                for v in p.getMultiValue().getValues():
                    v = v.getValue()
                    if isinstance(v, Period):
                        out[i + 2].append(v.getText())
                    else:
                        out[i].append(dt_desc(v))
        return [sorted(x) for x in out]

    def pick(self, op, o):
        if not o.hasStart() or not o.isRecurring():
            return None
        items = []
        st = o.getStart()
        end = st.duplicate()
        end.offsetYear(2)
        o.getRecurrenceSet().expand(st, Period(st, end), items)
        items = [i for i in items if i > st]
        if not items:
            return None
        x = items[op["i"] % len(items)].duplicate()
        if op["off"]:
            if x.isDateOnly():
                x.offsetDay(op["off"])
            else:
                x.offsetSeconds(op["off"])
        return x if x > st else None

    def op_exclude(self, op, o):
        x = self.pick(op, o)
        if x is None:
            return None
        before = self.instances(o)
        gone = dt_desc(x)
        o.excludeRecurrence(self.arg(x))
        self.expect("instances", self.instances(o), [i for i in before if i != gone], o)
        return [], [docs.prop_line(P("EXDATE", "dtlist", [self.spec(x)]))]

    def op_future(self, op, o):
        x = self.pick(op, o)
        if x is None:
            return None
        before = self.instances(o)
        keep = []
        items = []
        st = o.getStart()
        end = st.duplicate()
        end.offsetYear(2)
        lo = st.duplicate()
        lo.offsetDay(-1)
        o.getRecurrenceSet().expand(st, Period(lo, end), items)
        keep = [dt_desc(i) for i in items if i < x]
        if [dt_desc(i) for i in items] != before:
            raise core.HarnessError("instances")
        o.excludeFutureRecurrence(self.arg(x))
        self.expect("instances", self.instances(o), keep, o)
        return ["RRULE", "RDATE"], [l for l in self.lines(o) if l.split(":")[0].split(";")[0] in ("RRULE", "RDATE")]

    def op_status(self, op, o):
        table = EVSTATUS if o.getType() == "VEVENT" else TDSTATUS
        name, val = table[op["x"] % len(table)]
        was = o.getStatus()
        o.editStatus(val)
        self.expect("status", o.getStatus(), val, o)
        if was == val:
            return [], []
        names, out = ["STATUS"], [] if name == "NONE" else ["STATUS:" + name]
        if o.getType() == "VTODO":
            names.append("COMPLETED")
            if name == "COMPLETED":
                now = D.fmtsec(self.clock.now, True)
                out.append("COMPLETED:" + now)
                self.expect("completion time", dt_desc(o.getCompleted())[:16], now, o)
        return names, out

    def op_completed(self, op, o):
        dt = self.arg(make_dt(op["dt"]["k"], op["dt"]["s"], ZONE))
        utc = dt.duplicateAsUTC()
        o.editCompleted(dt)
        self.expect("completion time", [o.hasCompleted(), dt_desc(o.getCompleted())], [True, dt_desc(utc)], o)
        return ["COMPLETED"], ["COMPLETED:" + utc.getText()]

    def op_astatus(self, op, o):
        name, val = ALSTATUS[op["x"]]
        o.editStatus(val)
        self.expect("status", o.getAlarmStatus(), val, o)
        return [defs.cICalProperty_ALARM_X_ALARMSTATUS], ["%s:%s" % (defs.cICalProperty_ALARM_X_ALARMSTATUS, name)]

    def op_action(self, op, o):
        d = op["d"]
        a = d["a"]
        data = {"AUDIO": lambda: VAlarm.VAlarmAudio(d["t"]), "DISPLAY": lambda: VAlarm.VAlarmDisplay(d["t"]), "EMAIL": lambda: VAlarm.VAlarmEmail(d["t"], d["s"], list(d["w"])),
                "URI": lambda: VAlarm.VAlarmURI(d["t"]), "NONE": lambda: VAlarm.VAlarmNone()}[a]()
        names = ["ACTION"]
        # an action owns all of its properties, those it leaves out included
        for p in action_props(self.had(o)) + action_props({"a": a, "t": "", "s": "", "w": ["x"]}):
            names.append(p["n"])
        o.editAction(VAlarm.sActionMap[a], data)
        self.expect("action", o.getAction(), VAlarm.sActionMap[a], o)
        return names, [docs.prop_line(p) for p in action_props(d)]

    def had(self, o):
        a = dict([(v, k) for k, v in VAlarm.sActionMap.items()]).get(o.getAction(), "X")
        return {"a": a, "t": "", "s": "", "w": ["x"]}

    def op_trigon(self, op, o):
        dt = self.arg(make_dt(op["dt"]["k"], op["dt"]["s"]))
        o.editTriggerOn(dt)
        self.expect("trigger", [o.isTriggerAbsolute(), dt_desc(o.getTriggerOn())], [True, dt_desc(dt)], o)
        return ["TRIGGER"], [docs.prop_line(P("TRIGGER", "dt", op["dt"]))]

    def op_trigby(self, op, o):
        du = self.arg(Duration(duration=op["du"]))
        o.editTriggerBy(du, op["x"])
        self.expect("trigger", [o.isTriggerAbsolute(), o.getTriggerDuration().getTotalSeconds(), o.isTriggerOnStart()], [False, op["du"], op["x"]], o)
        return ["TRIGGER"], [docs.prop_line(P("TRIGGER", "dur", op["du"], [["RELATED", ["START" if op["x"] else "END"]]]))]

    def op_repeats(self, op, o):
        du = self.arg(Duration(duration=op["du"]))
        o.editRepeats(op["n"], du)
        self.expect("repeats", o.getRepeats(), op["n"], o)
        if op["n"]:
            self.expect("interval", o.getInterval().getTotalSeconds(), op["du"], o)
        return ["REPEAT", "DURATION"], ["REPEAT:%d" % op["n"], "DURATION:" + docs.dur_text(op["du"])] if op["n"] else []


SCENARIO = P12()
