"""
P20: the busy time of a calendar is that of the events and the free-busy data it holds now.
"""
import copy
from vsim import core, dates as D, tzmodel, world
from vsim.lib import LibScenario, make_dt, install_zone
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.icalendar.property import Property
from pycalendar.period import Period

BASE = D.secs((2014, 3, 1, 0, 0, 0))
DAY = 86400
ZONE = "Sim/Z"
TYPES = {"BUSY": FreeBusy.BUSY, "BUSY-TENTATIVE": FreeBusy.BUSYTENTATIVE, "BUSY-UNAVAILABLE": FreeBusy.BUSYUNAVAILABLE}
STATUS = {"TENTATIVE": definitions.eStatus_VEvent_Tentative, "CONFIRMED": definitions.eStatus_VEvent_Confirmed, "CANCELLED": definitions.eStatus_VEvent_Cancelled}


def gen_time(rnd):
    return BASE + rnd.below(20) * DAY + rnd.choice([0, 9, 10, 12, 23, rnd.below(24)]) * 3600 + rnd.choice([0, 0, 30, rnd.below(60)]) * 60


def gen_dur(rnd):
    return rnd.choice([1800, 3600, 3600, 7200, 5400, DAY, 3 * DAY, 60 * rnd.between(1, 2000)])


def gen_status(rnd):
    return rnd.weighted([(None, 4), ("CONFIRMED", 2), ("TENTATIVE", 3), ("CANCELLED", 2)])


def gen_transp(rnd):
    return rnd.weighted([(None, 6), ("OPAQUE", 2), ("TRANSPARENT", 2), ("transparent", 1)])


def gen_event(rnd, uid):
    e = {"c": "VEVENT", "uid": uid, "kind": rnd.weighted([("utc", 5), ("local", 3), ("floating", 2), ("date", 2)]), "s": gen_time(rnd), "dur": gen_dur(rnd), "n": rnd.choice([0, 0, 2, 4, 7]),
         "form": rnd.choice(["end", "duration"]), "status": gen_status(rnd), "transp": gen_transp(rnd), "over": []}
    if e["kind"] == "date":
        e["s"], e["dur"] = e["s"] // DAY * DAY, max(1, e["dur"] // DAY) * DAY
    elif e["n"]:
        for k in range(rnd.below(3)):
            e["over"].append({"k": rnd.below(e["n"]), "move": rnd.choice([0, 3600, -1800, 2 * DAY]), "dur": gen_dur(rnd), "status": gen_status(rnd), "transp": gen_transp(rnd)})
        e["over"] = [o for i, o in enumerate(e["over"]) if o["k"] not in [x["k"] for x in e["over"][:i]]]
    return e


def gen_busy(rnd):
    """ one FREEBUSY property """
    out = {"type": rnd.choice([None, "BUSY", "BUSY-TENTATIVE", "BUSY-UNAVAILABLE", "FREE", "busy-tentative", "X-OTHER"]), "p": []}
    for _i in range(rnd.between(1, 3)):
        out["p"].append([gen_time(rnd), gen_dur(rnd), rnd.chance(50)])
    return out


def gen_fb(rnd, uid):
    return {"c": "VFREEBUSY", "uid": uid, "span": rnd.choice([None, "end", "duration", "start"]), "busy": [gen_busy(rnd) for _i in range(rnd.choice([0, 1, 1, 2, 3]))]}


def gen_comp(rnd, uid):
    return rnd.weighted([(gen_event, 6), (gen_fb, 3), (lambda r, u: {"c": "VTODO", "uid": u, "s": gen_time(r)}, 1)])(rnd, uid)


class P20(LibScenario):
    prop = "P20"

    def generate(self, rnd, tier):
        comps = [gen_comp(rnd, "u%d" % i) for i in range(rnd.between(0, 5))]
        ops = []
        for i in range(rnd.between(3, 14)):
            k = rnd.weighted([("ask", 12), ("add", 3), ("remove", 2), ("status", 3), ("transp", 2), ("timing", 3), ("busy", 5), ("dup", 1), ("reread", 1)])
            op = {"op": k, "x": rnd.below(1000)}
            if k == "ask":
                op["s"] = BASE + rnd.between(-2, 21) * DAY + rnd.below(24) * 3600
                op["n"] = rnd.choice([3600, DAY, 2 * DAY, 7 * DAY, 30 * DAY, 1800 * rnd.between(1, 100)])
                op["how"] = rnd.choice(["fb", "fb", "fb", "list", "comp"])
                op["scribble"] = rnd.chance(30)
                op["dur"] = rnd.chance(20)
            elif k == "add":
                op["comp"] = gen_comp(rnd, "v%d" % i)
            elif k == "status":
                op["v"] = gen_status(rnd)
            elif k == "transp":
                op["v"] = gen_transp(rnd)
            elif k == "timing":
                op["s"], op["dur"], op["form"] = gen_time(rnd), gen_dur(rnd), rnd.choice(["end", "duration"])
            elif k == "busy":
                op["how"], op["b"] = rnd.choice(["add", "add", "drop", "replace"]), gen_busy(rnd)
            ops.append(op)
        return {"zone": tzmodel.gen_zone(rnd, ZONE), "comps": comps, "ops": ops}

    def simplify(self, case):
        for i in range(len(case["comps"])):
            c = copy.deepcopy(case)
            del c["comps"][i]
            yield c
            for key in ("over", "busy"):
                for j in range(len(case["comps"][i].get(key, []))):
                    c = copy.deepcopy(case)
                    del c["comps"][i][key][j]
                    yield c

    # -- text

    def at(self, name, kind, s):
        return name + {"utc": ":", "floating": ":", "date": ";VALUE=DATE:", "local": ";TZID=%s:" % ZONE}[kind] + D.fmtsec(s, kind == "utc", kind == "date")

    def busy_line(self, b):
        ps = []
        for s, d, useDur in b["p"]:
            ps.append(D.fmtsec(s, True) + "/" + (self.dur(d) if useDur else D.fmtsec(s + d, True)))
        return "FREEBUSY%s:%s" % ("" if b["type"] is None else ";FBTYPE=" + b["type"], ",".join(ps))

    def dur(self, s):
        return Duration(duration=s).getText()

    def span(self, c):
        """ of the free-busy data: first start and last end """
        ps = [p for b in c["busy"] for p in b["p"]]
        if not ps:
            return BASE, BASE + DAY
        return min(p[0] for p in ps) - 3600, max(p[0] + p[1] for p in ps) + 7200

    def comp_lines(self, c):
        head = ["BEGIN:" + c["c"], "UID:" + c["uid"], "DTSTAMP:20140101T000000Z"]
        if c["c"] == "VTODO":
            return head + [self.at("DTSTART", "utc", c["s"]), "DURATION:PT1H", "END:VTODO"]
        if c["c"] == "VFREEBUSY":
            s, e = self.span(c)
            if c["span"]:
                head.append("DTSTART:" + D.fmtsec(s, True))
            if c["span"] == "end":
                head.append("DTEND:" + D.fmtsec(e, True))
            elif c["span"] == "duration":
                head.append("DURATION:" + self.dur(e - s))
            return head + [self.busy_line(b) for b in c["busy"]] + ["END:VFREEBUSY"]
        out = []
        for o in [None] + c["over"]:
            x = o or c
            s = c["s"] if o is None else c["s"] + o["k"] * DAY + o["move"]
            lines = list(head)
            if o is not None:
                lines.append(self.at("RECURRENCE-ID", c["kind"], c["s"] + o["k"] * DAY))
            lines.append(self.at("DTSTART", c["kind"], s))
            lines.append("DURATION:" + self.dur(x["dur"]) if c["form"] == "duration" else self.at("DTEND", c["kind"], s + x["dur"]))
            if o is None and c["n"]:
                lines.append("RRULE:FREQ=DAILY;COUNT=%d" % c["n"])
            if x["status"]:
                lines.append("STATUS:" + x["status"])
            if x["transp"]:
                lines.append("TRANSP:" + x["transp"])
            out += lines + ["END:VEVENT"]
        return out

    def load(self, comps):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"]
        for c in comps:
            lines += self.comp_lines(c)
        return Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR", ""]))

    # -- model

    def utc(self, kind, s):
        return self.zone.to_utc(s) if kind == "local" else s

    def event_busy(self, c, win):
        """ (type, start, end, certain) """
        if c["kind"] == "date":
            return []
        out = []
        over = dict((o["k"], o) for o in c["over"])
        first = self.utc(c["kind"], c["s"]), self.utc(c["kind"], c["s"] + c["dur"])
        for i in range(max(1, c["n"])):
            o = over.get(i)
            x = o or c
            s = c["s"] + i * DAY + (o["move"] if o else 0)
            e = s + x["dur"]
            if x["transp"] and x["transp"].upper() == "TRANSPARENT" or x["status"] == "CANCELLED":
                continue
            t = "BUSY-TENTATIVE" if x["status"] == "TENTATIVE" else "BUSY"
            us, ue = self.utc(c["kind"], s), self.utc(c["kind"], e)
            if c["n"] and o is None and None not in first and us is not None and not (c["form"] == "duration"):
                # an instance takes as long as the first, added on the wall clock
                ue = self.utc(c["kind"], s + (first[1] - first[0]))
            if us is None or ue is None or None in first:
                out.append((t, s - DAY, e + DAY, False))
                continue
            # times that recur are found by their start; the change of offset within one is not settled
            sure = not (c["n"] and o is None and us < win[0])
            if c["kind"] == "local" and ue - us != x["dur"]:
                out.append((t, us - 4 * 3600, ue + 4 * 3600, False))
                continue
            if c["kind"] == "local" and first[1] - first[0] != c["dur"]:
                sure = False
                ue += 4 * 3600
            out.append((t, us, ue, sure))
        return out

    def fb_busy(self, c):
        out = []
        for b in c["busy"]:
            t = (b["type"] or "BUSY").upper()
            if t == "FREE":
                continue
            for s, d, _u in b["p"]:
                out.append((t if t in TYPES else "BUSY", s, s + d, True))
        return out

    def fb_span(self, c):
        busy = self.fb_busy(c)
        if not busy:
            return None
        s, e = min(b[1] for b in busy), max(b[2] for b in busy)
        if c.get("timing"):
            return c["timing"][0], c["timing"][1] if c["timing"][2] == "end" else e
        if c["span"]:
            s0, e0 = c.get("said") or self.span(c)
            s = s0
            if c["span"] == "end":
                e = e0
        return s, e

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        self.zone = tzmodel.Zone(case["zone"], 2045)
        install_zone(self.zone)
        self.did = []
        comps = copy.deepcopy(case["comps"])
        for c in comps:
            if c["c"] == "VFREEBUSY":
                c["said"] = self.span(c)
        self.cal = {"lib": self.load(comps), "comps": comps}
        self.ask({"s": BASE, "n": 20 * DAY, "how": "fb", "scribble": False, "dur": False})
        for op in case["ops"]:
            self.did.append(op["op"])
            getattr(self, "op_" + op["op"])(op)
            ctx.ev(op["op"], len(self.cal["comps"]))
            if op["op"] != "ask":
                self.edges(op)
                self.ask({"s": BASE - 5 * DAY, "n": 60 * DAY, "how": ["fb", "list", "comp"][op["x"] % 3], "scribble": False, "dur": False})

    def fail(self, kind, msg):
        self.ctx.fail(kind, "%s; after %s" % (msg, " ".join(self.did)))

    def edges(self, op):
        """ just outside and just inside of the span of one of the free-busy components """
        c = self.pick(op, "VFREEBUSY")
        sp = self.fb_span(c) if c is not None else None
        if sp is not None:
            for s in (sp[0] - 1800, sp[0], sp[1] - 1800, sp[1]):
                self.ask({"s": s, "n": 1800, "how": ["list", "comp", "fb"][op["x"] % 3], "scribble": False, "dur": False})

    def op_ask(self, op):
        self.ask(op)

    def ask(self, op):
        win = op["s"], op["s"] + op["n"]
        period = Period(make_dt("utc", win[0]), duration=Duration(duration=op["n"])) if op["dur"] else Period(make_dt("utc", win[0]), make_dt("utc", win[1]))
        lib, comps = self.cal["lib"], self.cal["comps"]
        before = world.text_of(lib)
        fbs = [c for c in comps if c["c"] == "VFREEBUSY"]
        libfbs = lib.getComponents("VFREEBUSY")
        meets = []
        for c, l in zip(fbs, libfbs):
            sp = self.fb_span(c)
            if sp is not None and sp[0] < win[1] and sp[1] > win[0]:
                meets.append((c, l))
        if op["how"] == "list":
            got = []
            lib.getVFreeBusyList(period, got)
            if [id(x) for x in got] != [id(l) for c, l in meets]:
                self.fail("list", "%d free-busy components meet %s, should be %d" % (len(got), period, len(meets)))
        else:
            got = ["mine"]
            want = []
            if op["how"] == "comp":
                for l in libfbs:
                    l.expandPeriodFB(period, got)
                for c, _l in meets:
                    want += self.fb_busy(c)
            else:
                lib.getFreeBusy(period, got)
                for c in comps:
                    if c["c"] == "VEVENT":
                        want += self.event_busy(c, win)
                for c, _l in meets:
                    want += self.fb_busy(c)
            if got[:1] != ["mine"]:
                self.fail("list", "what was in the list before is gone")
            got = got[1:]
            self.compare(got, want, win)
            if op["scribble"]:
                for g in got:
                    g.getPeriod().getStart().offsetDay(3)
                    g.getPeriod().setUseDuration(True)
                    g.setType(FreeBusy.FREE)
                self.ctx.fault("answers overwritten")
        if world.text_of(lib) != before:
            self.fail("text", "asking changed the calendar")
        if period.getStart() != make_dt("utc", win[0]) or period.getEnd() != make_dt("utc", win[1]):
            self.fail("period", "asking changed the period")
        self.ctx.fp(self.did[-2:], op["how"], len(comps), len(meets), len(got))

    def compare(self, got, want, win):
        have = {}
        for g in got:
            p = g.getPeriod()
            s, e = p.getStart().getPosixTime(), p.getEnd().getPosixTime()
            # (an end the zone's clock skips may come out before the start)
            skipped = e <= s and p.getStart().getTimezoneID() == ZONE and [1 for w in want if not w[3] and w[1] <= s and e <= w[2]]
            if g.getType() not in TYPES.values() or e <= s and not skipped:
                self.fail("entry", "an entry has type %s, from %s to %s" % (g.getType(), p.getStart(), p.getEnd()))
            if not skipped:
                have.setdefault(g.getType(), []).append((s, e))
        for name, t in sorted(TYPES.items()):
            cuts = set(win)
            for s, e in have.get(t, []):
                cuts.update([s, e])
            mine = [w for w in want if w[0] == name]
            for w in mine:
                cuts.update(w[1:3])
            cuts = sorted([c for c in cuts if win[0] <= c <= win[1]])
            for a, b in zip(cuts, cuts[1:]):
                busy = [1 for s, e in have.get(t, []) if s <= a and e >= b]
                must = [1 for w in mine if w[3] and w[1] <= a and w[2] >= b]
                may = must or [1 for w in mine if w[1] <= a and w[2] >= b]
                if must and not busy or busy and not may:
                    self.fail("busy", "from %s to %s is %s %s, asked from %s to %s" % (D.fmtsec(a, True), D.fmtsec(b, True), "not" if must else "wrongly", name, D.fmtsec(win[0], True), D.fmtsec(win[1], True)))

    def pick(self, op, kind):
        mine = [c for c in self.cal["comps"] if c["c"] == kind]
        return mine[op["x"] % len(mine)] if mine else None

    def libs(self, c):
        """ the library's components of the model's """
        return [l for l in self.cal["lib"].getComponents(c["c"]) if l.getUID() == c["uid"]]

    def op_add(self, op):
        c = copy.deepcopy(op["comp"])
        if c["c"] == "VFREEBUSY":
            c["said"] = self.span(c)
        for l in self.load([c]).getComponents():
            self.cal["lib"].addComponent(l.duplicate(parent=self.cal["lib"]))
        self.cal["comps"].append(c)

    def op_remove(self, op):
        if self.cal["comps"]:
            c = self.cal["comps"].pop(op["x"] % len(self.cal["comps"]))
            for l in self.libs(c):
                self.cal["lib"].removeComponent(l)

    def part(self, op):
        """ an event or one of its overridden instances """
        c = self.pick(op, "VEVENT")
        if c is None:
            return None, None
        ls = self.libs(c)
        k = op["x"] // 7 % len(ls)
        return (c if k == 0 else c["over"][k - 1]), ls[k]

    def op_status(self, op):
        m, l = self.part(op)
        if m is not None:
            if op["v"] is None:
                l.removeProperties("STATUS")
                l.finalise()
            else:
                l.editStatus(STATUS[op["v"]])
            m["status"] = op["v"]

    def op_transp(self, op):
        m, l = self.part(op)
        if m is not None:
            l.removeProperties("TRANSP")
            if op["v"]:
                l.addProperty(Property("TRANSP", op["v"]))
            l.finalise()
            m["transp"] = op["v"]

    def op_timing(self, op):
        if op["x"] % 3 == 0:
            c = self.pick(op, "VFREEBUSY")
            if c is None or not c["busy"]:
                return
            s, e = self.span(c)
            s -= op["x"] // 3 % 4 * 1800
            e += op["x"] // 12 % 4 * 1800
            l = self.libs(c)[0]
            if op["form"] == "end":
                l.editTimingStartEnd(make_dt("utc", s), make_dt("utc", e))
            else:
                l.editTimingStartDuration(make_dt("utc", s), Duration(duration=e - s))
            c["timing"] = (s, e, op["form"])
            return
        c = self.pick(op, "VEVENT")
        if c is None or c["n"] or c["kind"] == "date":
            return
        l = self.libs(c)[0]
        s = make_dt(c["kind"], op["s"], ZONE)
        if op["form"] == "end":
            l.editTimingStartEnd(s, make_dt(c["kind"], op["s"] + op["dur"], ZONE))
        else:
            l.editTimingStartDuration(s, Duration(duration=op["dur"]))
        c["s"], c["dur"], c["form"] = op["s"], op["dur"], op["form"]

    def op_busy(self, op):
        c = self.pick(op, "VFREEBUSY")
        if c is None:
            return
        l = self.libs(c)[0]
        if op["how"] == "add":
            l.addProperty(Property.parseText(self.busy_line(op["b"])))
            c["busy"].append(op["b"])
        elif op["how"] == "replace":
            l.removeProperties("FREEBUSY")
            l.addProperty(Property.parseText(self.busy_line(op["b"])))
            c["busy"] = [op["b"]]
        elif c["busy"]:
            k = op["x"] % len(c["busy"])
            l.removeProperty(l.getProperties("FREEBUSY")[k])
            del c["busy"][k]
        # the span goes with it
        for n in ("DTSTART", "DTEND", "DURATION"):
            l.removeProperties(n)
        l.finalise()
        c["span"] = None
        c.pop("timing", None)

    def op_dup(self, op):
        self.cal["lib"] = self.cal["lib"].duplicate()

    def op_reread(self, op):
        text = world.text_of(self.cal["lib"])
        self.cal["lib"] = Calendar.parseText(text)
        # components are written in order of their UIDs and read in that
        order = [l.getUID() for l in self.cal["lib"].getComponents()]
        self.cal["comps"].sort(key=lambda c: order.index(c["uid"]))
        for c in self.cal["comps"]:
            if c["c"] == "VEVENT":
                c["over"].sort(key=lambda o: o["k"])


SCENARIO = P20()
