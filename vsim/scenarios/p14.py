"""
P14: what a calendar keeps by UID agrees with the components it holds, whatever happened to them.
"""
import copy
from vsim import core, dates as D, tzmodel, world
from vsim.lib import LibScenario, make_dt, dt_desc, install_zone
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.icalendar.vjournal import VJournal
from pycalendar.icalendar.vfreebusy import VFreeBusy
from pycalendar.period import Period

UIDS = ["a", "b", "c"]
KINDS = ["VEVENT", "VTODO", "VJOURNAL"]
CLASSES = {"VEVENT": VEvent, "VTODO": VToDo, "VJOURNAL": VJournal, "VFREEBUSY": VFreeBusy}
BASE = D.secs((2014, 3, 3, 10, 0, 0))
ZONE = "Sim/Z"
DAY = 86400


def gen_comp(rnd, st):
    kind = rnd.weighted([("VEVENT", 6), ("VTODO", 3), ("VJOURNAL", 1), ("VFREEBUSY", 1)])
    c = {"kind": kind, "uid": rnd.choice(UIDS), "rid": None, "n": rnd.choice([0, 0, 2, 3, 5]), "sum": rnd.below(3), "st": st,
         "dur": rnd.choice(["end", "duration"]), "alarm": rnd.chance(20)}
    if kind != "VFREEBUSY" and rnd.chance(45):
        c["rid"] = rnd.below(6)
        # another way to say the same time
        c["utc"] = st == "local" and rnd.chance(30)
    return c


class P14(LibScenario):
    prop = "P14"

    def generate(self, rnd, tier):
        # a recurrence id is of the kind its master's start has
        st = rnd.choice(["utc", "utc", "floating", "date", "local"])
        cals = [[gen_comp(rnd, st) for _j in range(rnd.between(0, 4))] for _i in range(rnd.between(1, 2))]
        ops = []
        for _i in range(rnd.between(3, 16)):
            k = rnd.weighted([("add", 8), ("take", 3), ("twice", 2), ("remove", 6), ("removekey", 2), ("removeall", 2), ("changeuid", 5), ("dup", 2), ("reread", 2), ("derive", 4), ("clash", 1)])
            op = {"op": k, "c": rnd.below(4), "x": rnd.below(1000), "how": rnd.choice(["text", "made"])}
            if k == "add":
                op["comp"] = gen_comp(rnd, st)
            elif k == "removeall":
                op["type"] = rnd.choice([None, "VEVENT", "VTODO", "vevent", "VJOURNAL"])
            elif k == "changeuid":
                op["old"], op["new"] = rnd.choice(UIDS), rnd.choice(UIDS + ["d"])
            elif k == "derive":
                op["k"], op["utc"], op["keep"] = rnd.below(5), rnd.chance(50), rnd.chance(60)
            ops.append(op)
        return {"zone": tzmodel.gen_zone(rnd, ZONE), "cals": cals, "ops": ops}

    def simplify(self, case):
        for i, cal in enumerate(case["cals"]):
            for j in range(len(cal)):
                c = copy.deepcopy(case)
                del c["cals"][i][j]
                yield c

    # -- building

    def at(self, comp, day, hours=0):
        """ a specification of the day's time in the form the component uses """
        if comp["st"] == "date":
            return {"k": "date", "s": D.secs((2014, 3, 3, 0, 0, 0)) + day * DAY}
        return {"k": comp["st"], "s": BASE + day * DAY + hours * 3600}

    def line(self, name, v):
        p = {"utc": ":", "floating": ":", "date": ";VALUE=DATE:", "local": ";TZID=%s:" % ZONE}[v["k"]]
        return name + p + D.fmtsec(v["s"], v["k"] == "utc", v["k"] == "date")

    def comp_lines(self, c):
        out = ["UID:" + c["uid"], "DTSTAMP:20140101T000000Z", "SUMMARY:s%d" % c["sum"]]
        if c["rid"] is not None:
            out += [self.line("RECURRENCE-ID", self.rid_spec(c)), self.line("DTSTART", self.at(c, c["rid"], 1))]
        else:
            out.append(self.line("DTSTART", self.at(c, 0)))
            if c["n"] and c["kind"] != "VFREEBUSY":
                out.append("RRULE:FREQ=DAILY;COUNT=%d" % c["n"])
        if c["kind"] != "VJOURNAL":
            if c["dur"] == "duration" or c["kind"] == "VFREEBUSY":
                out.append("DURATION:P1D" if c["st"] == "date" else "DURATION:PT2H")
            else:
                out.append(self.line("DUE" if c["kind"] == "VTODO" else "DTEND", self.at(c, (c["rid"] or 0) + (1 if c["st"] == "date" else 0), 2 + (0 if c["rid"] is None else 1))))
        return out

    def make(self, c, how, parent=None):
        """ the library's component for a specification """
        alarm = c["alarm"] and c["kind"] in ("VEVENT", "VTODO")
        text = ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M", "END:VALARM"] if alarm else []
        if how == "made" and not alarm:
            lib = CLASSES[c["kind"]](parent=parent)
            for l in self.comp_lines(c):
                lib.addProperty(Property.parseText(l))
            lib.finalise()
            return lib
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:" + c["kind"]] + self.comp_lines(c) + text + ["END:" + c["kind"], "END:VCALENDAR", ""]
        lib = Calendar.parseText("\r\n".join(lines)).getComponents()[0]
        return lib.duplicate(parent=parent)

    def load(self, comps):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"]
        for c in comps:
            lines += ["BEGIN:" + c["kind"]] + self.comp_lines(c) + ["END:" + c["kind"]]
        lib = Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR", ""]))
        return {"lib": lib, "comps": [dict(c, lib=l, alarm=False) for c, l in zip(comps, lib.getComponents())]}

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        install_zone(tzmodel.Zone(case["zone"], 2045))
        self.cals = [self.load(cs) for cs in case["cals"]]
        self.did = []
        for c in self.cals:
            self.check(c)
        for op in case["ops"]:
            c = self.cals[op["c"] % len(self.cals)]
            self.did.append(op["op"])
            getattr(self, "op_" + op["op"])(c, op)
            for c in self.cals:
                self.check(c)
            shape = [[(x["kind"], x["uid"], x["rid"]) for x in c["comps"]] for c in self.cals]
            ctx.ev(op["op"], shape)
            ctx.fp(self.did[-2:], [sorted(s) for s in shape])

    def fail(self, kind, text):
        self.ctx.fail(kind, "%s; after %s" % (text, " ".join(self.did)))

    def name(self, x):
        return "%s %s%s" % (x["kind"], x["uid"], "" if x["rid"] is None else "/%d" % x["rid"])

    def check(self, c):
        lib, comps = c["lib"], c["comps"]
        got = lib.getComponents()
        if len(got) != len(comps) or [1 for a, b in zip(got, comps) if a is not b["lib"]]:
            self.fail("components", "the calendar holds %s, should hold %s" % ([repr(x) for x in got], [self.name(x) for x in comps]))
        for x in comps:
            if x["lib"].getUID() != x["uid"] or [str(p.getValue()) for p in x["lib"].getProperties("UID")] != [x["uid"]]:
                self.fail("uid", "%s has the UID %s" % (self.name(x), x["lib"].getUID()))
            if x["kind"] != "VFREEBUSY" and x["lib"].getMaster() is not x["lib"]:
                self.fail("master", "the master of %s, which nobody set, is something else" % (self.name(x),))
        for kind in KINDS:
            if [id(x) for x in lib.getComponents(kind)] != [id(x["lib"]) for x in comps if x["kind"] == kind]:
                self.fail("components", "the components of type %s are others" % (kind,))
            for uid in UIDS + ["d"]:
                want = [x for x in comps if x["kind"] == kind and x["uid"] == uid and x["rid"] is not None]
                items, ids = [], []
                lib.getRecurrenceInstancesItems(kind, uid, items)
                lib.getRecurrenceInstancesIds(kind, uid, ids)
                if sorted([id(i) for i in items]) != sorted([id(x["lib"]) for x in want]):
                    self.fail("instances", "overridden instances of %s %s are %s, should be %s" % (kind, uid, [repr(i) for i in items], [self.name(x) for x in want]))
                if sorted([dt_desc(i) for i in ids]) != sorted([self.rid_text(x) for x in want]):
                    self.fail("instance-ids", "recurrence ids of %s %s are %s, should be %s" % (kind, uid, [dt_desc(i) for i in ids], [self.rid_text(x) for x in want]))
        masters = [x for x in comps if x["kind"] != "VFREEBUSY" and x["rid"] is None]
        m = lib.masterComponent()
        if m is not (masters[0]["lib"] if masters else None):
            self.fail("master", "the master component is %r" % (m,))
        # instances
        span = Period(DateTime(2014, 1, 1, 0, 0, 0), DateTime(2015, 1, 1, 0, 0, 0))
        for kind in KINDS:
            out = []
            if kind == "VEVENT":
                lib.getVEvents(span, out)
            else:
                for x in lib.getComponents(kind):
                    x.expandPeriod(span, out)
            got = sorted([(id(i.getOwner()), dt_desc(i.getInstanceStart())) for i in out])
            want = []
            for x in comps:
                if x["kind"] != kind:
                    continue
                if x["rid"] is not None:
                    want.append((x, dt_desc(x["lib"].getStart())))
                else:
                    gone = [self.rid_instant(y) for y in comps if y["kind"] == kind and y["uid"] == x["uid"] and y["rid"] is not None] if x["n"] else []
                    for i in range(max(1, x["n"])):
                        v = self.at(x, i)
                        dt = make_dt(v["k"], v["s"], ZONE)
                        if not [g for g in gone if g == dt]:
                            want.append((x, dt_desc(dt)))
            if kind == "VJOURNAL":
                # without an end the instance that is not recurring takes no time
                pass
            if got != sorted([(id(x["lib"]), s) for x, s in want]):
                self.fail("expansion", "the instances of the %ss start at %s, should start at %s" % (
                    kind, sorted([dt_desc(i.getInstanceStart()) for i in out]), sorted(["%s:%s" % (self.name(x), s) for x, s in want])))

    def rid_spec(self, x):
        v = x.get("ridspec") or self.at(x, x["rid"])
        if x.get("utc") and "ridspec" not in x:
            dt = make_dt(v["k"], v["s"], ZONE).duplicateAsUTC()
            v = {"k": "utc", "s": D.secs((dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds()))}
        return v

    def rid_instant(self, x):
        v = self.rid_spec(x)
        return make_dt(v["k"], v["s"], ZONE)

    def rid_text(self, x):
        return dt_desc(self.rid_instant(x))

    # -- operations

    def op_add(self, c, op):
        spec = op["comp"]
        lib = self.make(spec, op["how"], c["lib"])
        c["lib"].addComponent(lib)
        c["comps"].append(dict(spec, lib=lib))

    def pick(self, c, op):
        return c["comps"][op["x"] % len(c["comps"])] if c["comps"] else None

    def op_take(self, c, op):
        """ from here to the next calendar """
        x = self.pick(c, op)
        to = self.cals[(op["c"] + 1) % len(self.cals)]
        if x is None:
            return
        lib = x["lib"].duplicate(parent=to["lib"])
        c["lib"].removeComponent(x["lib"])
        to["lib"].addComponent(lib)
        c["comps"] = [y for y in c["comps"] if y is not x]
        to["comps"].append(dict(x, lib=lib))

    def op_twice(self, c, op):
        """ a second component that says the same """
        x = self.pick(c, op)
        if x is not None:
            lib = x["lib"].duplicate(parent=c["lib"])
            c["lib"].addComponent(lib)
            c["comps"].append(dict(x, lib=lib))

    def op_remove(self, c, op):
        x = self.pick(c, op)
        if x is not None:
            c["lib"].removeComponent(x["lib"])
            c["comps"] = [y for y in c["comps"] if y is not x]

    def op_clash(self, c, op):
        """ removing what is not there is refused and changes nothing """
        x = self.pick(c, op)
        if x is None:
            return
        lib = self.make(dict(x, sum=7, uid=x["uid"] if op["x"] % 2 else "zz"), "made")
        try:
            c["lib"].removeComponent(lib)
        except (ValueError, KeyError):
            self.ctx.fault("refused removal")

    def op_removekey(self, c, op):
        x = self.pick(c, op)
        if x is None:
            return
        key = x["lib"].getMapKey()
        first = [y for y in c["comps"] if y["lib"].getMapKey() == key][0]
        if c["lib"].getComponentByKey(key) is not first["lib"]:
            self.fail("key", "the component found by its key is not the first that has it")
        c["lib"].removeComponentByKey(key)
        c["comps"] = [y for y in c["comps"] if y is not first]

    def op_removeall(self, c, op):
        if op["type"]:
            c["lib"].removeAllComponent(op["type"])
            c["comps"] = [x for x in c["comps"] if x["kind"] != op["type"].upper()]
        else:
            c["lib"].removeAllComponent()
            c["comps"] = []

    def op_changeuid(self, c, op):
        c["lib"].changeUID(op["old"], op["new"])
        for x in c["comps"]:
            if x["uid"] == op["old"]:
                x["uid"] = op["new"]

    def op_dup(self, c, op):
        if len(self.cals) < 4:
            lib = c["lib"].duplicate()
            self.cals.append({"lib": lib, "comps": [dict(x, lib=l) for x, l in zip(c["comps"], lib.getComponents())]})

    def op_reread(self, c, op):
        text = world.text_of(c["lib"])
        lib = Calendar.parseText(text)
        left = list(c["comps"])
        new = []
        for l in lib.getComponents():
            for x in left:
                if str(x["lib"]) == str(l):
                    left = [y for y in left if y is not x]
                    new.append(dict(x, lib=l))
                    break
        if left or len(new) != len(c["comps"]):
            self.fail("text", "the text of the calendar does not have %s" % ([self.name(x) for x in left],))
        c["lib"], c["comps"] = lib, new

    def op_derive(self, c, op):
        masters = [x for x in c["comps"] if x["kind"] != "VFREEBUSY" and x["rid"] is None]
        v = None
        if masters:
            x = masters[0]
            v = self.at(x, op["k"])
            rid = make_dt(v["k"], v["s"], ZONE)
            was = str(x["lib"])
        else:
            rid = make_dt("utc", BASE)
        given = rid.duplicateAsUTC() if op["utc"] and v is not None and v["k"] == "local" else rid
        before = dt_desc(given)
        new = c["lib"].deriveComponent(given)
        if dt_desc(given) != before:
            self.fail("derive", "deriving changed the recurrence id it was given")
        if not masters:
            if new is not None:
                self.fail("derive", "an instance was derived from nothing")
            return
        if str(x["lib"]) != was:
            self.fail("derive", "deriving changed the master")
        if v["k"] == "local" and rid != given:
            return
        want = self.line("RECURRENCE-ID", v), self.line("DTSTART", v)
        got = tuple([str(new.getProperties(n)[0]).strip() for n in ("RECURRENCE-ID", "DTSTART")])
        if got != want and not (v["k"] == "local" and op["utc"] and not self.sure(v)):
            self.fail("derive", "the derived instance says %s, should say %s" % (got, want))
        if (new.getEnd() - new.getStart()).getTotalSeconds() != (x["lib"].getEnd() - x["lib"].getStart()).getTotalSeconds():
            self.fail("derive", "the derived instance lasts from %s to %s, the master from %s to %s" % (dt_desc(new.getStart()), dt_desc(new.getEnd()), dt_desc(x["lib"].getStart()), dt_desc(x["lib"].getEnd())))
        for n in ("RRULE", "RDATE", "EXDATE"):
            if new.hasProperty(n):
                self.fail("derive", "the derived instance has %s" % (n,))
        for n in ("UID", "SUMMARY", "DTSTAMP"):
            if [str(p) for p in new.getProperties(n)] != [str(p) for p in x["lib"].getProperties(n)]:
                self.fail("derive", "the derived instance has another %s" % (n,))
        if [str(a) for a in new.getComponents()] != [str(a) for a in x["lib"].getComponents()]:
            self.fail("derive", "the derived instance has other alarms")
        if not new.isRecurrenceInstance() or new.getRecurrenceID() is None or new.isRecurring():
            self.fail("derive", "the derived instance does not answer as an instance")
        if op["keep"]:
            c["lib"].addComponent(new)
            c["comps"].append(dict(x, lib=new, rid=op["k"], ridspec=dict(v), n=0))

    def sure(self, v):
        """ the wall clock time is one instant """
        dt = make_dt("local", v["s"], ZONE)
        back = dt.duplicateAsUTC()
        back.adjustTimezone(dt.getTimezone())
        return dt_desc(back) == dt_desc(dt)


SCENARIO = P14()
