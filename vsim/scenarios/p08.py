"""
P08: the definitions of time zones a calendar carries when it is written, stripped and read elsewhere.
"""
import copy
import json
from vsim import core, dates as D, simfs, tzmodel
from vsim.lib import LibScenario, make_dt
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.timezonedb import TimezoneDatabase

# the first two are in the directory, the next two are brought by calendars, nobody knows the last
IDS = ["Std/A", "Std/B", "Own/C", "Own/D", "Un/E"]
NSTD, NKNOWN = 2, 4
PROPS = {
    "VEVENT": ["DTSTART", "DTEND", "RDATE", "EXDATE", "PERIOD", "RECURRENCE-ID", "X-SIM", "VALARM"],
    "VTODO": ["DTSTART", "DUE", "RDATE", "EXDATE", "RECURRENCE-ID", "VALARM"],
    "VJOURNAL": ["DTSTART", "RDATE", "EXDATE"],
    "VAVAILABILITY": ["DTSTART", "DTEND", "AVAILABLE", "AVAILABLE2"],
    "VPOLL": ["DTSTART", "X-SIM", "VOTER"],
    "X-COMP": ["DTSTART", "DEEP"],
}
MODES = [None, Calendar.ALL_TIMEZONES, Calendar.NONSTD_TIMEZONES, Calendar.NO_TIMEZONES]


def gen_comp(rnd):
    kind = rnd.weighted([("VEVENT", 5), ("VTODO", 2), ("VJOURNAL", 1), ("VAVAILABILITY", 2), ("VPOLL", 1), ("X-COMP", 1)])
    return {"kind": kind, "refs": [[p, rnd.below(len(IDS)), rnd.below(1000)] for p in rnd.sample(PROPS[kind], rnd.between(1, 3))]}


class P08(LibScenario):
    prop = "P08"

    def generate(self, rnd, tier):
        defs = [[tzmodel.gen_zone(rnd, z) for _i in range(2)] for z in IDS[:NKNOWN]]
        cals = []
        for _i in range(rnd.between(1, 3)):
            cals.append({"comps": [gen_comp(rnd) for _j in range(rnd.between(1, 3))],
                         "defs": [[z, rnd.choice([0, 0, 0, 1])] for z in rnd.sample(range(NKNOWN), rnd.below(4))]})
        ops = []
        for _i in range(rnd.between(3, 12)):
            k = rnd.weighted([("write", 10), ("strip", 3), ("addcomp", 3), ("addref", 3), ("dropcomp", 2), ("dropzone", 3), ("merge", 2), ("clear", 1), ("dup", 2), ("reread", 2), ("spoil", 3), ("include", 2)])
            op = {"op": k, "c": rnd.below(3), "x": rnd.below(1000), "m": rnd.below(4), "f": rnd.choice(["text", "text", "json", "stream"])}
            if k == "addcomp":
                op["comp"] = gen_comp(rnd)
            if k == "merge":
                op["z"], op["d"] = rnd.below(NKNOWN), rnd.below(2)
            if k == "addref":
                op["z"] = rnd.below(len(IDS))
            ops.append(op)
        return {"defs": defs, "cals": cals, "ops": ops, "dir": rnd.chance(85)}

    def simplify(self, case):
        for i, cal in enumerate(case["cals"]):
            for k in ("comps", "defs"):
                for j in range(len(cal[k])):
                    c = copy.deepcopy(case)
                    del c["cals"][i][k][j]
                    yield c

    def execute(self, case, ctx):
        fs = simfs.SimFS()
        try:
            self.run(case, ctx, fs)
        finally:
            fs.close()

    def run(self, case, ctx, fs):
        self.zones = [[tzmodel.Zone(d, 2045) for d in ds] for ds in case["defs"]]
        self.kinds = []
        self.std = set()
        self.own = {}
        if case["dir"]:
            for i in range(NSTD):
                fs.write("db/%s.ics" % IDS[i], self.zones[i][0].calendar())
                self.std.add(i)
        TimezoneDatabase.createTimezoneDatabase(fs.real("db"))
        self.live = []
        for spec in case["cals"]:
            self.live.append(self.load(spec))
        for op in case["ops"]:
            c = self.live[op["c"] % len(self.live)]
            getattr(self, "op_" + op["op"])(ctx, c, op)
            self.kinds.append(op["op"][:2] + (str(op["m"]) if op["op"] == "write" else ""))
            for c in self.live:
                self.check(ctx, c)
            ctx.ev(op["op"], [c["defs"] for c in self.live], sorted(self.own.items()))
            ctx.fp("".join(self.kinds[-3:]), [[d[0] for d in c["defs"]] for c in self.live], sorted(self.own))

    # -- model

    def known(self, z):
        """ which definition the database has """
        if z in self.std:
            return 0
        return self.own.get(z)

    def refs(self, c):
        return set([r[1] for comp in c["comps"] for r in comp["refs"]])

    def missing(self, c, mode):
        if mode == Calendar.NO_TIMEZONES:
            return []
        have = [d[0] for d in c["defs"]]
        return sorted([z for z in self.refs(c) if z not in have and self.known(z) is not None and (mode == Calendar.ALL_TIMEZONES or z not in self.std)])

    def brought(self, defs):
        for z, d in defs:
            if z not in self.std and z not in self.own:
                self.own[z] = d

    # -- text

    def at(self, z, x, days=0):
        return D.fmtsec(D.secs((2015, 1, 1, 3, 0, 0)) + 86400 * (x % 365 + days))

    def ref_lines(self, ref):
        p, z, x = ref
        tz = ";TZID=%s:" % IDS[z]
        t = self.at(z, x)
        if p == "RDATE":
            return ["RDATE%s%s,%s" % (tz, t, self.at(z, x, 1))]
        if p == "PERIOD":
            return ["RDATE;VALUE=PERIOD%s%s/PT1H" % (tz, t)]
        if p == "X-SIM":
            return ["X-SIM;VALUE=DATE-TIME%s%s" % (tz, t)]
        if p == "VALARM":
            return ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER:-PT5M", "X-AT;VALUE=DATE-TIME%s%s" % (tz, t), "END:VALARM"]
        if p == "DEEP":
            return ["BEGIN:X-ONE", "BEGIN:X-TWO", "X-AT;VALUE=DATE-TIME%s%s" % (tz, t), "END:X-TWO", "END:X-ONE"]
        if p.startswith("AVAILABLE"):
            return ["BEGIN:AVAILABLE", "UID:av%d" % x, "DTSTAMP:20100101T000000Z", "DTSTART%s%s" % (tz, t), "DURATION:PT1H", "END:AVAILABLE"]
        if p == "VOTER":
            return ["BEGIN:VVOTER", "X-AT;VALUE=DATE-TIME%s%s" % (tz, t), "END:VVOTER"]
        return [p + tz + t]

    def comp_lines(self, i, comp):
        out = ["BEGIN:" + comp["kind"], "UID:u%d" % i, "DTSTAMP:20100101T000000Z"]
        for r in sorted(comp["refs"], key=lambda r: r[0] in ("VALARM", "DEEP", "AVAILABLE", "AVAILABLE2", "VOTER")):
            out += self.ref_lines(r)
        return out + ["END:" + comp["kind"]]

    def load(self, spec):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//v//EN"]
        for z, d in spec["defs"]:
            lines += self.zones[z][d].text_lines()
        for i, comp in enumerate(spec["comps"]):
            lines += self.comp_lines(i, comp)
        comps = [dict(copy.deepcopy(comp), uid="u%d" % i) for i, comp in enumerate(spec["comps"])]
        c = {"lib": Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR", ""])), "comps": comps, "defs": copy.deepcopy(spec["defs"]), "n": len(spec["comps"])}
        self.brought(c["defs"])
        return c

    def where(self, c):
        return "after %s, refs %s, own %s, database %s" % (" ".join(self.kinds), sorted([IDS[z] for z in self.refs(c)]), [IDS[d[0]] for d in c["defs"]], sorted([IDS[z] for z in self.own]))

    def check(self, ctx, c):
        got = sorted([z.getID() for z in c["lib"].getComponents("VTIMEZONE")])
        want = sorted([IDS[d[0]] for d in c["defs"]])
        if got != want:
            ctx.fail("zones", "the calendar holds the zones %s, should be %s (%s)" % (got, want, self.where(c)))
        n = len([x for x in c["lib"].getComponents() if x.getType() != "VTIMEZONE"])
        if n != len(c["comps"]):
            ctx.fail("components", "the calendar holds %d other components, should be %d (%s)" % (n, len(c["comps"]), self.where(c)))

    def rest(self, lib):
        return sorted([str(x) for x in lib.getComponents() if x.getType() != "VTIMEZONE"])

    def op_write(self, ctx, c, op):
        mode = MODES[op["m"]]
        before = self.rest(c["lib"])
        own = sorted([str(x) for x in c["lib"].getComponents("VTIMEZONE")])
        extra = self.missing(c, mode)
        if op["f"] == "text":
            out = c["lib"].getText(includeTimezones=mode)
        elif op["f"] == "stream":
            from vsim.streams import SimOutput
            s = SimOutput()
            c["lib"].generate(s, includeTimezones=mode)
            out = s.getvalue()
        else:
            out = c["lib"].getText(includeTimezones=mode, format=Calendar.sFormatJSON)
        # what a calendar is written with stays in it
        c["defs"] += [[z, self.known(z)] for z in extra]
        if self.rest(c["lib"]) != before:
            ctx.fail("changed", "writing changed something else in the calendar (%s)" % (self.where(c),))
        now = [str(x) for x in c["lib"].getComponents("VTIMEZONE")]
        if [x for x in own if x not in now]:
            ctx.fail("changed", "writing changed a definition the calendar had (%s)" % (self.where(c),))
        # elsewhere, with an empty database
        saved = TimezoneDatabase.sTimezoneDatabase
        TimezoneDatabase.sTimezoneDatabase = None
        try:
            if op["f"] == "json":
                other = Calendar.parseJSONData(out)
            else:
                other = Calendar.parseText(out)
            got = sorted([z.getID() for z in other.getComponents("VTIMEZONE")])
            want = sorted([IDS[d[0]] for d in c["defs"]])
            if got != want:
                ctx.fail("written-zones", "what was written (mode %s, %s) has the zones %s, should be %s (%s)" % (mode, op["f"], got, want, self.where(c)))
            defs = dict([tuple(d) for d in c["defs"]])
            for z, d in sorted(defs.items()):
                for t in (D.secs((2015, 1, 5, 12, 0, 0)), D.secs((2015, 7, 5, 12, 0, 0)), D.secs((2003, 4, 20, 1, 30, 0))):
                    o = TimezoneDatabase.getTimezoneOffsetSeconds(IDS[z], make_dt("floating", t))
                    if o not in self.zones[z][d].offsets_wall(t):
                        ctx.fail("instant", "read elsewhere %s at %s has the offset %s, should be %s (%s)" % (IDS[z], D.fmtsec(t), o, self.zones[z][d].offsets_wall(t), self.where(c)))
        finally:
            TimezoneDatabase.sTimezoneDatabase = saved

    def op_include(self, ctx, c, op):
        mode = MODES[op["m"]]
        extra = self.missing(c, mode)
        c["lib"].includeMissingTimezones(includeTimezones=mode)
        c["defs"] += [[z, self.known(z)] for z in extra]

    def op_strip(self, ctx, c, op):
        before = self.rest(c["lib"])
        want = [d for d in c["defs"] if d[0] not in self.std]
        got = c["lib"].stripStandardTimezones()
        if bool(got) != (len(want) != len(c["defs"])):
            ctx.fail("strip", "stripping says it changed %s (%s)" % (got, self.where(c)))
        c["defs"] = want
        if self.rest(c["lib"]) != before:
            ctx.fail("changed", "stripping changed something else in the calendar (%s)" % (self.where(c),))

    def op_addcomp(self, ctx, c, op):
        i = c["n"]
        c["n"] += 1
        text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//v//EN"] + self.comp_lines(i, op["comp"]) + ["END:VCALENDAR", ""])
        c["lib"].addComponent(Calendar.parseText(text).getComponents()[0].duplicate(parent=c["lib"]))
        c["comps"].append(dict(copy.deepcopy(op["comp"]), uid="u%d" % i))

    def op_addref(self, ctx, c, op):
        comps = [x for x in c["lib"].getComponents() if x.getType() != "VTIMEZONE"]
        if comps:
            i = op["x"] % len(comps)
            ref = ["X-SIM", op["z"], op["x"]]
            comps[i].addProperty(Property.parseText(self.ref_lines(ref)[0]))
            # the order of components is that in which they were added
            c["comps"][i]["refs"].append(ref)

    def op_dropcomp(self, ctx, c, op):
        comps = [x for x in c["lib"].getComponents() if x.getType() != "VTIMEZONE"]
        if comps:
            i = op["x"] % len(comps)
            c["lib"].removeComponent(comps[i])
            del c["comps"][i]

    def op_dropzone(self, ctx, c, op):
        zs = c["lib"].getComponents("VTIMEZONE")
        if zs:
            z = zs[op["x"] % len(zs)]
            c["defs"] = [d for d in c["defs"] if IDS[d[0]] != z.getID()]
            c["lib"].removeComponent(z)

    def op_merge(self, ctx, c, op):
        Calendar.parseText(self.zones[op["z"]][op["d"]].calendar())
        self.brought([[op["z"], op["d"]]])

    def op_clear(self, ctx, c, op):
        TimezoneDatabase.clearTimezoneDatabase()
        self.own = {}
        ctx.fault("database_cleared")

    def op_dup(self, ctx, c, op):
        d = dict(c, lib=c["lib"].duplicate(), comps=copy.deepcopy(c["comps"]), defs=copy.deepcopy(c["defs"]))
        if len(self.live) > 3:
            self.live.pop(0)
        self.live.append(d)

    def op_reread(self, ctx, c, op):
        text = c["lib"].getText(includeTimezones=Calendar.NO_TIMEZONES)
        c["lib"] = Calendar.parseText(text)
        # components are written sorted
        got = [x for x in c["lib"].getComponents() if x.getType() != "VTIMEZONE"]
        byuid = dict([(comp["uid"], comp) for comp in c["comps"]])
        c["comps"] = [byuid[[l for l in str(x).split("\r\n") if l.startswith("UID:u")][0][4:]] for x in got]
        self.brought(c["defs"])

    def op_spoil(self, ctx, c, op):
        """ what a calendar was given is its own: breaking it there breaks nothing else """
        zs = c["lib"].getComponents("VTIMEZONE")
        if zs:
            z = zs[op["x"] % len(zs)]
            for sub in list(z.getComponents()):
                z.removeComponent(sub)
            c["defs"] = [d for d in c["defs"] if IDS[d[0]] != z.getID()]
            c["lib"].removeComponent(z)
        for z in range(NKNOWN):
            d = self.known(z)
            if d is not None:
                t = D.secs((2015, 1, 5, 12, 0, 0)) + 86400 * op["x"]
                o = TimezoneDatabase.getTimezoneOffsetSeconds(IDS[z], make_dt("floating", t))
                if o not in self.zones[z][d].offsets_wall(t):
                    ctx.fail("shared", "a definition changed in a calendar changed in the database: %s at %s has the offset %s (%s)" % (IDS[z], D.fmtsec(t), o, self.where(c)))


SCENARIO = P08()
