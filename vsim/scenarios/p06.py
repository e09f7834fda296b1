"""
P06: the time zone database: files that come, go, break and cannot be read for a while.
"""
import copy
from vsim import core, dates as D, simfs, tzmodel
from vsim.lib import LibScenario, make_dt
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

TZIDS = ["Sim/A", "Sim/B", "Sim/Area/C", "Top", "Sim/None"]
DAMAGE = ["cut", "cut", "empty", "binary", "value", "dtstart", "rule", "noid", "other", "begin", "prop", "nocal"]


def damage(text, how, x):
    lines = text.split("\r\n")
    if how == "cut":
        return text[:x * (len(text) - 16) // 1000000]
    if how == "empty":
        return ""
    if how == "binary":
        return "".join([chr((x * 7 + i * 31) % 256) for i in range(200)])
    if how == "nocal":
        return "\r\n".join([l for l in lines if "VCALENDAR" not in l])

    def put(start, new):
        done = False
        out = []
        for l in lines:
            if l.startswith(start) and not done:
                done = True
                l = new
            if l is not None:
                out.append(l)
        return "\r\n".join(out)
    if how == "value":
        return put("TZOFFSETTO", "TZOFFSETTO:east")
    if how == "dtstart":
        return put("DTSTART", "DTSTART:19x")
    if how == "rule":
        return put("TZOFFSETTO", "RRULE:FREQ=NEVER")
    if how == "noid":
        return put("TZID", None)
    if how == "other":
        return put("TZID", "TZID:Sim/Elsewhere")
    if how == "begin":
        return put("TZOFFSETTO", "BEGIN:STANDARD")
    return put("TZOFFSETTO", "no property at all")


class P06(LibScenario):
    prop = "P06"

    def generate(self, rnd, tier):
        # several definitions of each
        defs = []
        for z in TZIDS:
            defs.append([tzmodel.gen_zone(rnd, z) for _i in range(3)])
        files = [rnd.choice([0, 0, None]) for _z in TZIDS]
        files[-1] = None
        ops = []
        for _i in range(rnd.between(4, 16)):
            k = rnd.weighted([("ask", 12), ("std", 3), ("merge", 4), ("clear", 2), ("file", 3), ("gone", 1), ("damage", 2), ("write", 2)])
            op = {"op": k, "z": rnd.below(len(TZIDS)), "d": rnd.below(3), "x": rnd.below(1000000)}
            if k in ("ask", "std", "merge", "write") and rnd.chance(35):
                op["fault"] = {"at": rnd.choice(["open", rnd.below(1000000), rnd.below(1000000)]), "err": rnd.choice(["ioerror", "ioerror", "eof"])}
                if op["fault"]["at"] == "open":
                    op["fault"]["err"] = rnd.choice(["emfile", "eio", "eacces"])
            if k == "ask":
                op["how"] = rnd.choice(["offset", "offset", "name", "dt", "cal", "event"])
            if k == "damage":
                op["how"] = rnd.choice(DAMAGE)
            ops.append(op)
        return {"defs": defs, "files": files, "ops": ops, "path": rnd.choice(["%s", "%s", "%s/", "%s/../db", "%s/./"])}

    def simplify(self, case):
        for i in range(len(case["ops"])):
            if case["ops"][i].get("fault"):
                c = copy.deepcopy(case)
                del c["ops"][i]["fault"]
                yield c

    # -- model: cache[tzid] is absent (never asked), None (known to be unknown), ["std", def] or ["cal", def]; "?" when a
    # damaged file decides

    def execute(self, case, ctx):
        fs = simfs.SimFS()
        try:
            self.run(case, ctx, fs)
        finally:
            fs.close()

    def run(self, case, ctx, fs):
        self.zones = [[tzmodel.Zone(d, 2045) for d in ds] for ds in case["defs"]]
        self.disk = {}
        self.cache = {}
        self.fs = fs
        self.kinds = []
        fs.write("db/keep", "")
        for i, d in enumerate(case["files"]):
            if d is not None:
                self.put(i, d)
        TimezoneDatabase.createTimezoneDatabase(case["path"] % (fs.real("db"),))
        for op in case["ops"]:
            self.op = op
            i = op["z"]
            k = op["op"]
            if k in ("file", "gone", "damage"):
                if k == "file":
                    self.put(i, op["d"])
                elif k == "gone":
                    self.disk.pop(i, None)
                    fs.remove("db/%s.ics" % TZIDS[i])
                else:
                    fs.write("db/%s.ics" % TZIDS[i], damage(self.zones[i][op["d"]].calendar(), op["how"], op["x"]))
                    self.disk[i] = "bad"
                    ctx.fault("file_%s" % op["how"])
            elif k == "clear":
                TimezoneDatabase.clearTimezoneDatabase()
                self.cache = {}
            else:
                fault = op.get("fault")
                fs.arm(fault)
                n = len(fs.opened)
                try:
                    getattr(self, "op_" + k)(ctx, i, op)
                finally:
                    fs.disarm()
                if fs.struck:
                    ctx.fault("file_open_%s" % fault["err"] if fs.struck == "open" else "file_read_%s" % fault["err"])
                if fs.live:
                    ctx.fail("leak", "%s left %d files open" % (k, len(fs.live)))
                del fs.opened[n:]
            self.kinds.append(k[0] + ("!" if fs.struck else ""))
            fs.hit = fs.struck = None
            ctx.ev(k, i, op.get("how"), repr(self.cache.get(i, "-")))
            ctx.fp("".join(self.kinds[-4:]), [repr(self.cache.get(j, "-"))[:5] for j in range(len(TZIDS))], op.get("how"))
        # faults over: everything there is can be had
        TimezoneDatabase.clearTimezoneDatabase()
        self.cache = {}
        for i in range(len(TZIDS)):
            if self.disk.get(i) != "bad":
                self.op = {"op": "end", "x": 7}
                self.expect(ctx, i, "offset", 11)

    def put(self, i, d):
        self.disk[i] = d
        self.fs.write("db/%s.ics" % TZIDS[i], self.zones[i][d].calendar())

    def looked(self, i):
        """ what a lookup just made may have given """
        if i in self.cache:
            return [self.cache[i]]
        d = self.disk.get(i)
        hit, self.fs.hit = self.fs.hit, None
        if hit == "eof" or d is None:
            st = None
        elif d == "bad":
            # no telling what a damaged file gives, but it is one thing or the other
            st = "?"
        else:
            st = ["std", d]
        if hit in ("open", "read"):
            # not remembered; the call may have looked again itself
            return [None, st]
        self.cache[i] = st
        return [st]

    def where(self, i):
        return "%s after %s" % (TZIDS[i], "".join(self.kinds))

    def settle(self, ctx, i):
        """ a look without faults: the state from now on, None, ["std", def], ["cal", def], or ["any", None] """
        tz = TimezoneDatabase.getTimezone(TZIDS[i])
        st = self.looked(i)[0]
        if st == "?":
            # from now on it is what it has turned out to be
            st = self.cache[i] = ["any", None] if tz is not None else None
        return tz, st

    def expect(self, ctx, i, how, x):
        tzid = TZIDS[i]
        secs = D.secs((2012, 1, 1, 0, 0, 0)) + x % (86400 * 365 * 8)
        name = None
        if how == "cal":
            cal = TimezoneDatabase.getTimezoneInCalendar(tzid)
            got = None
            if cal is not None:
                # it is the caller's own
                tz = cal.getTimezone(tzid)
                got = tz.getTimezoneOffsetSeconds(make_dt("floating", secs))
                cal.removeComponent(tz)
        elif how == "name":
            name = TimezoneDatabase.getTimezoneDescriptor(tzid, make_dt("floating", secs))
        elif how == "dt":
            got = secs - make_dt("local", secs, tzid).getPosixTime()
        elif how == "event":
            # within a calendar that uses the zone but does not define it
            cal = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20100101T000000Z\r\n"
                                     "DTSTART;TZID=%s:%s\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % (tzid, D.fmtsec(secs)))
            got = secs - cal.getComponents("VEVENT")[0].getStart().getPosixTime()
        else:
            got = TimezoneDatabase.getTimezoneOffsetSeconds(tzid, make_dt("floating", secs))
        states = self.looked(i)

        def fits(st):
            if st == "?" or st is not None and st[0] == "any":
                return True
            if name is not None:
                if st is None:
                    return name == ""
                z = self.zones[i][st[1]]
                w = z.name_wall(secs)
                return z.offset_wall(secs) is None or name == ("(%s)" % w[3] if w[3] else tzmodel.off_text(w[2])[:5])
            if st is None:
                return got in (None, 0)
            return got in self.zones[i][st[1]].offsets_wall(secs)
        if not [1 for st in states if fits(st)]:
            ctx.fail("unknown-zone" if states == [None] else "wrong-zone", "%s: %s at %s is %r, should be %s" % (
                self.where(i), how, D.fmtsec(secs), got if name is None else name, states))
        # what is known and what is standard goes together with that
        tz, st = self.settle(ctx, i)
        if (tz is not None) != (st is not None):
            ctx.fail("known", "%s: is %sknown, should be %s" % (self.where(i), "" if tz is not None else "un", st))
        if tz is not None and tz.getID() != tzid:
            ctx.fail("wrong-zone", "%s: the zone given is %s" % (self.where(i), tz.getID()))
        self.standard(ctx, i, TimezoneDatabase.isStandardTimezone(tzid), [st])
        # a zone is there once
        cal = TimezoneDatabase.getTimezoneDatabase().calendar
        n = len([c for c in cal.getComponents("VTIMEZONE") if c.getID() == tzid])
        if n > 1:
            ctx.fail("twice", "%s: is there %d times" % (self.where(i), n))

    def standard(self, ctx, i, got, states):
        for st in states:
            if st == "?" or st is not None and st[0] == "any" or got == (st is not None and st[0] == "std"):
                return
        ctx.fail("standard", "%s: is %sa standard zone, should be %s" % (self.where(i), "" if got else "not ", states))

    def op_ask(self, ctx, i, op):
        self.expect(ctx, i, op["how"], op["x"])

    def op_std(self, ctx, i, op):
        got = TimezoneDatabase.isStandardTimezone(TZIDS[i])
        self.standard(ctx, i, got, self.looked(i))
        self.settle(ctx, i)

    def op_merge(self, ctx, i, op):
        """ a calendar brings its own definition """
        if self.cache.get(i) == "?":
            self.settle(ctx, i)
        cal = Calendar.parseText(self.zones[i][op["d"]].calendar())
        states = self.looked(i)
        if states == [None]:
            self.cache[i] = ["cal", op["d"]]
        elif len(states) > 1 or states[0] == "?":
            # whether the file was usable in the end decides who was first
            if TimezoneDatabase.isStandardTimezone(TZIDS[i]):
                self.cache[i] = states[-1] if states[-1] != "?" else ["any", None]
            else:
                self.cache[i] = ["cal", op["d"]] if states[-1] != "?" else ["any", None]
        # changing what was read does not change what is known
        tz = cal.getTimezone(TZIDS[i])
        if op["x"] % 2:
            for c in list(tz.getComponents()):
                tz.removeComponent(c)
            tz.removeProperties("TZID")
        self.expect(ctx, i, "offset", op["x"])

    def op_write(self, ctx, i, op):
        """ a calendar that uses the zone is written: only a zone that is not standard goes with it """
        cal = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20100101T000000Z\r\n"
                                 "DTSTART;TZID=%s:20140101T120000\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % (TZIDS[i],))
        text = cal.getText()
        states = self.looked(i)
        has = "BEGIN:VTIMEZONE" in text
        if len(states) == 1 and states[0] != "?" and (states[0] is None or states[0][0] != "any"):
            want = states[0] is not None and states[0][0] == "cal"
            if has != want:
                ctx.fail("included", "%s: written %s the zone, should be %s" % (self.where(i), "with" if has else "without", states))
        self.settle(ctx, i)


SCENARIO = P06()
