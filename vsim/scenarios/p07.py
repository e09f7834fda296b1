"""
P07: a time zone identifier, however it is spelled and wherever it comes from, leads to no file outside the database.
"""
from vsim import core, dates as D, simfs, tzmodel
from vsim.lib import LibScenario, make_dt
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

INSIDE = ["Top", "Area/City", "Area/Deep/Town", "db/Top", "a..b", "..c", "Area.x/City"]
# where there is something that must not be found, from the parent of the database
OUTSIDE = ["Secret", "db-private/Secret", "dbx", "db2/Area/City", "other/Secret", "..dot/Secret", "db.ics/Secret"]
DBS = ["db", "top/db", "db/Area"]
FORMS = ["%s", "%s/", "%s/.", "%s//", "%s/../{base}", "./{rel}", "{rel}", "%s/Area/.."]


class P07(LibScenario):
    prop = "P07"

    def generate(self, rnd, tier):
        ops = []
        for _i in range(rnd.between(3, 14)):
            k = rnd.weighted([("ask", 12), ("clear", 1), ("open", 2)])
            op = {"op": k, "form": rnd.choice(FORMS)}
            if k == "ask":
                op["how"] = rnd.choice(["get", "get", "std", "cal", "dt", "event", "zone", "write"])
                op["id"] = self.gen_id(rnd)
                if rnd.chance(10):
                    op["fault"] = {"at": rnd.choice(["open", rnd.below(1000000)]), "err": "ioerror"}
            ops.append(op)
        return {"db": rnd.choice(["db", "db", "db", "top/db"]), "form": rnd.choice(FORMS), "ops": ops}

    def gen_id(self, rnd):
        k = rnd.below(10)
        if k < 2:
            return rnd.choice(INSIDE)
        if k < 3:
            return "//".join(rnd.choice(INSIDE).split("/")) if rnd.chance(50) else "./" + rnd.choice(INSIDE)
        if k == 3:
            # leaves and comes back
            return rnd.choice(["../{base}/%s", "Area/../%s", "x/../%s"]) % (rnd.choice(INSIDE),)
        t = rnd.choice(OUTSIDE)
        up = rnd.choice(["../", "../", "./../", "Area/../../", "..//", "Area/Deep/../../../", "../{base}/../", "nothere/../../"])
        if k == 4:
            return "{root}/" + t
        if k == 5:
            return "../" * rnd.between(2, 12) + "{rootrel}/" + t
        if k == 6:
            return rnd.choice(["", ".", "..", "../", "/", "../{base}", "Top\\..\\..\\Secret", "..\\Secret", "%2e%2e/Secret", "../Secret\n", "Area/..", "~", "../" + t.upper()])
        return up + t

    def execute(self, case, ctx):
        fs = simfs.SimFS()
        try:
            self.run(case, ctx, fs)
        finally:
            fs.close()

    def run(self, case, ctx, fs):
        import os
        base = os.path.basename(case["db"])
        db = fs.real(case["db"])
        parent = os.path.dirname(case["db"])

        def exp(s):
            return s.replace("{base}", base).replace("{rootrel}", os.path.dirname(db).lstrip("/")).replace("{root}", os.path.dirname(db))
        inside = {}
        for i, n in enumerate(INSIDE):
            self.zone_file(fs, "%s/%s.ics" % (case["db"], n), [n])
            inside[n] = 3600 + 60 * i
        ids = sorted(set([exp(op["id"]) for op in case["ops"] if op.get("id")]))
        for n in OUTSIDE:
            # answers to whatever it is called by
            mine = [x for x in ids if x.rstrip("\n").endswith(n)] or [n]
            self.zone_file(fs, os.path.join(parent, n + ".ics"), mine)
        self.open_db(db, case["form"], base)
        hist = []
        for op in case["ops"]:
            if op["op"] == "clear":
                TimezoneDatabase.clearTimezoneDatabase()
                hist.append("c")
                continue
            if op["op"] == "open":
                self.open_db(db, op["form"], base)
                hist.append("o")
                continue
            tzid = exp(op["id"])
            n = len(fs.opened)
            fs.arm(op.get("fault"))
            got = self.ask(op["how"], tzid)
            struck = fs.struck
            fs.disarm()
            if struck:
                ctx.fault("file_%s" % struck)
            for p in fs.opened[n:]:
                if not p.startswith(os.path.realpath(db) + "/"):
                    ctx.fail("outside", "%r opened a file outside the database directory (%s form %s)" % (op["id"], os.path.relpath(p, fs.root), case["form"]))
            norm = os.path.normpath(tzid) if tzid else ""
            if tzid in inside:
                if not got and not struck and op["how"] != "write":
                    ctx.fail("not-found", "%r is in the database (opened as %s) but is not found" % (tzid, case["form"]))
            elif got:
                # other spellings of what is inside may or may not be found
                real = os.path.realpath(os.path.join(db, tzid + ".ics"))
                if not real.startswith(os.path.realpath(db) + "/"):
                    ctx.fail("outside", "%r gave a zone from outside the database (%s)" % (op["id"], case["form"]))
            hist.append("?" if not got else "+")
            ctx.ev(op["how"], op["id"], bool(got))
            ctx.fp("".join(hist[-3:]), op["how"], op["id"], case["form"])
        if fs.live:
            ctx.fail("leak", "%d files left open" % (len(fs.live),))

    def open_db(self, db, form, base):
        import os
        rel = os.path.relpath(db, os.getcwd())
        TimezoneDatabase.createTimezoneDatabase(form.replace("{base}", base).replace("{rel}", rel).replace("%s", db))

    def zone_file(self, fs, name, ids):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//v//EN"]
        for x in ids:
            if "\n" in x:
                continue
            lines += ["BEGIN:VTIMEZONE", "TZID:" + x.replace("\\", "\\\\"), "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0100", "TZNAME:IN", "END:STANDARD", "END:VTIMEZONE"]
        fs.write(name, "\r\n".join(lines + ["END:VCALENDAR", ""]))

    def ask(self, how, tzid):
        if how == "get":
            return TimezoneDatabase.getTimezone(tzid) is not None
        if how == "std":
            return TimezoneDatabase.isStandardTimezone(tzid)
        if how == "cal":
            return TimezoneDatabase.getTimezoneInCalendar(tzid) is not None
        if how == "dt":
            s = D.secs((2015, 1, 1, 0, 0, 0))
            return make_dt("local", s, tzid).getPosixTime() != s
        if how == "zone":
            # a calendar that defines it itself: found, but by its own definition
            if "\n" in tzid or not tzid:
                return False
            cal = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:VTIMEZONE\r\nTZID:%s\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nTZOFFSETFROM:+0000\r\n"
                                     "TZOFFSETTO:+0000\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\nEND:VCALENDAR\r\n" % (tzid.replace("\\", "\\\\"),))
            got = TimezoneDatabase.isStandardTimezone(tzid)
            TimezoneDatabase.clearTimezoneDatabase()
            return got
        if "\n" in tzid:
            return False
        cal = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20100101T000000Z\r\n"
                                 "DTSTART;TZID=\"%s\":20150101T000000\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % (tzid,))
        if how == "write":
            return "BEGIN:VTIMEZONE" in cal.getText(includeTimezones=Calendar.ALL_TIMEZONES)
        s = D.secs((2015, 1, 1, 0, 0, 0))
        return cal.getComponents("VEVENT")[0].getStart().getPosixTime() != s


SCENARIO = P07()
