"""
P04: date-times, durations and periods mean what their fields say, whatever was done to them before.
"""
import copy
from vsim import core, dates as D, tzmodel
from vsim.lib import LibScenario, install_zone
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar import definitions

DAY = 86400
HORIZON = D.secs((2058, 1, 1, 0, 0, 0))
FREQS = {"S": definitions.eRecurrence_SECONDLY, "M": definitions.eRecurrence_MINUTELY, "H": definitions.eRecurrence_HOURLY, "D": definitions.eRecurrence_DAILY,
         "W": definitions.eRecurrence_WEEKLY, "m": definitions.eRecurrence_MONTHLY, "Y": definitions.eRecurrence_YEARLY}
UNIT = {"S": 1, "M": 60, "H": 3600, "D": DAY, "W": 7 * DAY}


# -- the model: fields, whether there is a time, and the zone

def dt_(f, date, z):
    return {"f": list(f), "date": date, "z": z}


def wall(m):
    y, mo, d, h, mi, s = m["f"]
    return D.days(y, mo, d) * DAY + h * 3600 + mi * 60 + s


def setwall(m, w):
    if m["date"]:
        w = w // DAY * DAY
    m["f"] = list(D.wall(w))


def bad(m):
    return not D.valid(*m["f"][:3])


def text(m, iso=False):
    f = m["f"]
    out = ("%04d-%02d-%02d" if iso else "%04d%02d%02d") % tuple(f[:3])
    if m["date"]:
        return out
    out += ("T%02d:%02d:%02d" if iso else "T%02d%02d%02d") % tuple(f[3:])
    z = m["z"]
    if z == "utc":
        out += "Z"
    elif isinstance(z, int):
        out += ("%s%02d:%02d" if iso else "%s%02d%02d") % ("-" if z < 0 else "+", abs(z) // 3600, abs(z) // 60 % 60)
    return out


def gen_z(rnd):
    return rnd.weighted([("utc", 4), (None, 3), ("Sim/A", 5), ("Sim/B", 2), (-18000, 1), (19800, 1), (0, 1)])


def gen_dt(rnd, wide=False):
    y = rnd.choice([1900, 1969, 1972, 2000, 2100]) if wide and rnd.chance(15) else rnd.between(2003, 2030)
    mo = rnd.between(1, 12)
    d = rnd.choice([1, rnd.between(1, 28), D.mdays(y, mo), D.mdays(y, mo)])
    date = rnd.chance(25)
    t = [0, 0, 0] if date else [rnd.choice([0, 1, 2, 3, rnd.below(24), 23]), rnd.choice([0, 30, rnd.below(60), 59]), rnd.choice([0, rnd.below(60), 59])]
    return dt_([y, mo, d] + t, date, gen_z(rnd))


def gen_secs(rnd):
    return rnd.choice([0, 1, -1, 60, 3600, -3600, DAY, -DAY, 7 * DAY, 90061, 3601, -rnd.below(10 ** 6), rnd.below(10 ** 7), rnd.below(30) * DAY, rnd.below(9) * 7 * DAY])


def gen_durtext(rnd):
    """ text and seconds """
    k = rnd.below(6)
    sign, neg = rnd.choice([("", 1), ("+", 1), ("-", -1)])
    a, b, c, d = rnd.below(40), rnd.below(30), rnd.below(70), rnd.below(70)
    if k == 0:
        t, s = "P%dW" % a, a * 7 * DAY
    elif k == 1:
        t, s = "P%dD" % a, a * DAY
    elif k == 2:
        t, s = "P%dDT%dH" % (a, b), a * DAY + b * 3600
    elif k == 3:
        t, s = "PT%dH%dM%dS" % (b, c, d), b * 3600 + c * 60 + d
    elif k == 4:
        t, s = "PT%dM" % c, c * 60
    else:
        t, s = "P%dDT%dM%dS" % (a, c, d), a * DAY + c * 60 + d
    return sign + t, neg * s


DTOPS = [("setfield", 6), ("offset", 8), ("ymd", 2), ("hms", 2), ("yearday", 2), ("monthday", 2), ("wdyear", 2), ("wdmonth", 3), ("next", 2), ("weekno", 2), ("recur", 4), ("dateonly", 2),
         ("zone", 3), ("zoneid", 2), ("zoneutc", 2), ("adjust", 8), ("utc", 6), ("copy", 2), ("parse", 4), ("plus", 4), ("minus", 3), ("ask", 4)]


class P04(LibScenario):
    prop = "P04"

    def generate(self, rnd, tier):
        case = {"zones": [tzmodel.gen_zone(rnd, "Sim/A"), tzmodel.gen_zone(rnd, "Sim/B")],
                "dts": [gen_dt(rnd, True) for _i in range(rnd.between(1, 4))],
                "durs": [gen_secs(rnd) for _i in range(rnd.between(0, 2))], "pers": [], "ops": []}
        for _i in range(rnd.between(0, 2)):
            s = gen_dt(rnd)
            p = {"s": s, "e": None, "d": None}
            if rnd.chance(50):
                p["d"] = abs(gen_secs(rnd))
                if s["date"]:
                    p["d"] = p["d"] // DAY * DAY
            else:
                p["e"] = copy.deepcopy(s)
                setwall(p["e"], wall(s) + abs(gen_secs(rnd)))
                if rnd.chance(20) and not s["date"]:
                    p["e"]["z"] = gen_z(rnd)
            case["pers"].append(p)
        for _i in range(rnd.between(3, 18)):
            k = rnd.weighted([("dt", 20), ("dur", 3), ("per", 4), ("dup", 3), ("default", 2), ("reload", 1)])
            op = {"op": k, "i": rnd.below(1000)}
            if k == "dt":
                op.update(self.gen_dtop(rnd))
            elif k == "dur":
                op["k"] = rnd.choice(["set", "parse", "parse"])
                op["s"] = gen_secs(rnd)
                op["t"], op["n"] = gen_durtext(rnd)
            elif k == "per":
                op["k"] = rnd.choice(["use", "use", "utc", "parse"])
                op["u"] = rnd.chance(50)
                s = gen_dt(rnd)
                s["z"] = rnd.choice([None, "utc"])
                op["t"] = s
                if rnd.chance(50):
                    op["d"], op["n"] = gen_durtext(rnd)
                else:
                    op["d"], op["n"] = None, abs(gen_secs(rnd))
            elif k == "default":
                op["z"] = rnd.choice(["utc", "Sim/A", "Sim/B"])
            case["ops"].append(op)
        return case

    def gen_dtop(self, rnd):
        k = rnd.weighted(DTOPS)
        o = {"k": k, "a": rnd.chance(30)}
        if k in ("setfield", "offset"):
            o["f"] = rnd.below(6)
            o["n"] = [rnd.between(2003, 2030), rnd.between(1, 12), rnd.between(1, 31), rnd.below(24), rnd.below(60), rnd.below(60)][o["f"]] if k == "setfield" else \
                rnd.choice([1, -1, rnd.between(-3, 3), rnd.between(-40, 40) if o["f"] else 2, rnd.between(-4000, 4000) if o["f"] > 1 else -2])
        elif k in ("ymd", "hms", "adjust", "zone", "zoneid", "zoneutc"):
            o["d"] = gen_dt(rnd)
        elif k == "yearday":
            o["n"] = rnd.choice([1, -1, 365, 366, -365, -366, rnd.between(1, 366), -rnd.between(1, 366)])
        elif k == "monthday":
            o["n"] = rnd.choice([1, -1, 29, 30, 31, -29, -30, -31, rnd.between(1, 31), -rnd.between(1, 31)])
        elif k in ("wdyear", "wdmonth", "ask"):
            o["n"] = rnd.choice([-1, 1]) * rnd.between(1, 5)
            o["w"] = rnd.below(7)
            o["m"] = rnd.choice([-1, 1]) * rnd.between(1, 31)
        elif k == "next":
            o["n"], o["w"] = rnd.between(1, 28), rnd.below(7)
        elif k == "weekno":
            o["n"] = rnd.choice([1, 2, 52, rnd.between(1, 52)])
        elif k == "recur":
            o["q"], o["n"] = rnd.choice(["S", "M", "H", "D", "W", "m", "m", "m", "Y"]), rnd.choice([1, 1, 2, 3, 12, rnd.between(1, 40)])
        elif k in ("copy", "plus", "minus"):
            o["j"] = rnd.below(1000)
            o["s"] = gen_secs(rnd)
        elif k == "parse":
            o["d"] = gen_dt(rnd)
            o["iso"] = rnd.chance(40)
            if isinstance(o["d"]["z"], str) and o["d"]["z"] != "utc" or not o["iso"] and o["d"]["z"] != "utc" or o["d"]["date"]:
                o["d"]["z"] = None
            o["frac"] = rnd.chance(20)
        return o

    def simplify(self, case):
        for key in ("dts", "pers", "durs"):
            for i in range(len(case[key])):
                c = copy.deepcopy(case)
                del c[key][i]
                yield c

    # -- model of time

    def offsets(self, m, z=0):
        """ acceptable offsets of the wall clock, none when not settled """
        z = m["z"] if z == 0 else z
        if z is None:
            z = self.default
        if z == "utc":
            return (0,)
        if isinstance(z, int):
            return (z,)
        # (as far as the model of the zone goes)
        return self.zones[z].offsets_wall(wall(m)) if m["f"][0] < 2058 else ()

    def instant(self, m):
        o = self.offsets(m)
        return wall(m) - o[0] if len(o) == 1 else None

    def order(self, a, b):
        """ comparison, None when not settled """
        if a["date"] or b["date"]:
            return cmp(a["f"][:3], b["f"][:3])
        if a["z"] is None or b["z"] is None or (a["z"] == b["z"] and type(a["z"]) is type(b["z"])):
            return cmp(a["f"], b["f"])
        x, y = self.instant(a), self.instant(b)
        return None if x is None or y is None else cmp(x, y)

    def diff(self, a, b):
        a, b = dict(a), dict(b)
        if a["z"] is None and b["z"] is None:
            a["z"] = b["z"] = "utc"
        elif a["z"] is None:
            a["z"] = b["z"]
        elif b["z"] is None:
            b["z"] = a["z"]
        x, y = self.instant(a), self.instant(b)
        return None if x is None or y is None else x - y

    def to_zone(self, m, z):
        """ the same instant on the clock of the zone """
        out = copy.deepcopy(m)
        out["z"] = z
        if m["date"]:
            return out
        u = self.instant(m)
        if u is None:
            return None
        off = 0 if z == "utc" else z if isinstance(z, int) else self.zones[z].offset_utc(u) if u < HORIZON else None
        if off is None:
            return None
        setwall(out, u + off)
        return out

    # -- library values

    def tz(self, z):
        return Timezone(utc=True) if z == "utc" else Timezone(utc=False, tzid=z)

    def make(self, m):
        f = m["f"]
        if m["date"]:
            return DateTime(f[0], f[1], f[2], tzid=self.tz(m["z"]))
        return DateTime(f[0], f[1], f[2], f[3], f[4], f[5], tzid=self.tz(m["z"]))

    def load(self):
        for z in ("Sim/A", "Sim/B"):
            install_zone(self.zones[z])

    def execute(self, case, ctx):
        self.ctx = ctx
        self.default = "utc"
        self.zones = dict([(z["tzid"], tzmodel.Zone(z, 2060)) for z in case["zones"]])
        self.load()
        self.did = []
        self.dts = [{"m": copy.deepcopy(m), "lib": self.make(m)} for m in case["dts"]]
        self.durs = [{"s": s, "lib": Duration(duration=s)} for s in case["durs"]]
        self.pers = []
        for p in case["pers"]:
            p = copy.deepcopy(p)
            if p["d"] is not None:
                p["lib"] = Period(start=self.make(p["s"]), duration=Duration(duration=p["d"]))
            else:
                p["lib"] = Period(start=self.make(p["s"]), end=self.make(p["e"]))
            self.pers.append(p)
        self.check()
        for op in case["ops"]:
            self.did.append(op["op"] + (":" + op["k"] if "k" in op else ""))
            getattr(self, "op_" + op["op"])(op)
            self.check()
            ctx.ev(self.did[-1], [text(t["m"]) for t in self.targets()])
            ctx.fp(self.did[-2:], [(t["m"]["date"], t["m"]["z"]) for t in self.targets()], self.default)

    def fail(self, kind, msg):
        self.ctx.fail(kind, "%s; after %s; default zone %s" % (msg, " ".join(self.did), self.default))

    def targets(self):
        """ every date-time there is, those inside periods as well """
        out = list(self.dts)
        for p in self.pers:
            out.append({"m": p["s"], "lib": p["lib"].getStart()})
            if p["e"] is not None:
                out.append({"m": p["e"], "lib": p["lib"].getEnd()})
        return out

    def durations(self):
        return self.durs + [{"s": p["d"], "lib": p["lib"].getDuration(), "p": p} for p in self.pers if p["d"] is not None]

    def name(self, m):
        return "%s%s" % (text(m), "" if m["date"] or m["z"] in (None, "utc") or isinstance(m["z"], int) else "[%s]" % (m["z"],))

    # -- checks

    def check_dt(self, lib, m, what):
        f = m["f"]
        n = self.name(m)
        got = [lib.getYear(), lib.getMonth(), lib.getDay(), lib.getHours(), lib.getMinutes(), lib.getSeconds()]
        if got != f or lib.isDateOnly() != m["date"]:
            self.fail("fields", "%s: fields are %s%s, should be %s%s" % (what, got, " date" if lib.isDateOnly() else "", f, " date" if m["date"] else ""))
        z = "utc" if lib.getTimezoneUTC() else lib.getTimezoneID()
        if z != m["z"] or bool(lib.utc()) != (z == "utc") or bool(lib.floating()) != (not z) and z != 0:
            self.fail("zone", "%s: %s is in zone %s, should be in %s" % (what, n, z, m["z"]))
        if lib.getText() != text(m) or lib.getXMLText() != text(m, True):
            self.fail("text", "%s: text is %s and %s, should be %s and %s" % (what, lib.getText(), lib.getXMLText(), text(m), text(m, True)))
        if lib.invalid() != bad(m):
            self.fail("invalid", "%s: %s is %s invalid" % (what, n, "said to be" if lib.invalid() else "not said to be"))
        if lib.getDayOfWeek() != D.dow(D.days(*f[:3])):
            self.fail("weekday", "%s: the day of the week of %s is %d" % (what, n, lib.getDayOfWeek()))
        if not bad(m):
            if lib.getYearDay() != D.days(*f[:3]) - D.days(f[0], 1, 1) + 1:
                self.fail("yearday", "%s: the day in the year of %s is %d" % (what, n, lib.getYearDay()))
            if lib.getWeekNo() != D.weekno(D.days(*f[:3]), 1)[1]:
                self.fail("weekno", "%s: the week of %s is %d, should be %d" % (what, n, lib.getWeekNo(), D.weekno(D.days(*f[:3]), 1)[1]))
        offs = self.offsets(m)
        if offs and (not bad(m) or m["z"] in ("utc",) or isinstance(m["z"], int)):
            want = [wall(m) - o for o in offs]
            got = lib.getPosixTime()
            if got not in want:
                self.fail("instant", "%s: %s is the instant %d, should be %s" % (what, n, got, " or ".join([str(w) for w in want])))
            fresh = self.make(m)
            if fresh.getPosixTime() != got or hash(fresh) != hash(lib):
                self.fail("instant", "%s: %s is the instant %d, the same time written anew %d" % (what, n, got, fresh.getPosixTime()))

    def check_pair(self, a, b):
        n = "%s and %s" % (self.name(a["m"]), self.name(b["m"]))
        x, y = a["lib"], b["lib"]
        want = self.order(a["m"], b["m"])
        got = (x == y, x != y, x < y, x <= y, x > y, x >= y)
        if want is None:
            want = -1 if got[2] else 1 if got[4] else 0
        if got != (want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0):
            self.fail("order", "%s compare (== != < <= > >=) as %s, should as %d" % (n, got, want))
        if x.compareDate(y) != (a["m"]["f"][:3] == b["m"]["f"][:3]):
            self.fail("order", "the dates of %s compare wrongly" % (n,))
        if bad(a["m"]) or bad(b["m"]):
            return
        d = self.diff(a["m"], b["m"])
        if d is not None and (x - y).getTotalSeconds() != d:
            self.fail("difference", "from the second of %s to the first it is %d seconds, should be %d" % (n, (x - y).getTotalSeconds(), d))

    def check(self):
        ts = self.targets()
        for i, t in enumerate(ts):
            self.check_dt(t["lib"], t["m"], "value %d" % i)
        for a in ts:
            for b in ts:
                self.check_pair(a, b)
        ds = self.durations()
        for d in ds:
            lib = d["lib"]
            if lib.getTotalSeconds() != d["s"]:
                self.fail("duration", "a duration takes %d seconds, should take %d" % (lib.getTotalSeconds(), d["s"]))
            parts = (lib.getWeeks() * 7 + lib.getDays()) * DAY + lib.getHours() * 3600 + lib.getMinutes() * 60 + lib.getSeconds()
            if parts != abs(d["s"]) or (d["s"] and lib.getForward() != (d["s"] > 0)):
                self.fail("duration", "the parts of a duration of %d seconds are %d seconds %s" % (d["s"], parts, "on" if lib.getForward() else "back"))
            if Duration.parseText(lib.getText()).getTotalSeconds() != d["s"]:
                self.fail("duration", "a duration of %d seconds is written %s" % (d["s"], lib.getText()))
            for e in ds:
                x, y, want = lib, e["lib"], cmp(d["s"], e["s"])
                got = (x == y, x != y, x < y, x <= y, x > y, x >= y)
                if got != (want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0) or (want == 0 and hash(x) != hash(y)):
                    self.fail("duration-order", "durations of %d and %d seconds compare (== != < <= > >=) as %s" % (d["s"], e["s"], got))
        for p in self.pers:
            self.check_period(p)
            for q in self.pers:
                self.check_periods(p, q)

    def end(self, p):
        if p["d"] is None:
            return p["e"]
        e = copy.deepcopy(p["s"])
        setwall(e, wall(e) + p["d"])
        return e

    def check_period(self, p):
        lib, e = p["lib"], self.end(p)
        self.check_dt(lib.getStart(), p["s"], "start")
        self.check_dt(lib.getEnd(), e, "end")
        if lib.getUseDuration() != (p["d"] is not None):
            self.fail("period", "a period %s a duration" % ("has" if lib.getUseDuration() else "lacks",))
        d = p["d"] if p["d"] is not None else self.diff(e, p["s"])
        if d is not None and lib.getDuration().getTotalSeconds() != d:
            self.fail("period", "%s lasts %d seconds, should last %d" % (lib, lib.getDuration().getTotalSeconds(), d))
        want = text(p["s"]) + "/" + (Duration(duration=d).getText() if p["d"] is not None else text(e))
        if p["d"] is None and lib.getText() != want:
            self.fail("period", "a period is written %s, should be %s" % (lib.getText(), want))
        for t in self.dts:
            a, b = self.order(t["m"], p["s"]), self.order(t["m"], e)
            if a is not None and b is not None:
                got = (lib.isDateWithinPeriod(t["lib"]), lib.isDateBeforePeriod(t["lib"]), lib.isDateAfterPeriod(t["lib"]))
                if got != (a >= 0 and b < 0, a < 0, b >= 0):
                    self.fail("within", "%s is (within, before, after) %s of the period %s to %s" % (self.name(t["m"]), got, self.name(p["s"]), self.name(e)))

    def check_periods(self, p, q):
        x, y = p["lib"], q["lib"]
        pe, qe = self.end(p), self.end(q)
        s, e = self.order(p["s"], q["s"]), self.order(pe, qe)
        n = "%s to %s and %s to %s" % (self.name(p["s"]), self.name(pe), self.name(q["s"]), self.name(qe))
        if s is not None and e is not None:
            want = s or e
            got = (x == y, x != y, x < y, x <= y, x > y, x >= y)
            if got != (want == 0, want != 0, want < 0, want <= 0, want > 0, want >= 0):
                self.fail("period-order", "the periods %s compare (== != < <= > >=) as %s, should as %d" % (n, got, want))
        a, b = self.order(p["s"], qe), self.order(pe, q["s"])
        if a is not None and b is not None and x.isPeriodOverlap(y) != (a < 0 and b > 0):
            self.fail("overlap", "the periods %s are %s to overlap" % (n, "said" if x.isPeriodOverlap(y) else "not said"))

    # -- operations

    def op_default(self, op):
        """ the zone of the process changes """
        self.default = op["z"]
        Timezone.sDefaultTimezone = self.tz(op["z"])
        self.ctx.fault("default zone change")

    def op_reload(self, op):
        """ the database is emptied and filled again with the same """
        TimezoneDatabase.clearTimezoneDatabase()
        self.load()
        self.ctx.fault("database reload")

    def op_dup(self, op):
        """ a copy that lives on by itself """
        k = op["i"] % 3
        if k == 2 and self.pers and len(self.pers) < 4:
            p = self.pers[op["i"] % len(self.pers)]
            self.pers.append(dict(copy.deepcopy(dict((k, v) for k, v in p.items() if k != "lib")), lib=p["lib"].duplicate()))
        elif k == 1 and self.durations() and len(self.durs) < 4:
            d = self.durations()[op["i"] % len(self.durations())]
            self.durs.append({"s": d["s"], "lib": d["lib"].duplicate()})
        elif self.targets() and len(self.dts) < 6:
            t = self.targets()[op["i"] % len(self.targets())]
            if op["i"] % 2:
                m = self.to_zone(t["m"], "utc") if t["m"]["z"] is not None and not t["m"]["date"] else copy.deepcopy(t["m"])
                if m is not None:
                    self.dts.append({"m": m, "lib": t["lib"].duplicateAsUTC()})
            else:
                self.dts.append({"m": copy.deepcopy(t["m"]), "lib": t["lib"].duplicate()})

    def op_dur(self, op):
        ds = self.durations()
        if not ds:
            return
        d = ds[op["i"] % len(ds)]
        if op["k"] == "set":
            d["lib"].setDuration(op["s"])
            s = op["s"]
        else:
            d["lib"].parse(op["t"])
            s = op["n"]
        d["s"] = s
        if "p" in d:
            d["p"]["d"] = s

    def op_per(self, op):
        if not self.pers:
            return
        p = self.pers[op["i"] % len(self.pers)]
        lib, e = p["lib"], self.end(p)
        if op["k"] == "use":
            if op["u"] and p["d"] is None:
                d = self.diff(e, p["s"])
                # (arithmetic is done on the wall clock)
                if d is None or p["s"]["date"] != e["date"]:
                    return
                t = copy.deepcopy(p["s"])
                setwall(t, wall(t) + d)
                if self.instant(t) is None or self.instant(t) != self.instant(e) or (t["z"] is None) != (e["z"] is None):
                    return
                p["d"], p["e"] = d, None
            elif not op["u"] and p["d"] is not None:
                p["d"], p["e"] = None, e
            lib.setUseDuration(op["u"])
        elif op["k"] == "utc":
            new = [m if m["date"] or m["z"] is None else self.to_zone(m, "utc") for m in (p["s"], e)]
            if None in new or p["s"]["date"] or e["date"]:
                return
            if p["d"] is None:
                p["e"] = copy.deepcopy(new[1])
            else:
                # it covers the time it did
                d = self.diff(new[1], new[0])
                if d is None:
                    return
                p["d"] = d
            p["s"] = copy.deepcopy(new[0])
            lib.adjustToUTC()
        else:
            s = copy.deepcopy(op["t"])
            if op["d"] is not None:
                if op["n"] < 0:
                    return
                lib.parse(text(s) + "/" + op["d"].lstrip("+"))
                p["s"], p["e"], p["d"] = s, None, op["n"]
            else:
                t = copy.deepcopy(s)
                setwall(t, wall(s) + op["n"])
                lib.parse(text(s) + "/" + text(t))
                if s["date"]:
                    s["z"] = t["z"] = None
                p["s"], p["e"], p["d"] = s, t, None
            if s["date"]:
                s["z"] = None

    def op_dt(self, op):
        ts = self.targets()
        if not ts:
            return
        t = ts[op["i"] % len(ts)]
        getattr(self, "do_" + op["k"])(t["lib"], t["m"], op)
        if bad(t["m"]):
            self.check_dt(t["lib"], t["m"], "changed value")
            t["lib"].normalise()
            setwall(t["m"], wall(t["m"]))

    def do_setfield(self, lib, m, op):
        f = list(m["f"])
        f[op["f"]] = op["n"]
        if not D.valid(*f[:3]) or (m["date"] and op["f"] > 2):
            return
        getattr(lib, ["setYear", "setMonth", "setDay", "setHours", "setMinutes", "setSeconds"][op["f"]])(op["n"])
        m["f"] = f

    def do_offset(self, lib, m, op):
        k, n = op["f"], op["n"]
        getattr(lib, ["offsetYear", "offsetMonth", "offsetDay", "offsetHours", "offsetMinutes", "offsetSeconds"][k])(n)
        if k > 1:
            setwall(m, wall(m) + n * [0, 0, DAY, 3600, 60, 1][k])
        else:
            mo = m["f"][0] * 12 + m["f"][1] - 1 + n * (12 if k == 0 else 1)
            m["f"][0], m["f"][1] = mo // 12, mo % 12 + 1
            setwall(m, wall(m))

    def do_ymd(self, lib, m, op):
        lib.setYYMMDD(*op["d"]["f"][:3])
        m["f"][:3] = op["d"]["f"][:3]

    def do_hms(self, lib, m, op):
        if not m["date"]:
            lib.setHHMMSS(*op["d"]["f"][3:])
            m["f"][3:] = op["d"]["f"][3:]

    def day(self, m, z, allow=False):
        """ move to the day, keeping the time """
        setwall(m, z * DAY + wall(m) % DAY)

    def do_yearday(self, lib, m, op):
        lib.setYearDay(op["n"])
        y = m["f"][0]
        self.day(m, D.days(y, 1, 1) + op["n"] - 1 if op["n"] > 0 else D.days(y, 12, 31) + op["n"] + 1)

    def do_monthday(self, lib, m, op):
        lib.setMonthDay(op["n"], op["a"])
        y, mo = m["f"][:2]
        d = op["n"] if op["n"] > 0 else D.mdays(y, mo) + op["n"] + 1
        m["f"][2] = d
        if not op["a"]:
            setwall(m, wall(m))

    def nth(self, first, last, n, w):
        if n > 0:
            return first + (w - D.dow(first)) % 7 + 7 * (n - 1)
        return last - (D.dow(last) - w) % 7 + 7 * (n + 1)

    def do_wdyear(self, lib, m, op):
        lib.setDayOfWeekInYear(op["n"], op["w"])
        y = m["f"][0]
        self.day(m, self.nth(D.days(y, 1, 1), D.days(y, 12, 31), op["n"], op["w"]))

    def do_wdmonth(self, lib, m, op):
        lib.setDayOfWeekInMonth(op["n"], op["w"], op["a"])
        y, mo = m["f"][:2]
        z = self.nth(D.days(y, mo, 1), D.days(y, mo, D.mdays(y, mo)), op["n"], op["w"])
        m["f"][2] = z - D.days(y, mo, 1) + 1
        if not op["a"]:
            setwall(m, wall(m))

    def do_next(self, lib, m, op):
        lib.setNextDayOfWeek(op["n"], op["w"])
        z = D.days(m["f"][0], m["f"][1], op["n"])
        self.day(m, z + (op["w"] - D.dow(z)) % 7)

    def do_weekno(self, lib, m, op):
        z = D.days(*m["f"][:3])
        lib.setWeekNo(op["n"])
        if D.weekno(z, 1)[1] != op["n"]:
            self.day(m, D.week1(m["f"][0], 1) + 7 * (op["n"] - 1) + (D.dow(z) - 1) % 7)

    def do_recur(self, lib, m, op):
        q, n = op["q"], op["n"]
        if q in UNIT:
            setwall(m, wall(m) + UNIT[q] * n)
        elif q == "m":
            mo = m["f"][0] * 12 + m["f"][1] - 1
            while True:
                mo += n
                if op["a"] or D.valid(mo // 12, mo % 12 + 1, m["f"][2]):
                    break
                if mo > 12 * 2400:
                    return
            m["f"][0], m["f"][1] = mo // 12, mo % 12 + 1
        else:
            if m["f"][1:3] == [2, 29] and not op["a"]:
                return
            m["f"][0] += n
        lib.recur(FREQS[q], n, allow_invalid=op["a"])

    def do_dateonly(self, lib, m, op):
        lib.setDateOnly(op["a"])
        m["date"] = op["a"]
        if op["a"]:
            m["f"][3:] = [0, 0, 0]

    def do_zone(self, lib, m, op):
        lib.setTimezone(self.tz(op["d"]["z"]))
        m["z"] = op["d"]["z"]

    def do_zoneid(self, lib, m, op):
        z = op["d"]["z"]
        if z != "utc":
            lib.setTimezoneID(z)
            m["z"] = z

    def do_zoneutc(self, lib, m, op):
        if m["z"] in (None, "utc") and lib.getTimezoneID() is None:
            lib.setTimezoneUTC(op["a"])
            m["z"] = "utc" if op["a"] else None

    def do_adjust(self, lib, m, op):
        z = op["d"]["z"]
        if z is None or m["z"] is None:
            return
        new = self.to_zone(m, z) if z != m["z"] else m
        if new is None:
            return
        lib.adjustTimezone(self.tz(z))
        m.update(copy.deepcopy(new))

    def do_utc(self, lib, m, op):
        if m["z"] is None or m["date"]:
            lib.adjustToUTC()
            return
        new = self.to_zone(m, "utc")
        if new is not None:
            lib.adjustToUTC()
            m.update(new)

    def do_copy(self, lib, m, op):
        o = self.targets()[op["j"] % len(self.targets())]
        if o["lib"] is not lib:
            lib.copy(o["lib"])
            m.update(copy.deepcopy(o["m"]))

    def do_parse(self, lib, m, op):
        d = op["d"]
        t = text(d, op["iso"])
        if op["iso"] and op["frac"] and not d["date"] and d["z"] is not None:
            t = text(dict(d, z=None), True) + ",25" + t[19:]
        lib.parse(t, op["iso"])
        m.update(copy.deepcopy(d))

    def do_plus(self, lib, m, op):
        """ the sum is another value """
        if len(self.dts) < 6:
            new = copy.deepcopy(m)
            setwall(new, wall(m) + op["s"])
            self.dts.append({"m": new, "lib": lib + Duration(duration=op["s"])})

    def do_minus(self, lib, m, op):
        if len(self.dts) < 6:
            new = copy.deepcopy(m)
            setwall(new, wall(m) - op["s"])
            self.dts.append({"m": new, "lib": lib - Duration(duration=op["s"])})

    def do_ask(self, lib, m, op):
        y, mo, d = m["f"][:3]
        z = D.days(y, mo, d)
        want = D.dow(z) == op["w"] and z == self.nth(D.days(y, mo, 1), D.days(y, mo, D.mdays(y, mo)), op["n"], op["w"])
        if lib.isDayOfWeekInMonth(op["n"], op["w"]) != want or lib.isDayOfWeekInMonth(0, op["w"]) != (D.dow(z) == op["w"]):
            self.fail("day-of-week", "%s is %s weekday %d number %d" % (self.name(m), "not" if want else "said to be", op["w"], op["n"]))
        if lib.isMonthDay(op["m"]) != (d == op["m"] or d == D.mdays(y, mo) + op["m"] + 1):
            self.fail("month-day", "%s is wrongly%s day %d of the month" % (self.name(m), "" if lib.isMonthDay(op["m"]) else " not", op["m"]))
        n = abs(op["m"])
        if lib.isWeekNo(n) != (D.weekno(z, 1)[1] == n):
            self.fail("week", "%s is wrongly in week %d or not" % (self.name(m), n))


SCENARIO = P04()
