"""
P03: time zone answers.  Zones are loaded as users load them, then asked for offsets (by wall clock and by UTC),
abbreviations and onset lists in seeded orders, with tiny offset caches, the database cleared, the zone re-read or
duplicated in between; every answer is compared with an eager, cache-free model of the zone.
"""
from vsim import dates as D
from vsim import tzmodel
from vsim.lib import LibScenario, make_dt, install_zone, dt_wall
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vtimezone import VTimezone
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

DEFAULT_MAX = VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES


def add_lmt(rnd, spec):
    """ local mean time, with seconds, before the first observance """
    first = min([o["start"] for o in spec["obs"]])
    base = [o for o in spec["obs"] if o["start"] == first][0]
    lmt = base["from"] + rnd.between(-1500, 1500)
    start = first - 86400 * rnd.between(1000, 9000)
    # the first real onset is at standard midnight, expressed in LMT wall clock
    base["start"] = first
    base["from"] = lmt
    base["start"] = first - (base["to"] - lmt)
    spec["obs"].insert(0, {"kind": "STANDARD", "start": start, "from": lmt, "to": lmt, "name": "LMT" if base.get("name") else None})


class P03(LibScenario):
    prop = "P03"

    def generate(self, rnd, tier):
        config = rnd.weighted([("plain", 4), ("smallcache", 3), ("reload", 3)])
        zones = []
        for i in range(rnd.between(1, 2)):
            z = tzmodel.gen_zone(rnd, "Sim/Zone%d" % i)
            if rnd.chance(25):
                add_lmt(rnd, z)
            zones.append(z)
        case = {"config": config, "zones": zones, "ops": []}
        if config == "smallcache":
            case["cachemax"] = rnd.between(1, 4)
        models = [tzmodel.Zone(z, 2046) for z in zones]
        focus = [None] * len(zones)
        for _i in range(rnd.between(4, 24)):
            zi = rnd.below(len(zones))
            m = models[zi]
            k = rnd.weighted([("wall", 8), ("utc", 8), ("name", 6), ("all", 3), ("dup", 1), ("again", 2),
                              ("clear", 2 if config == "reload" else 0), ("reread", 2 if config == "reload" else 0),
                              ("generate", 1)])
            op = {"op": k, "z": zi}
            if k in ("wall", "utc", "name"):
                if focus[zi] is not None and rnd.chance(35):
                    t = focus[zi]
                else:
                    t = rnd.choice([x for x in m.trans if x[0] < D.secs((2044, 1, 1, 0, 0, 0))])
                    focus[zi] = t
                d = rnd.weighted([(rnd.between(-5400, 5400), 4), (rnd.between(-59, 59), 4), (rnd.choice([-1, 0, 1, 3599, 3600, 3601, -3600]), 4),
                                  (86400 * rnd.between(-200, 200), 3), (86400 * rnd.between(-4000, 4000), 2)])
                w = (t[0] if k != "utc" else t[0] - t[1]) + d
                op["t"] = min(w, D.secs((2044, 12, 31, 23, 59, 59)))
            elif k == "all":
                y = rnd.between(1960, 2040)
                op["a"] = D.secs((y, rnd.between(1, 12), 1, 0, 0, 0)) if rnd.chance(70) else None
                op["b"] = D.secs((min(2044, y + rnd.between(0, 12)), rnd.between(1, 12), rnd.between(1, 28), rnd.between(0, 23), 0, 0))
                op["named"] = rnd.chance(50)
            case["ops"].append(op)
        return case

    def cleanup(self):
        VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = DEFAULT_MAX
        LibScenario.cleanup(self)

    def execute(self, case, ctx):
        if case.get("cachemax"):
            VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = case["cachemax"]
            ctx.fault("offset_cache_shrunk")
        self.models = [tzmodel.Zone(z, 2046) for z in case["zones"]]
        self.cals = [install_zone(m) for m in self.models]
        self.objs = [c.getComponents("VTIMEZONE")[0] for c in self.cals]
        self.last = [None] * len(self.models)
        hist = []
        for op in case["ops"]:
            hist.append(op["op"][0])
            getattr(self, "op_" + op["op"])(ctx, op, self.models[op["z"]], "".join(hist))

    def where(self, m, op, hist, t):
        return "zone %s at %s after %s\n%s" % (m.tzid, D.fmtsec(t, op["op"] == "utc"), hist, m.text("\n"))

    def ask(self, ctx, z, dt, rel):
        """ every public way of asking gives one answer """
        tzid = self.models[z].tzid
        a = Timezone(utc=False, tzid=tzid).timeZoneSecondsOffset(dt, rel)
        b = TimezoneDatabase.getTimezoneOffsetSeconds(tzid, dt, rel)
        c = self.objs[z].getTimezoneOffsetSeconds(dt, rel)
        return a, b, c

    def op_wall(self, ctx, op, m, hist):
        ok = m.offsets_wall(op["t"])
        dt = make_dt("local", op["t"], m.tzid)
        got = self.ask(ctx, op["z"], dt, False)
        ctx.check(dt_wall(dt) == op["t"] and dt.getTimezoneID() == m.tzid, "query-changed", "asking for an offset changed the date asked about: " + self.where(m, op, hist, op["t"]))
        ctx.ev("wall", op["t"], got)
        self.last[op["z"]] = op
        if not ok:
            ctx.probe("before_first_onset")
            return
        if len(ok) > 1:
            ctx.probe("wall_in_gap")
        for g in got:
            ctx.check(g in ok, "offset-wall", "offset %s, expected %s: %s" % (g, list(ok), self.where(m, op, hist, op["t"])))
        ctx.check(got[0] == got[1], "offset-wall-differs", "two lookups in one database answer %s: %s" % (got, self.where(m, op, hist, op["t"])))
        # one time always has one offset
        key = (op["z"], "wall", op["t"])
        ctx.fp(hist[-5:], "wall", len(ok), got[0])

    def op_utc(self, ctx, op, m, hist):
        want = m.offset_utc(op["t"])
        dt = make_dt("utc", op["t"])
        got = self.ask(ctx, op["z"], dt, True)
        ctx.check(dt_wall(dt) == op["t"] and dt.getTimezoneUTC(), "query-changed", "asking for an offset changed the date asked about: " + self.where(m, op, hist, op["t"]))
        ctx.ev("utc", op["t"], got)
        self.last[op["z"]] = op
        if want is None:
            ctx.probe("before_first_onset")
            return
        for g in got:
            ctx.check(g == want, "offset-utc", "offset %s, expected %s: %s" % (g, want, self.where(m, op, hist, op["t"])))
        ctx.fp(hist[-5:], "utc", got[0])

    def op_name(self, ctx, op, m, hist):
        x = m.name_wall(op["t"])
        dt = make_dt("local", op["t"], m.tzid)
        got = TimezoneDatabase.getTimezoneDescriptor(m.tzid, dt)
        got2 = self.objs[op["z"]].getTimezoneDescriptor(dt)
        got3 = Timezone(utc=False, tzid=m.tzid).timeZoneDescriptor(dt)
        ctx.ev("name", op["t"], got, got2)
        self.last[op["z"]] = op
        if x is None:
            ctx.probe("before_first_onset")
            return
        want = "(%s)" % x[3] if x[3] else tzmodel.off_text(x[2])[:5]
        # two observances with one onset, or a gap: any of them
        alts = set([want])
        for y in m.trans:
            if y[0] == x[0]:
                alts.add("(%s)" % y[3] if y[3] else tzmodel.off_text(y[2])[:5])
        for g in (got, got2, got3):
            ctx.check(g in alts, "descriptor", "descriptor %s, expected %s: %s" % (g, want, self.where(m, op, hist, op["t"])))
        ctx.fp(hist[-5:], "name", got)

    def op_all(self, ctx, op, m, hist):
        tz = TimezoneDatabase.getTimezone(m.tzid)
        a = None if op["a"] is None else make_dt("floating", op["a"])
        b = make_dt("floating", op["b"])
        if op["a"] is not None and op["a"] >= op["b"]:
            return
        got = tz.expandAll(a, b, with_name=op["named"])
        g = []
        for x in got:
            g.append((dt_wall(x[0]), dt_wall(x[1]), x[2], x[3]) + ((x[4],) if op["named"] else ()))
        ctx.ev("all", op["a"], op["b"], g)
        want = set()
        for w, f, t, n, _k in m.trans:
            if (op["a"] is None or w >= op["a"]) and w < op["b"]:
                want.add((w, w - f, f, t) + ((n,) if op["named"] else ()))
        text = "onsets of %s in %s/%s after %s\n%s" % (m.tzid, a, b, hist, m.text("\n"))
        want = sorted(want)
        ctx.check(sorted(g) == want, "onsets", "%s\nmissing %s\nextra %s" % (text, [x for x in want if x not in g][:5], [x for x in g if x not in want][:5]))
        ctx.check([x[0] for x in g] == sorted([x[0] for x in g]), "onset-order", text)
        ctx.elapse(op["b"] - (op["a"] or m.first_wall))
        ctx.fp(hist[-5:], "all", len(g))

    def op_again(self, ctx, op, m, hist):
        last = self.last[op["z"]]
        if last is not None:
            getattr(self, "op_" + last["op"])(ctx, last, m, hist)

    def op_dup(self, ctx, op, m, hist):
        """ carry on with a duplicate of the zone; the original is asked nothing more """
        self.objs[op["z"]] = self.objs[op["z"]].duplicate()
        ctx.ev("dup")

    def op_clear(self, ctx, op, m, hist):
        """ the database cache is dropped: every zone has to be supplied again """
        TimezoneDatabase.clearTimezoneDatabase()
        ctx.fault("database_cleared")
        for x in self.models:
            install_zone(x)

    def op_reread(self, ctx, op, m, hist):
        cal = Calendar.parseText(m.calendar("\n"))
        ctx.check(cal is not None, "setup-parse", "a valid VTIMEZONE was refused")
        self.objs[op["z"]] = cal.getComponents("VTIMEZONE")[0]
        ctx.ev("reread")

    def op_generate(self, ctx, op, m, hist):
        a = self.cals[op["z"]].getText(includeTimezones=Calendar.ALL_TIMEZONES)
        ctx.ev("generate", len(a))

    def simplify(self, case):
        if len(case["zones"]) > 1:
            for i in range(len(case["zones"])):
                c = dict(case)
                c["zones"] = [case["zones"][i]]
                c["ops"] = [dict(o, z=0) for o in case["ops"] if o["z"] == i]
                yield c
        for zi, z in enumerate(case["zones"]):
            for j in range(len(z["obs"])):
                if len(z["obs"]) > 1:
                    c = dict(case)
                    c["zones"] = list(case["zones"])
                    c["zones"][zi] = dict(z, obs=z["obs"][:j] + z["obs"][j + 1:])
                    yield c
            for j, o in enumerate(z["obs"]):
                if o.get("rdates") or o.get("name"):
                    c = dict(case)
                    c["zones"] = list(case["zones"])
                    n = dict(o)
                    if n.get("rdates"):
                        n["rdates"] = n["rdates"][:-1]
                    else:
                        n["name"] = None
                    c["zones"][zi] = dict(z, obs=z["obs"][:j] + [n] + z["obs"][j + 1:])
                    yield c


SCENARIO = P03()
