"""
P02: which events a calendar says take place in a window, whatever was asked, changed or cut short before.
"""
import copy
from vsim import core, dates as D, docs, gen, rrule as R, tzmodel
from vsim.lib import LibScenario, install_zone, make_dt, dt_wall
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.exceptions import TooManyInstancesError
from pycalendar.icalendar.property import Property
from pycalendar.period import Period

TZ = "Sim/Zone"


def gen_rules(rnd, kind, start, many=True):
    out = []
    for _i in range(rnd.choice([0, 1, 1, 1, 2]) if many else 1):
        r = gen.gen_rule(rnd, kind == "date", sub=False)
        k = rnd.below(3)
        if k == 0:
            r["count"] = rnd.between(1, 25)
        elif k == 1:
            r["until"] = start + rnd.between(0, gen.horizon(r))
            if kind == "date":
                r["until"] -= r["until"] % 86400
        out.append(r)
    return out


def gen_override(rnd, ev):
    """ the target is a place in the list of instances, found when it is applied """
    unit = 86400 if ev["kind"] == "date" else 900
    return {"nth": rnd.below(12), "shift": rnd.choice([0, 0, 1, -1, 4, 90, -30]) * unit, "dur": rnd.between(1, 8) * unit,
            "end": rnd.choice(["end", "dur", "dur"]), "utc": rnd.chance(25), "future": rnd.chance(25)}


def gen_event(rnd, i, kinds):
    kind = rnd.choice(kinds)
    y, m, d = gen.gen_day(rnd, 2000, 2030)
    h, mi, s = (0, 0, 0) if kind == "date" else gen.gen_tod(rnd)
    start = D.secs((y, m, d, h, mi, s))
    unit = 86400 if kind == "date" else 900
    ev = {"uid": "ev%d" % i, "kind": kind, "start": start, "end": rnd.choice(["end", "end", "dur", None]), "dur": unit * rnd.between(1, 12),
          "rules": [], "exrules": [], "rdates": [], "exdates": [], "rperiods": [], "over": []}
    if rnd.chance(85):
        ev["rules"] = gen_rules(rnd, kind, start)
        if rnd.chance(15):
            ev["exrules"] = gen_rules(rnd, kind, start, False)
        if rnd.chance(35):
            ev["rdates"] = [start + 86400 * rnd.between(-3, 60) + (0 if kind == "date" else rnd.choice([0, 0, 1800])) for _j in range(rnd.between(1, 4))]
        if rnd.chance(20) and kind != "date":
            ev["rperiods"] = [[start + 86400 * rnd.between(1, 60) + 600, 900 * rnd.between(1, 100), rnd.chance(50)] for _j in range(rnd.between(1, 2))]
        if ev["rperiods"] and rnd.chance(40):
            ev["exdates"] = [["p", rnd.below(2), False]]
        elif rnd.chance(40):
            # places in the list of instances, or times that may be none
            ev["exdates"] = [["n", rnd.below(10), rnd.chance(25)] if rnd.chance(70) else ["t", start + 86400 * rnd.between(0, 40), False] for _j in range(rnd.between(1, 4))]
        for _j in range(rnd.choice([0, 0, 1, 2, 3])):
            ev["over"].append(gen_override(rnd, ev))
    return ev


class P02(LibScenario):
    prop = "P02"

    def generate(self, rnd, tier):
        kinds = rnd.choice([["utc"], ["date"], ["floating"], ["local"], ["date", "utc"], ["utc", "local"], ["date", "local", "utc"], ["date", "floating"]])
        zone = tzmodel.gen_zone(rnd, TZ) if "local" in kinds else None
        evs = [gen_event(rnd, i, kinds) for i in range(rnd.choice([1, 1, 2, 3]))]
        ops = []
        for _i in range(rnd.between(3, 12)):
            k = rnd.weighted([("query", 10), ("again", 2), ("limit", 3), ("poke", 3), ("exdate", 3), ("override", 3), ("unoverride", 2), ("dup", 1), ("reread", 2), ("move", 2)])
            op = {"op": k, "ev": rnd.below(10), "x": rnd.below(1000)}
            if k in ("query", "limit"):
                ev = evs[op["ev"] % len(evs)]
                # the whole calendar answers: the busiest rule limits how far
                hz = min([gen.horizon(r) for e in evs for r in e["rules"]] + [86400 * 3650])
                a = rnd.choice([0, 0, -86400, rnd.between(-86400 * 5, hz)])
                op["a"] = ev["start"] + a
                op["b"] = op["a"] + rnd.choice([1, 3600, 86400, 86400 * 7, rnd.between(1, max(2, hz)), hz])
                if ev["rperiods"] and rnd.chance(40):
                    # the window starts within a period
                    op["a"] = ev["rperiods"][0][0] + rnd.between(0, ev["rperiods"][0][1])
                    op["b"] = op["a"] + rnd.choice([3600, 86400 * 3])
                op["top"] = rnd.chance(50)
                op["how"] = rnd.choice(["cal", "cal", "event"])
                if k == "limit":
                    op["max"] = rnd.between(1, 30)
            elif k == "override":
                op["o"] = gen_override(rnd, evs[op["ev"] % len(evs)])
            elif k == "move":
                op["d"] = rnd.choice([1, -1, 7, 31])
            elif k == "poke":
                op["d"] = rnd.choice([1, -1, 7, 365])
            ops.append(op)
        return {"zone": zone, "evs": evs, "ops": ops}

    def simplify(self, case):
        for i in range(len(case["evs"])):
            if len(case["evs"]) > 1:
                c = copy.deepcopy(case)
                del c["evs"][i]
                yield c
            for k in ("rules", "exrules", "rdates", "exdates", "rperiods", "over"):
                for j in range(len(case["evs"][i][k])):
                    c = copy.deepcopy(case)
                    del c["evs"][i][k][j]
                    yield c
            for j, r in enumerate(case["evs"][i]["rules"]):
                for k in list(r):
                    if k not in ("freq", "count", "until") and r[k] != 1:
                        c = copy.deepcopy(case)
                        if k == "interval":
                            c["evs"][i]["rules"][j][k] = 1
                        else:
                            del c["evs"][i]["rules"][j][k]
                        yield c

    # -- model

    def key(self, ev):
        if ev["kind"] == "date":
            return lambda w: w - w % 86400
        if ev["kind"] == "local":
            return lambda w: w - self.zone.offsets_wall(w)[-1]
        return lambda w: w

    def expand_rule(self, ev, r, upto):
        key = self.key(ev)
        # nothing is asked of years that are far off
        return R.expand(r, ev["start"], upto + 3 * 86400, key=key, until=r.get("until"), datevalue=ev["kind"] == "date")

    def instances(self, ev, upto):
        """ {key: wall} of everything before overrides, and how long those that say so themselves last """
        key = self.key(ev)
        inc = {key(ev["start"]): ev["start"]}
        own = {}
        for r in ev["rules"]:
            for w in self.expand_rule(ev, r, upto):
                inc.setdefault(key(w), w)
        for w in ev["rdates"]:
            inc.setdefault(key(w), w)
        for w, du, _use in ev["rperiods"]:
            inc.setdefault(key(w), w)
            own[key(w)] = du
        exc = set()
        for r in ev["exrules"]:
            exc.update([key(w) for w in self.expand_rule(ev, r, upto)[1:]])
        exc.update([key(w) for w in ev["ex"]])
        return dict([(k, w) for k, w in inc.items() if k not in exc]), own, exc

    def length(self, ev):
        if ev["end"] is None:
            return 86400 if ev["kind"] == "date" else 0
        return ev["dur"]

    def expected(self, evs, a, b):
        """ (what must be answered, what may be answered): (uid, start key, start wall, end - start or None, owner, override) """
        must, may = [], []
        for ev in evs:
            key = self.key(ev)
            wa, wb = (a, b)
            over = dict([(key(o["rid"]), o) for o in ev["live"]])
            if self.recurs(ev):
                inst, own, exc = self.instances(ev, b + 86400 * 120)
                for k, w in sorted(inst.items()):
                    if k in over:
                        continue
                    fut = [o for o in ev["live"] if o["future"] and key(o["rid"]) < k]
                    if fut:
                        o = max(fut, key=lambda o: key(o["rid"]))
                        s = w + o["start"] - o["rid"]
                        du = o["dur"]
                        sk = key(s)
                        inwin = wa <= k < wb, wa <= sk < wb
                        row = (ev["uid"], sk, s, du, o["name"])
                        (must if all(inwin) else may).append(row) if any(inwin) or k in own and k < wb and k + own[k] > wa else None
                        if self.odd(ev, s) or self.odd(ev, o["start"]) or self.odd(ev, o["rid"]):
                            # shifted across a change of offset: minutes are not settled
                            may.append((ev["uid"], None, None, None, o["name"]))
                            if row in must:
                                must.remove(row)
                    else:
                        du = own.get(k, self.length(ev))
                        row = (ev["uid"], k, w, du, "master")
                        if k in own:
                            if wa <= k < wb:
                                must.append(row)
                            elif k < wb and k + du > wa:
                                may.append(row)
                        elif wa <= k < wb:
                            # whether an EXRULE that does not generate DTSTART excludes it is not settled
                            (may if ev["exrules"] and w == ev["start"] else must).append(row)
            else:
                k = key(ev["start"])
                self.overlap(ev, (ev["uid"], k, ev["start"], self.length(ev), "master"), key, wa, wb, must, may)
            for o in ev["live"]:
                self.overlap(ev, (ev["uid"], key(o["start"]), o["start"], o["dur"], o["name"]), key, wa, wb, must, may)
        return must, may

    def overlap(self, ev, row, key, a, b, must, may):
        k, du = row[1], row[3]
        e = key(row[2] + du)
        if k < b and e > a:
            must.append(row)
        elif du == 0 and a <= k <= b:
            may.append(row)

    def recurs(self, ev):
        return bool(ev["rules"] or ev["exrules"] or ev["rdates"] or ev["rperiods"] or ev["ex"])

    def odd(self, ev, w):
        """ the wall clock time occurs twice or never, or is near a change """
        if ev["kind"] != "local":
            return False
        return len(set([self.zone.offsets_wall(w + d)[-1] for d in (-86400, -7200, 0, 7200, 86400)] + [self.zone.offsets_wall(w)[0]])) > 1

    # -- the calendar as text

    def dtprop(self, name, ev, walls, utc=False, extra=""):
        kind = ev["kind"]
        if kind == "local" and utc:
            return "%s%s:%s" % (name, extra, ",".join([D.fmtsec(self.zone.to_utc(w), True) for w in walls]))
        p = {"date": ";VALUE=DATE", "local": ";TZID=%s" % TZ}.get(kind, "")
        return "%s%s%s:%s" % (name, extra, p, ",".join([D.fmtsec(w, kind == "utc", kind == "date") for w in walls]))

    def rule_text(self, ev, r):
        u = r.get("until")
        return R.text(r, D.fmtsec(u, ev["kind"] in ("utc", "local"), ev["kind"] == "date") if u is not None else None)

    def event_lines(self, ev):
        out = ["BEGIN:VEVENT", "UID:" + ev["uid"], "DTSTAMP:20100101T000000Z", "SUMMARY:master", self.dtprop("DTSTART", ev, [ev["start"]])]
        if ev["end"] == "end":
            out.append(self.dtprop("DTEND", ev, [ev["start"] + ev["dur"]]))
        elif ev["end"] == "dur":
            out.append("DURATION:" + docs.dur_text(ev["dur"]))
        out += ["RRULE:" + self.rule_text(ev, r) for r in ev["rules"]]
        out += ["EXRULE:" + self.rule_text(ev, r) for r in ev["exrules"]]
        if ev["rdates"]:
            out.append(self.dtprop("RDATE", ev, ev["rdates"]))
        for w, du, use in ev["rperiods"]:
            st = self.dtprop("RDATE", ev, [w], extra=";VALUE=PERIOD")
            out.append("%s/%s" % (st, docs.dur_text(du) if use else D.fmtsec(w + du, ev["kind"] == "utc")))
        for w, utc in ev["exlist"]:
            out.append(self.dtprop("EXDATE", ev, [w], utc))
        return out + ["END:VEVENT"]

    def override_lines(self, ev, o):
        out = ["BEGIN:VEVENT", "UID:" + ev["uid"], "DTSTAMP:20100101T000000Z", "SUMMARY:" + o["name"],
               self.dtprop("RECURRENCE-ID", ev, [o["rid"]], o["utc"], ";RANGE=THISANDFUTURE" if o["future"] else ""), self.dtprop("DTSTART", ev, [o["start"]])]
        out.append(self.dtprop("DTEND", ev, [o["start"] + o["dur"]]) if o["end"] == "end" else "DURATION:" + docs.dur_text(o["dur"]))
        return out + ["END:VEVENT"]

    def resolve_override(self, ev, o):
        inst, _own, _exc = self.instances(ev, ev["start"] + 86400 * 3000)
        ws = [w for _k, w in sorted(inst.items())]
        if not ws:
            return None
        rid = ws[o["nth"] % len(ws)]
        if self.odd(ev, rid) or self.odd(ev, rid + o["shift"]) or self.odd(ev, rid + o["shift"] + o["dur"]):
            return None
        key = self.key(ev)
        if [1 for x in ev["live"] if key(x["rid"]) == key(rid)]:
            return None
        ev["serial"] += 1
        return dict(o, rid=rid, start=rid + o["shift"], name="over%d" % ev["serial"])

    def execute(self, case, ctx):
        self.zone = tzmodel.Zone(case["zone"], 2060) if case["zone"] else None
        evs = copy.deepcopy(case["evs"])
        for ev in evs:
            if ev["kind"] == "local":
                low = self.zone.first_wall + 86400 * 400
                while ev["start"] < low or self.odd(ev, ev["start"]) or self.odd(ev, ev["start"] + ev["dur"]):
                    d = 86400 * 11
                    ev["start"] += d
                    ev["rdates"] = [w + d for w in ev["rdates"]]
                    ev["rperiods"] = [[p[0] + d] + p[1:] for p in ev["rperiods"]]
                    ev["exdates"] = [[e[0], e[1] + d, e[2]] if e[0] == "t" else e for e in ev["exdates"]]
                    for r in ev["rules"] + ev["exrules"]:
                        if r.get("until") is not None:
                            r["until"] += d
                ev["rperiods"] = [p for p in ev["rperiods"] if not self.odd(ev, p[0]) and not self.odd(ev, p[0] + p[1])]
            # which of two periods with one start counts is not settled
            ev["rperiods"] = [p for i, p in enumerate(ev["rperiods"]) if p[0] not in [q[0] for q in ev["rperiods"][:i]]]
            # DTSTART need not be an instance of a rule that excludes; avoid the question
            ev["exrules"] = [r for r in ev["exrules"] if not r.get("count")]
            ev["ex"], ev["exlist"], ev["live"], ev["serial"] = [], [], [], 0
            inst, _own, _exc = self.instances(ev, ev["start"] + 86400 * 3000)
            ws = [w for _k, w in sorted(inst.items())]
            for k, n, utc in ev["exdates"]:
                w = n if k == "t" else ev["rperiods"][n % len(ev["rperiods"])][0] if k == "p" and ev["rperiods"] else ws[n % len(ws)] if ws else ev["start"]
                self.add_exdate(ev, w, utc)
            for o in ev["over"]:
                o = self.resolve_override(ev, o)
                if o is not None:
                    ev["live"].append(o)
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//vsim//EN"]
        if self.zone is not None:
            lines += self.zone.text_lines()
        parts = []
        for ev in evs:
            mine = [self.override_lines(ev, o) for o in ev["live"]]
            # overrides may come before their master
            mine.insert(len(mine) if ev["start"] % 7 == 0 else 0, self.event_lines(ev))
            parts += mine
        for p in parts:
            lines += p
        text = "\r\n".join(lines + ["END:VCALENDAR"]) + "\r\n"
        self.kinds = []
        cal = Calendar.parseText(text)
        if cal is None:
            ctx.fail("refused", "a valid calendar was refused\n" + text)
        self.cal = cal
        self.aligned = [1 for ev in evs if ev["kind"] == "date"]
        self.last = None
        self.text = text
        for op in case["ops"]:
            getattr(self, "op_" + op["op"])(ctx, evs, evs[op["ev"] % len(evs)], op)

    def add_exdate(self, ev, w, utc):
        if self.odd(ev, w):
            return None
        ev["ex"].append(w)
        ev["exlist"].append((w, utc))
        return w

    def window(self, ev, op):
        a, b = op["a"], op["b"]
        if ev["kind"] == "local" and a < self.zone.first_wall + 86400 * 400:
            d = self.zone.first_wall + 86400 * 400 - a
            a, b = a + d, b + d
        if self.aligned:
            a -= a % 86400
            b = max(b - b % 86400, a + 86400)
        return a, max(b, a + 1)

    def op_query(self, ctx, evs, ev, op):
        self.last = op
        a, b = self.window(ev, op)
        if self.zone is not None:
            a = max(a, self.zone.first_wall + 86400 * 300)
            b = max(b, a + 86400)
        period = Period(make_dt("utc", a), make_dt("utc", b))
        res = []
        if op["how"] == "cal":
            self.cal.getVEvents(period, res, op["top"])
            asked = evs
        else:
            for c in self.cal.getComponents("VEVENT"):
                if c.getUID() == ev["uid"]:
                    c.expandPeriod(period, res)
            asked = [ev]
        self.kinds.append("q")
        must, may = self.expected(asked, a, b)
        byuid = dict([(e["uid"], e) for e in evs])
        got = []
        for r in res:
            e = byuid[r.getOwner().getUID()]
            s = dt_wall(r.getInstanceStart())
            got.append((e["uid"], self.key(e)(s), s, r.getInstanceEnd(), r.getOwner().getSummary()))
        left = list(must)
        where = "window %s/%s after %s" % (D.fmtsec(a, True), D.fmtsec(b, True), "".join(self.kinds))
        lookup = {}
        for uid, k, s, end, own in got:
            e = byuid[uid]
            hit = [m for m in left if m[0] == uid and m[1] == k and m[4] == own]
            if hit:
                left.remove(hit[0])
            else:
                hit = [m for m in may if m[0] == uid and m[1] in (k, None) and m[4] == own]
                if not hit:
                    ctx.fail("extra", "%s: answers an event that does not take place: %s %s at %s\n%s" % (where, uid, own, D.fmtsec(s), self.describe(evs)))
                if hit[0][1] is not None:
                    may.remove(hit[0])
                else:
                    continue
            du = hit[0][3]
            if not self.odd(e, s) and not self.odd(e, s + du):
                if dt_wall(end) != s + du:
                    ctx.fail("end", "%s: %s %s at %s ends %s, not %s\n%s" % (where, uid, own, D.fmtsec(s), end, D.fmtsec(s + du), self.describe(evs)))
        if left:
            m = left[0]
            ctx.fail("missing", "%s: does not answer %s %s at %s\n got %s\n%s" % (where, m[0], m[4], D.fmtsec(m[2]), [(g[0], D.fmtsec(g[2]), g[4]) for g in got][:12], self.describe(evs)))
        if op["how"] == "event":
            ks = [g[1] for g in got if g[4] == "master"]
            if ks != sorted(ks):
                ctx.fail("order", "%s: instances are not in order: %s" % (where, [D.fmtsec(k) for k in ks][:12]))
        if op["how"] == "cal":
            self.order(ctx, res, op["top"], where, byuid)
        ctx.ev("query", a, b, [(g[0], g[2], g[4]) for g in got])
        ctx.elapse(b - a)
        ctx.fp("".join(self.kinds[-5:]), min(5, len(got)), len(must) > 0, sorted([e["kind"] for e in asked]), op["how"], bool([1 for g in got if g[4] != "master"]))

    def order(self, ctx, res, top, where, byuid):
        def rows(sel):
            return [(self.key(byuid[r.getOwner().getUID()])(dt_wall(r.getInstanceStart())), r) for r in res if sel(r.getInstanceStart().isDateOnly())]
        for sel in (lambda d: d, lambda d: not d):
            ks = [k for k, _r in rows(sel)]
            if ks != sorted(ks):
                ctx.fail("order", "%s: events are not in order of their start: %s" % (where, [D.fmtsec(k) for k in ks][:12]))
        if top:
            flags = [r.getInstanceStart().isDateOnly() for r in res]
            if flags != sorted(flags, reverse=True):
                ctx.fail("order", "%s: all-day events are not first: %s" % (where, flags[:20]))

    def describe(self, evs):
        out = []
        for e in evs:
            out += self.event_lines(e)
            for o in e["live"]:
                out += self.override_lines(e, o)
        return "\n".join([x for x in out if not x.startswith("DTSTAMP")])

    def op_again(self, ctx, evs, ev, op):
        if self.last is not None:
            self.op_query(ctx, evs, evs[self.last["ev"] % len(evs)], self.last)

    def master(self, ev):
        for c in self.cal.getComponents("VEVENT"):
            if c.getUID() == ev["uid"] and not c.isRecurrenceInstance():
                return c

    def op_limit(self, ctx, evs, ev, op):
        m = self.master(ev)
        if not self.recurs(ev):
            return
        a, b = self.window(ev, op)
        items = []
        inst, own, exc = self.instances(ev, b)
        try:
            m.getRecurrenceSet().expand(m.getStart(), Period(make_dt("utc", a), make_dt("utc", b)), items, maxInstances=op["max"])
            raised = False
        except TooManyInstancesError:
            raised = True
            ctx.fault("instance_limit")
        self.kinds.append("!" if raised else "l")
        ctx.ev("limit", raised)

    def op_poke(self, ctx, evs, ev, op):
        """ a caller changes the dates it was given """
        res = []
        a = ev["start"]
        self.master(ev).expandPeriod(Period(make_dt("utc", a - 86400 * 2), make_dt("utc", a + 86400 * 400)), res)
        if res:
            r = res[op["x"] % len(res)]
            r.getInstanceStart().offsetDay(op["d"])
            r.getInstanceEnd().offsetDay(op["d"])
            self.kinds.append("p")
            ctx.probe("caller_mutated_answer")

    def op_exdate(self, ctx, evs, ev, op):
        if not self.recurs(ev):
            return
        inst, _own, _exc = self.instances(ev, ev["start"] + 86400 * 3000)
        ws = [w for _k, w in sorted(inst.items())]
        if len(ws) < 2:
            return
        w = ws[op["x"] % min(len(ws), 12)]
        if self.add_exdate(ev, w, False) is None:
            return
        m = self.master(ev)
        dt = make_dt(ev["kind"], w, TZ)
        if op["x"] % 2:
            m.addProperty(Property.parseText(self.dtprop("EXDATE", ev, [w])))
            m.finalise()
        else:
            m.excludeRecurrence(dt)
            # the date is the caller's
            dt.offsetDay(3)
        self.kinds.append("x")
        ctx.ev("exdate", w)

    def op_override(self, ctx, evs, ev, op):
        if not self.recurs(ev):
            return
        o = self.resolve_override(ev, op["o"])
        if o is None:
            return
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//vsim//EN"] + self.override_lines(ev, o) + ["END:VCALENDAR"]
        c = Calendar.parseText("\r\n".join(lines) + "\r\n").getComponents("VEVENT")[0].duplicate(parent=self.cal)
        self.cal.addComponent(c)
        ev["live"].append(o)
        self.kinds.append("o")
        ctx.ev("override", o["rid"])

    def op_unoverride(self, ctx, evs, ev, op):
        if not ev["live"]:
            return
        o = ev["live"].pop(op["x"] % len(ev["live"]))
        for c in self.cal.getComponents("VEVENT"):
            if c.getUID() == ev["uid"] and c.getSummary() == o["name"]:
                self.cal.removeComponent(c)
                break
        self.kinds.append("u")
        ctx.ev("unoverride", o["rid"])

    def op_dup(self, ctx, evs, ev, op):
        old = self.cal
        self.cal = self.cal.duplicate()
        # the original goes its own way
        for c in old.getComponents("VEVENT"):
            c.getStart().offsetDay(1)
            if c.isRecurrenceInstance():
                old.removeComponent(c)
        self.kinds.append("d")

    def op_reread(self, ctx, evs, ev, op):
        self.cal = Calendar.parseText(self.cal.getText())
        self.kinds.append("r")

    def op_move(self, ctx, evs, ev, op):
        """ the whole event is moved by some days: everything that was said in terms of instances goes """
        if ev["live"] or ev["ex"] or ev["kind"] == "local" or [1 for r in ev["rules"] + ev["exrules"] if r.get("until") is not None]:
            return
        ev["start"] += 86400 * op["d"]
        m = self.master(ev)
        start = make_dt(ev["kind"], ev["start"], TZ)
        if ev["end"] == "end" or ev["end"] is None:
            end = make_dt(ev["kind"], ev["start"] + self.length(ev), TZ)
            for n in ("DTSTART", "DTEND", "DURATION"):
                m.removeProperties(n)
            m.addProperty(Property("DTSTART", start))
            if ev["end"] is not None:
                m.addProperty(Property("DTEND", end))
        else:
            m.removeProperties("DTSTART")
            m.addProperty(Property("DTSTART", start))
        m.finalise()
        self.kinds.append("m")
        ctx.ev("move", ev["start"])


SCENARIO = P02()
