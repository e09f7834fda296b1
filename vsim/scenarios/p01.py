"""
P01: recurrence rules.  A pool of rule objects is queried, edited, duplicated, re-read and aborted in seeded
orders; every answer is compared with the model's answer for the rule's current value.
"""
from vsim import gen
from vsim import dates as D
from vsim import rrule as R
from vsim import tzmodel
from vsim.lib import LibScenario, make_dt, install_zone, dt_desc
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.exceptions import TooManyInstancesError
from pycalendar.icalendar import definitions as defs
from pycalendar.datetime import DateTime
from pycalendar.period import Period

KINDS = ("date", "utc", "floating", "local")


def field_edit(rnd, slot):
    rule = slot["rule"]
    f = rule["freq"]
    opts = ["interval", "count", "until", "nolimit"]
    if not rule.get("byweekno"):
        opts += ["bymonth", "byday"]
    if rule.get("bymonthday") and f in ("MONTHLY", "YEARLY"):
        opts.append("bymonthday")
    if rule.get("byyearday"):
        opts.append("byyearday")
    if rule.get("bysetpos"):
        opts.append("bysetpos")
    return rnd.choice(opts)


class P01(LibScenario):
    prop = "P01"

    def gen_slot(self, rnd, config):
        kind = rnd.choice(KINDS) if config != "local" else "local"
        if kind == "local" and config != "local":
            kind = "utc"
        dv = kind == "date"
        rule = gen.gen_rule(rnd, dv, sub=(kind != "local"))
        tod = (0, 0, 0) if dv else gen.gen_tod(rnd)
        if kind == "local":
            for k in ("byhour", "byminute", "bysecond"):
                rule.pop(k, None)
            tod = (rnd.between(9, 20), rnd.choice([0, 30]), 0)
        start = D.secs(gen.gen_day(rnd, 1998, 2026) + tod)
        slot = {"rule": rule, "start": start, "kind": kind}
        k = rnd.below(3)
        if k == 1:
            rule["count"] = rnd.between(1, 14)
        elif k == 2:
            self.gen_until(rnd, slot)
        return slot

    def gen_until(self, rnd, slot):
        rule, start = slot["rule"], slot["start"]
        rule.pop("count", None)
        u = start + rnd.between(0, gen.horizon(rule))
        if rnd.chance(60):
            xs = R.expand(dict(rule, until=None), start, start + gen.horizon(rule) // 2, datevalue=slot["kind"] == "date")
            u = rnd.choice(xs)
        if slot["kind"] == "date":
            u -= u % 86400
        rule["until"] = u

    def generate(self, rnd, tier):
        config = rnd.weighted([("plain", 6), ("faulty", 5), ("local", 3)])
        nslots = rnd.between(1, 2)
        slots = [self.gen_slot(rnd, config) for _i in range(nslots)]
        case = {"config": config, "slots": slots, "ops": []}
        if config == "local":
            case["zone"] = tzmodel.gen_zone(rnd, "Sim/Zone")
        # work on shadow state so that edits stay legal
        shadow = [dict(s, rule=dict(s["rule"])) for s in slots]
        for _i in range(rnd.between(3, 12)):
            i = rnd.below(len(shadow))
            s = shadow[i]
            hz = gen.horizon(s["rule"])
            k = rnd.weighted([("query", 10), ("limit", 4 if config == "faulty" else 0), ("edit", 3), ("dup", 1), ("reparse", 1),
                              ("poke", 1), ("start", 2), ("again", 2)])
            if k in ("query", "limit"):
                a = rnd.between(-hz // 10, hz)
                b = rnd.between(a, hz)
                if rnd.chance(40):
                    a = 0 if rnd.chance(50) else -86400
                op = {"op": "query", "slot": i, "a": min(a, b), "b": b}
                if k == "limit":
                    op["max"] = rnd.between(1, 8)
                op["rk"] = rnd.weighted([("same", 6), ("date", 1), ("floating", 1), ("utc", 1)])
                op["reuse"] = rnd.chance(25)
                case["ops"].append(op)
            elif k == "again":
                case["ops"].append({"op": "again", "slot": i})
            elif k == "edit":
                what = field_edit(rnd, s)
                rule = s["rule"]
                if what == "interval":
                    rule["interval"] = rnd.between(1, 4)
                elif what == "count":
                    rule.pop("until", None)
                    rule["count"] = rnd.between(1, 14)
                elif what == "until":
                    self.gen_until(rnd, s)
                elif what == "nolimit":
                    rule.pop("until", None)
                    rule.pop("count", None)
                elif what == "bymonth":
                    rule["bymonth"] = gen.subset(rnd, 1, 12, 5) if rnd.chance(80) else []
                elif what == "byday":
                    rule["byday"] = gen.gen_byday(rnd, None, 4) if rnd.chance(80) else []
                elif what == "bymonthday":
                    rule["bymonthday"] = gen.subset(rnd, 1, 31, 4, True)
                elif what == "byyearday":
                    rule["byyearday"] = gen.subset(rnd, 1, 366, 4, True)
                elif what == "bysetpos":
                    rule["bysetpos"] = gen.subset(rnd, 1, 4, 2, True)
                case["ops"].append({"op": "edit", "slot": i, "what": what, "rule": dict(rule)})
            elif k == "dup":
                if len(shadow) < 4:
                    shadow.append(dict(s, rule=dict(s["rule"])))
                    case["ops"].append({"op": "dup", "slot": i})
            elif k in ("reparse", "poke"):
                case["ops"].append({"op": k, "slot": i, "n": rnd.below(6), "d": rnd.between(1, 40)})
            elif k == "start":
                op = {"op": "start", "slot": i, "inplace": rnd.chance(50)}
                if s["kind"] != "date" and rnd.chance(30) and not s["rule"].get("until") and s["rule"]["freq"] not in R.SUB and \
                        not [1 for x in ("byhour", "byminute", "bysecond") if s["rule"].get(x)]:
                    # timed -> all day
                    s["kind"] = "date"
                    s["start"] -= s["start"] % 86400
                elif s["kind"] == "date" and rnd.chance(30) and not s["rule"].get("until"):
                    s["kind"] = "floating"
                    s["start"] += 3600 * rnd.between(9, 17)
                elif s["kind"] in ("utc", "floating") and rnd.chance(30) and not s["rule"].get("until"):
                    s["kind"] = "floating" if s["kind"] == "utc" else "utc"
                else:
                    s["start"] += 86400 * rnd.between(-5, 40)
                    if s["rule"].get("until") is not None and s["rule"]["until"] < s["start"]:
                        s["start"] = s["rule"]["until"]
                        if s["kind"] == "date":
                            s["start"] -= s["start"] % 86400
                        if s["kind"] == "local":
                            s["start"] = s["start"] - s["start"] % 86400 + 12 * 3600 - 86400 * 2
                op["start"] = s["start"]
                op["kind"] = s["kind"]
                case["ops"].append(op)
        return case

    # -- execution

    def until_value(self, s):
        """ (text, comparison scale value) of UNTIL: UTC for timed rules in a zone, else like DTSTART """
        u = s["rule"].get("until")
        if u is None:
            return None, None
        if s["kind"] == "date":
            return D.fmtsec(u, date=True), u
        return D.fmtsec(u, s["kind"] in ("utc", "local")), u

    def execute(self, case, ctx):
        self.zone = None
        if case.get("zone"):
            self.zone = tzmodel.Zone(case["zone"], 2045)
            install_zone(self.zone)
        slots = []
        for s in case["slots"]:
            if s["kind"] == "local":
                self.place(s)
            s = dict(s, rule=dict(s["rule"]))
            s["obj"] = Recurrence()
            s["obj"].parse(R.text(s["rule"], self.until_value(s)[0]))
            s["dt"] = make_dt(s["kind"], s["start"], "Sim/Zone")
            s["hist"] = []
            slots.append(s)
        for op in case["ops"]:
            if op["slot"] >= len(slots):
                continue
            s = slots[op["slot"]]
            getattr(self, "op_" + op["op"])(ctx, slots, s, op)

    def place(self, s):
        # keep DTSTART inside the zone's history
        if s["start"] < self.zone.first_wall + 86400 * 400:
            shift = (self.zone.first_wall + 86400 * 400 - s["start"]) // 86400 + 1
            s["start"] += shift * 86400
            if s["rule"].get("until") is not None:
                s["rule"]["until"] += shift * 86400

    def key(self, s, rk="utc"):
        """ how instances compare with range bounds of the given kind """
        if s["kind"] == "date" or rk == "date":
            return lambda w: w // 86400
        if s["kind"] == "local" and rk == "utc":
            def f(w):
                o = self.zone.offsets_wall(w)
                return w - o[-1]
            return f
        return lambda w: w

    def expected(self, s, a, b, rk):
        """ model instances with a <= key < b, how many there are below b, whether any lie outside """
        key = self.key(s, rk)
        ukey = self.key(s)
        until = self.until_value(s)[1]
        if until is not None and s["kind"] == "date":
            until //= 86400
        allx = R.expand(s["rule"], s["start"], b + (2 * 86400 if s["kind"] == "local" else 86400 if rk == "date" else 1), key=ukey, until=until, datevalue=s["kind"] == "date")
        if s["kind"] == "date" or rk == "date":
            a //= 86400
            b //= 86400
        below = [x for x in allx if key(x) < b]
        inside = [x for x in below if key(x) >= a]
        return inside, len(below), len([x for x in allx if x not in inside and x != s["start"]]) > 0

    def op_query(self, ctx, slots, s, op):
        a = s["start"] + op["a"]
        b = s["start"] + op["b"]
        rk = op.get("rk", "same")
        if rk == "same":
            rk = {"date": "date", "utc": "utc", "floating": "floating", "local": "utc"}[s["kind"]]
        if rk == "date":
            a -= a % 86400
            b -= b % 86400
        if op.get("reuse") and s.get("period") is not None and s["prk"] == rk:
            # the client moves the window object it used before
            period = s["period"]
            period.getStart().offsetSeconds(a - s["pa"])
            period.getEnd().offsetSeconds(b - s["pb"])
            ctx.probe("window_moved_in_place")
        else:
            period = Period(make_dt(rk, a), make_dt(rk, b))
        s["period"], s["prk"], s["pa"], s["pb"] = period, rk, a, b
        items = []
        exp, below, more = self.expected(s, a, b, rk)
        mx = op.get("max")
        raised = False
        s["last"] = op
        try:
            limited = s["obj"].expand(s["dt"], period, items, maxInstances=mx)
        except TooManyInstancesError:
            raised = True
        s["hist"].append("q%s" % ("!" if raised else ""))
        text = "%s DTSTART %s range %s/%s max %s after %s" % (
            R.text(s["rule"], self.until_value(s)[0]), dt_desc(s["dt"]), dt_desc(period.getStart()), dt_desc(period.getEnd()), mx,
            "".join(s["hist"]))
        if raised:
            ctx.fault("instance_limit")
            ctx.check(mx and below > mx, "limit-early", "raised TooManyInstances though only %d instances lie before the range end: %s" % (below, text))
            ctx.ev("limit", text)
            return
        ctx.check(not mx or below <= mx + 1, "limit-ignored", "no TooManyInstances though %d instances exceed the limit: %s" % (below, text))
        st = D.fmtsec(s["start"], s["kind"] == "utc", s["kind"] == "date")
        got = [i.getText() for i in items]
        if s["kind"] == "local":
            for i in items:
                ctx.check(i.getTimezoneID() == "Sim/Zone", "expand-zone", "instance %s lost its time zone: %s" % (dt_desc(i), text))
        want = [D.fmtsec(x, s["kind"] == "utc", s["kind"] == "date") for x in exp]
        g = [x for x in got if x != st]
        w = [x for x in want if x != st]
        ctx.ev("query", text, g)
        if g != w:
            miss = [x for x in w if x not in g]
            extra = [x for x in g if x not in w]
            ctx.fail("expand", "%s\n missing %s\n extra %s\n got %s\n want %s" % (text, miss[:8], extra[:8], got[:20], want[:20]))
        ctx.check(limited or not more, "limited-flag", "expand claims the range held every instance but the rule has more: %s" % (text,))
        ctx.probe("query_nonempty" if w else "query_empty")
        if "q!" in s["hist"]:
            ctx.probe("query_after_limit_abort")
        if "e" in s["hist"]:
            ctx.probe("query_after_edit")
        ctx.elapse(b - a)
        ctx.fp(s["rule"]["freq"], "".join(s["hist"][-5:]), len(w) > 0, s["kind"], rk, sorted([k for k in s["rule"] if s["rule"][k]]))

    def op_again(self, ctx, slots, s, op):
        if s.get("last"):
            op = dict(s["last"])
            op.pop("max", None)
            self.op_query(ctx, slots, s, op)

    def op_edit(self, ctx, slots, s, op):
        r, obj, what = op["rule"], s["obj"], op["what"]
        new = s["rule"]
        s["hist"].append("e")
        if what == "interval":
            obj.setInterval(r["interval"])
            new["interval"] = r["interval"]
        elif what in ("count", "until", "nolimit"):
            new.pop("count", None)
            new.pop("until", None)
            obj.setUseCount(False)
            obj.setUseUntil(False)
            obj.setCount(0)
            obj.setUntil(None)
            if what == "count":
                new["count"] = r["count"]
                obj.setUseCount(True)
                obj.setCount(r["count"])
            elif what == "until":
                u = r["until"]
                if s["kind"] == "date":
                    u -= u % 86400
                new["until"] = u
                obj.setUseUntil(True)
                obj.setUntil(DateTime.parseText(self.until_value(s)[0]))
        elif what in ("bymonth", "bymonthday", "byyearday", "bysetpos"):
            new[what] = list(r[what])
            {"bymonth": obj.setByMonth, "bymonthday": obj.setByMonthDay, "byyearday": obj.setByYearDay,
             "bysetpos": obj.setBySetPos}[what](list(r[what]))
        elif what == "byday":
            new["byday"] = r["byday"]
            obj.setByDay([(n, d) for n, d in r["byday"]])
        ctx.ev("edit", what, R.text(new, self.until_value(s)[0]))

    def op_dup(self, ctx, slots, s, op):
        n = dict(s, rule=dict(s["rule"]), hist=s["hist"] + ["d"])
        n["obj"] = s["obj"].duplicate()
        n["period"] = None
        n["dt"] = s["dt"].duplicate()
        slots.append(n)
        ctx.check(n["obj"] == s["obj"], "dup-equal", "a duplicate rule is not equal to its original %s" % (R.text(s["rule"], "?"),))
        ctx.ev("dup")

    def op_reparse(self, ctx, slots, s, op):
        t = s["obj"].getText()
        n = Recurrence()
        n.parse(t)
        ctx.check(n == s["obj"], "reparse-equal", "rule read back from its own text %s differs" % (t,))
        s["obj"] = n
        s["hist"].append("r")
        ctx.ev("reparse", t)

    def op_poke(self, ctx, slots, s, op):
        """ a caller changes a date it was given back """
        items = []
        a = make_dt("date" if s["kind"] == "date" else "utc" if s["kind"] != "floating" else "floating", s["start"])
        b = a.duplicate()
        b.offsetSeconds(gen.horizon(s["rule"]))
        s["obj"].expand(s["dt"], Period(a, b), items)
        if len(items) > op["n"]:
            items[op["n"]].offsetDay(op["d"])
            ctx.probe("caller_mutated_answer")
        s["hist"].append("p")
        ctx.ev("poke", len(items))

    def op_start(self, ctx, slots, s, op):
        if op["kind"] == "local":
            # stay in the zone's history
            if op["start"] < self.zone.first_wall + 86400 * 300:
                return
        if s["rule"].get("until") is not None and (op["kind"] != s["kind"] or op["start"] > s["rule"]["until"]):
            return
        old, oldkind = s["start"], s["kind"]
        s["start"], s["kind"] = op["start"], op["kind"]
        if op["inplace"] and oldkind == op["kind"]:
            # the owner moves the very object it passes to expand
            s["dt"].offsetSeconds(op["start"] - old)
            ctx.probe("dtstart_moved_in_place")
        else:
            s["dt"] = make_dt(s["kind"], s["start"], "Sim/Zone")
        s["hist"].append("s")
        ctx.ev("start", dt_desc(s["dt"]))

    def simplify(self, case):
        for i, s in enumerate(case["slots"]):
            for k in list(s["rule"]):
                if k in ("freq",) or s["rule"][k] is None:
                    continue
                r = dict(s["rule"])
                if k == "interval":
                    if r[k] == 1:
                        continue
                    r[k] = 1
                else:
                    del r[k]
                c = dict(case)
                c["slots"] = case["slots"][:i] + [dict(s, rule=r)] + case["slots"][i + 1:]
                yield c


SCENARIO = P01()
