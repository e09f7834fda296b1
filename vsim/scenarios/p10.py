"""
P10: readings, failed readings and writings do not affect each other, whatever way they are interleaved.
Tasks run as threads under the baton scheduler, switching at every simulated read and write.
"""
import json
from vsim import core, docs, streams, tzmodel
from vsim.lib import LibScenario
from vsim.sched import Scheduler, raise_if_unexpected
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card

TZIDS = ["Sim/A", "Sim/B", "Sim/C"]


class P10(LibScenario):
    prop = "P10"

    def generate(self, rnd, tier):
        ops = []
        for i in range(rnd.between(2, 6)):
            k = rnd.weighted([("read", 5), ("comp", 2), ("json", 2), ("write", 3), ("cards", 2)])
            op = {"op": k, "name": "t%d" % i}
            if k == "cards":
                op["docs"] = [docs.gen_card(rnd) for _j in range(rnd.between(1, 2))]
            else:
                zones = []
                if rnd.chance(70):
                    zones = [tzmodel.gen_zone(rnd, z) for z in rnd.sample(TZIDS, rnd.between(1, 2))]
                op["docs"] = [docs.gen_calendar(rnd, maxcomps=2, zones=zones)]
            op["lay"] = streams.gen_layout(rnd)
            if k != "write" and rnd.chance(35):
                op["fault"] = {"k": rnd.choice(["failing", "truncated", "garbage"]), "pos": rnd.below(1000000), "e": rnd.choice(streams.FAULTS)}
            elif k == "write":
                op["tz"] = rnd.choice([None, Calendar.ALL_TIMEZONES, Calendar.NONSTD_TIMEZONES, Calendar.NO_TIMEZONES])
            ops.append(op)
        style = rnd.below(3)
        n = rnd.between(20, 400)
        if style == 0:
            sched = [rnd.below(12) for _i in range(n)]
        else:
            # few pre-emptions
            sched = [rnd.below(12) if rnd.chance(8) else 0 for _i in range(n)]
        return {"config": "serial" if rnd.chance(10) else "interleaved", "ops": ops, "sched": sched}

    def simplify(self, case):
        s = case["sched"]
        for k in (0, len(s) // 4, len(s) // 2):
            if k < len(s):
                yield dict(case, sched=s[:k])
        for i in range(len(s)):
            if s[i]:
                yield dict(case, sched=s[:i] + [0] + s[i + 1:])
        for i, op in enumerate(case["ops"]):
            for k, d in enumerate(op["docs"]):
                for j in range(len(d["c"])):
                    c = json.loads(json.dumps(case))
                    del c["ops"][i]["docs"][k]["c"][j]
                    yield c

    def execute(self, case, ctx):
        sch = Scheduler(case["sched"] if case["config"] == "interleaved" else [], ctx)
        self.order = []
        plans = []
        # what is written must exist before: read it under a private database, then forget that
        for op in case["ops"]:
            plan = {"op": op, "faulty": op.get("fault") is not None}
            lines = []
            for d in op["docs"]:
                lines.extend(docs.comp_lines(d))
            text = streams.layout(lines, op["lay"], core)
            if op["op"] in ("json", "write"):
                obj = Calendar.parseText(docs.plain_text(op["docs"][0]))
                if obj is None:
                    ctx.fail("refused", "a valid calendar was refused\n" + docs.plain_text(op["docs"][0]))
                plan["obj"] = obj
                if op["op"] == "json":
                    text = obj.getText(format=Calendar.sFormatJSON, includeTimezones=Calendar.NO_TIMEZONES)
            plan["text"] = text
            plans.append(plan)
            self.reset()
        for plan in plans:
            sch.add(plan["op"]["name"], self.body(sch, plan))
        tasks = sch.run()
        # first, as looking at what was written means reading it
        self.judge_zones(ctx, tasks, plans)
        for t, plan in zip(tasks, plans):
            self.judge(ctx, t, plan)
        if sch.switches > len(tasks):
            ctx.fault("preempted_at_io", sch.switches - len(tasks))
        ctx.fp("interleaving", tuple([(op["op"], op.get("fault", {}).get("k")) for op in case["ops"]]), tuple(sch.trail[:12]))
        ctx.fp("end", tuple(sch.order), len(TimezoneDatabase.getTimezoneDatabase().calendar.getComponents()))

    def body(self, sch, plan):
        op = plan["op"]
        text = plan["text"]
        f = op.get("fault")
        failat = None
        if f is not None:
            pos = f["pos"] * len(text) // 1000000
            if f["k"] == "failing":
                failat = pos
            elif f["k"] == "truncated":
                text = text[:pos]
            else:
                # a line nobody can read, in the middle
                i = text.find("\n", pos) + 1
                text = text[:i] + "DTSTART:this is no date\r\n" + text[i:]
        plan["given"] = text

        def run():
            if op["op"] == "write":
                out = streams.SimOutput(hook=sch.pause)
                plan["obj"].generate(out, includeTimezones=op["tz"])
                return out.getvalue()
            src = streams.SimInput(text, failat, f["e"] if f else "ioerror", hook=sch.pause)
            plan["src"] = src
            if op["op"] == "read":
                r = Calendar.parseText(src)
            elif op["op"] == "comp":
                r = Calendar(add_defaults=False)
                r.parseComponent(src)
            elif op["op"] == "json":
                r = Calendar.parseData(src, format=Calendar.sFormatJSON)
            else:
                r = Card.parseMultipleTextData(src)
            self.order.append(op["name"])
            return r
        return run

    def judge(self, ctx, t, plan):
        op = plan["op"]
        f = op.get("fault")
        if f is not None:
            if f["k"] == "failing" and plan["src"].failed:
                ctx.fault("read_error_" + f["e"])
            else:
                ctx.fault("data_" + f["k"])
            if t.error is not None:
                ctx.ev("failed", t.name, op["op"])
                return
            if f["k"] == "truncated":
                # decided by P09
                ctx.ev("accepted", t.name)
                return
            if f["k"] == "garbage" and op["op"] in ("cards", "comp"):
                return
            if f["k"] == "failing" and not plan["src"].failed or op["op"] == "json":
                pass
            else:
                return
        raise_if_unexpected(t)
        want = [docs.meaning(d) for d in op["docs"]]
        if op["op"] == "write":
            got = [docs.observe(Calendar.parseText(t.result))]
            # zones may have been added, nothing else may change
            have = set([z["p"][0]["v"] for z in op["docs"][0]["c"] if z["n"] == "VTIMEZONE"])
            got = [(g[0], g[1], tuple([c for c in g[2] if c[0] != "VTIMEZONE" or dict(c[1])["TZID"][0][2][1] in have])) for g in got]
        elif op["op"] == "cards":
            got = [docs.observe(o) for o in t.result]
        else:
            got = [docs.observe(t.result)]
            if op["op"] == "comp":
                got = [(g[0], (), g[2]) for g in got]
                want = [(w[0], (), w[2]) for w in want]
        if len(want) != len(got):
            ctx.fail("content", "task %s (%s) gave %d objects, not %d" % (t.name, op["op"], len(got), len(want)))
        for w, g in zip(want, got):
            if w != g:
                ctx.fail("content", "task %s (%s): interleaved with others its result is not what its own data says: %s" % (
                    t.name, op["op"], "; ".join(docs.diff(w, g))))
        ctx.ev("ok", t.name, repr(got))

    def judge_zones(self, ctx, tasks, plans):
        """ the database holds the zones of the successful readings, first come first served """
        state = {}
        maybe = set()
        byname = dict([(p["op"]["name"], (t, p)) for t, p in zip(tasks, plans)])
        for name in self.order:
            t, p = byname[name]
            if p["op"]["op"] == "cards":
                continue
            if p["op"].get("fault", {}).get("k") in ("truncated", "garbage"):
                # cut behind the end of the calendar, or the line fell outside: as good as whole, or only partly relevant
                zs = [c for c in (t.result.getComponents("VTIMEZONE") if t.result is not None else [])]
                ids = [z.getID() for z in zs]
            else:
                ids = None
            for c in p["op"]["docs"][0]["c"]:
                if c["n"] == "VTIMEZONE":
                    tzid = [x["v"] for x in c["p"] if x["n"] == "TZID"][0]
                    if ids is not None and tzid not in ids:
                        continue
                    state.setdefault(tzid, docs.meaning(c))
                    if ids is not None:
                        maybe.add(tzid)
        for tzid in TZIDS:
            tz = TimezoneDatabase.getTimezone(tzid)
            want = state.get(tzid)
            got = docs.observe(tz) if tz is not None else None
            if want is None and got is not None:
                ctx.fail("zone-left-behind", "time zone %s is known although no reading that defines it succeeded" % (tzid,))
            if want is not None and got is None:
                ctx.fail("zone-missing", "time zone %s was read successfully but is not known" % (tzid,))
            if want is not None and tzid not in maybe and want != got:
                ctx.fail("zone-wrong", "time zone %s is not the first definition successfully read: %s" % (tzid, "; ".join(docs.diff(want, got))))
            if TimezoneDatabase.isStandardTimezone(tzid):
                ctx.fail("zone-standard", "time zone %s came with user data but counts as a standard one" % (tzid,))
            ctx.ev("zone", tzid, got is not None)


SCENARIO = P10()
