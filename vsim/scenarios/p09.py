"""
P09: reading from a stream.  Documents laid out in any way are read through every entry point from a simulated stream that
may fail at any byte or end early at any byte; then read again from a healthy one.
"""
import json
from vsim import core, docs, streams
from vsim.lib import LibScenario
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card

VIAS = [("cal", 6), ("caldata", 3), ("calcomp", 4), ("caljson", 3), ("card", 5), ("carddata", 2), ("cards", 4), ("cardjson", 2), ("cardsjson", 2)]


class P09(LibScenario):
    prop = "P09"

    def generate(self, rnd, tier):
        case = {"config": rnd.choice(["healthy", "failing", "truncated", "mixed"]), "ops": []}
        for _i in range(rnd.between(1, 4)):
            via = rnd.weighted(VIAS)
            if via.startswith("cal"):
                d = [docs.gen_calendar(rnd, maxcomps=3)]
            elif via in ("cards", "cardsjson"):
                d = [docs.gen_card(rnd) for _j in range(rnd.between(1, 3))]
            else:
                d = [docs.gen_card(rnd)]
            op = {"op": "read", "via": via, "docs": d, "lay": streams.gen_layout(rnd), "string": rnd.chance(30), "tries": []}
            for _j in range(rnd.between(0 if case["config"] == "healthy" else 1, 3)):
                k = case["config"]
                if k == "mixed":
                    k = rnd.choice(["failing", "truncated"])
                if k == "healthy":
                    op["tries"].append({"k": "healthy"})
                else:
                    # a position: uniform, or close to the end
                    pos = rnd.below(1000000) if rnd.chance(60) else 1000000 - rnd.below(40000)
                    op["tries"].append({"k": k, "pos": pos, "near": rnd.choice([None, None, "line", "end"]), "e": rnd.choice(streams.FAULTS)})
            op["tries"].append({"k": "healthy"})
            case["ops"].append(op)
        return case

    def simplify(self, case):
        for i, op in enumerate(case["ops"]):
            for j in range(len(op["tries"])):
                c = json.loads(json.dumps(case))
                del c["ops"][i]["tries"][j]
                if c["ops"][i]["tries"]:
                    yield c
            for k, d in enumerate(op["docs"]):
                for j in range(len(d["c"])):
                    c = json.loads(json.dumps(case))
                    del c["ops"][i]["docs"][k]["c"][j]
                    yield c
                for j in range(len(d["p"])):
                    if d["p"][j]["n"] not in ("VERSION", "PRODID"):
                        c = json.loads(json.dumps(case))
                        del c["ops"][i]["docs"][k]["p"][j]
                        yield c

    def execute(self, case, ctx):
        for n, op in enumerate(case["ops"]):
            via = op["via"]
            want = [docs.meaning(d) for d in op["docs"]]
            lines = []
            for d in op["docs"]:
                lines.extend(docs.comp_lines(d))
            if via.endswith("json"):
                data = self.as_json(op)
                bounds = [len(data)]
            else:
                data = streams.layout(lines, op["lay"], core)
                bounds = None
            for t in op["tries"]:
                self.attempt(ctx, n, op, t, data, want)

    def as_json(self, op):
        """ jCal or jCard text, made from a healthy reading of the text """
        cls = Calendar if op["via"].startswith("cal") else Card
        objs = []
        for d in op["docs"]:
            o = cls.parseText(docs.plain_text(d))
            if o is None:
                raise core.Violation("refused", "a valid object was refused:\n" + docs.plain_text(d))
            objs.append(o.getText(format=cls.sFormatJSON))
        return "[%s]" % ",".join(objs) if op["via"] == "cardsjson" else objs[0]

    def cut(self, t, data):
        pos = t["pos"] * len(data) // 1000000
        if t["near"] == "line":
            i = data.find("\n", pos)
            if i >= 0:
                pos = i + 1
        elif t["near"] == "end":
            pos = max(0, len(data) - (t["pos"] % 30) - 1)
        return min(pos, len(data))

    def attempt(self, ctx, n, op, t, data, want):
        via, k = op["via"], t["k"]
        stream = None
        given = data
        if k == "truncated":
            given = data[:self.cut(t, data)]
            ctx.fault("stream_truncated")
        if op["string"] and k != "failing" and via not in ("calcomp",):
            src = given
        elif k == "failing":
            stream = src = streams.SimInput(given, self.cut(t, data), t["e"])
        else:
            stream = src = streams.SimInput(given)
        error = None
        objs = None
        try:
            objs = self.read(via, src)
        except core.Violation:
            raise
        except Exception as e:
            error = e
        if stream is not None and stream.failed:
            ctx.fault("read_error_" + t["e"])
            ctx.ev("failed-read", n, via, error is not None)
            if error is None:
                ctx.fail("error-swallowed", "%s: the stream raised %s after %s of %s bytes, yet the call returned %s" % (
                    via, t["e"], stream.pos, len(data), self.brief(objs)))
            ctx.fp("failing", via, t["e"], error.__class__.__name__, op["lay"]["eol"], op["lay"]["fold"])
            return
        if k == "truncated":
            full = self.complete(via, op, given, data)
            if full is None:
                # cut inside something
                if error is None:
                    ctx.fail("truncation-accepted", "%s: %s of %s bytes, cut inside an object, were accepted and gave %s; data ends %r" % (
                        via, len(given), len(data), self.brief(objs), given[-60:]))
                ctx.ev("truncated", n, via)
                ctx.fp("truncated", via, error.__class__.__name__, op["lay"]["eol"], op["lay"]["fold"], given[-1:] == "\n")
                return
            want = want[:full]
            ctx.probe("cut_at_boundary")
        if error is not None:
            ctx.fail("refused", "%s: valid data was refused with %s(%s)\n%s" % (via, error.__class__.__name__, str(error)[:500], given[:3000]))
        got = [docs.observe(o) for o in objs]
        if via == "calcomp":
            want = [(w[0], (), w[2]) for w in want]
            got = [(w[0], (), w[2]) for w in got]
        if len(got) != len(want):
            ctx.fail("content", "%s: %d objects were read from %d\n%s" % (via, len(got), len(want), given[:3000]))
        for a, b in zip(want, got):
            if a != b:
                ctx.fail("content", "%s: what was read is not what was written: %s\n%s" % (
                    via, "; ".join(docs.diff(a, b)), given[:3000]))
        ctx.ev("read", n, via, repr(got))
        ctx.fp("read", via, tuple([len(w[1]) for w in want]), op["lay"]["eol"], op["lay"]["fold"])

    def complete(self, via, op, given, data):
        """ how many complete objects the prefix holds, None if it ends inside one """
        if via.endswith("json"):
            if len(given) >= len(data):
                return len(op["docs"])
            return None
        total = len(op["docs"])
        count, inside = 0, False
        end = "END:" + op["docs"][0]["n"]
        begin = "BEGIN:" + op["docs"][0]["n"]
        text = given.replace("\r\n", "\n")
        if text.endswith("\r"):
            text = text[:-1]
        for folded in text.replace("\n ", "").replace("\n\t", "").split("\n"):
            if folded == begin and not inside:
                inside = True
            elif folded == end and inside:
                inside = False
                count += 1
            elif folded == "" and not inside:
                pass
            elif not inside:
                return None
        if inside:
            return None
        return count

    def read(self, via, src):
        if via == "cal":
            o = Calendar.parseText(src)
            return [o] if o is not None else []
        if via == "caldata":
            o = Calendar.parseData(src)
            return [o] if o is not None else []
        if via == "caljson":
            return [Calendar.parseData(src, format=Calendar.sFormatJSON)]
        if via == "calcomp":
            c = Calendar(add_defaults=False)
            first = c.parseComponent(src)
            if (first is None) != (len(c.getComponents()) == 0):
                raise core.Violation("content", "parseComponent answered %s with %d components read" % (first, len(c.getComponents())))
            return [c] if c.getComponents() else []
        if via == "card":
            o = Card.parseText(src)
            return [o] if o is not None else []
        if via == "carddata":
            o = Card.parseData(src, format=Card.sFormatText)
            return [o] if o is not None else []
        if via == "cardjson":
            return [Card.parseData(src, format=Card.sFormatJSON)]
        if via == "cards":
            return Card.parseMultipleTextData(src)
        if via == "cardsjson":
            return Card.parseMultipleData(src, Card.sFormatJSON)
        raise core.HarnessError(via)

    def brief(self, objs):
        if not objs:
            return "nothing"
        return "%d objects, %s" % (len(objs), ["%s properties, %s components" % (len(docs.observe(o)[1]), len(o.getComponents())) for o in objs])


SCENARIO = P09()
