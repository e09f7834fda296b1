"""
P22: damaged data is refused, or read as something that can be written, read again and used; reading and using always end.
"""
import copy
from vsim import core, damage, docs, streams, world
from vsim.lib import LibScenario
from vsim.scenarios.p13 import merged
from pycalendar.datetime import DateTime
from pycalendar.exceptions import ErrorBase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.componentrecur import ComponentRecur
from pycalendar.parser import ParserContext
from pycalendar.period import Period
from pycalendar.vcard.card import Card

REFUSED = (ErrorBase, ValueError)
CONTROL = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//vsim//control//EN", "BEGIN:VEVENT", "UID:control", "DTSTAMP:20140101T000000Z",
           "DTSTART:20140105T100000Z", "DURATION:PT1H", "RRULE:FREQ=WEEKLY;COUNT=5", "SUMMARY:a\\, b;c", "END:VEVENT", "END:VCALENDAR", ""]
CONTROL_CARD = ["BEGIN:VCARD", "VERSION:3.0", "UID:control", "FN:A B", "N:B;A;;;", "TEL;TYPE=WORK:1", "END:VCARD", ""]
OPTIONS = ["parse", "data", "stream", "multiple"]


class P22(LibScenario):
    prop = "P22"

    def generate(self, rnd, tier):
        card = rnd.chance(30)
        doc = docs.gen_card(rnd) if card else docs.gen_calendar(rnd, maxcomps=3)
        case = {"doc": merged(doc), "rounds": []}
        for _i in range(rnd.between(4, 9)):
            tree = rnd.chance(35)
            r = {"json": tree, "d": [damage.gen(rnd, tree and not rnd.chance(10)) for _j in range(rnd.between(1, 3))], "how": rnd.choice(OPTIONS),
                 "year": rnd.choice([None, rnd.between(1999, 2030)])}
            if tree:
                r["d"] = [d for d in r["d"] if d["k"] in damage.TREE] or [damage.gen(rnd, True)]
                r["after"] = [damage.gen(rnd, False)] if rnd.chance(10) else []
            case["rounds"].append(r)
        return case

    def simplify(self, case):
        for i in range(len(case["rounds"])):
            for j in range(len(case["rounds"][i]["d"])):
                c = copy.deepcopy(case)
                del c["rounds"][i]["d"][j]
                yield c
        d = case["doc"]
        for j in range(len(d.get("c") or [])):
            c = copy.deepcopy(case)
            del c["doc"]["c"][j]
            yield c
        for m in [None] + list(range(len(d.get("c") or []))):
            ps = d["p"] if m is None else d["c"][m]["p"]
            for j in range(len(ps)):
                c = copy.deepcopy(case)
                del (c["doc"]["p"] if m is None else c["doc"]["c"][m]["p"])[j]
                yield c

    def call(self, ctx, what, f, data):
        """ (result, refused?) """
        try:
            return f(), False
        except REFUSED as e:
            return e, True
        except core.Violation:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            ctx.fail("internal-error", "%s of damaged data ends in %s: %s (no refusal)\n%s" % (what, type(e).__name__, str(e)[:300], data))

    def read(self, cls, fmt, how, s):
        f = cls.sFormatJSON if fmt == "json" else cls.sFormatText
        if how == "multiple" and hasattr(cls, "parseMultipleData"):
            got = cls.parseMultipleData(streams.SimInput(s) if fmt != "json" else s, format=f)
            return got[0] if len(got) == 1 else None
        if how == "stream":
            return cls.parseData(streams.SimInput(s), format=f)
        if how == "data" or fmt == "json":
            return cls.parseData(s, format=f)
        return cls.parseText(s)

    def control(self):
        out = []
        for cls, lines in ((Calendar, CONTROL), (Card, CONTROL_CARD)):
            o = cls.parseText("\r\n".join(lines))
            out.append(world.text_of(o))
            if cls is Calendar:
                l = []
                o.getComponents("VEVENT")[0].expandPeriod(Period(DateTime(2014, 1, 1), DateTime(2015, 1, 1)), l)
                out.append([x.getInstanceStart().getText() for x in l])
        return out

    def same(self, a, b):
        return self.norm(docs.observe(a)) == self.norm(docs.observe(b))

    def norm(self, o):
        """ text and its written form, of a name nobody knows, are told apart by JSON only; a bare CR is a line end """
        def value(v):
            if v[0] in ("text", "raw"):
                x = v[1] or ""
                if v[0] == "text":
                    x = x.replace("\\", "\\\\").replace(",", "\\,").replace(";", "\\;").replace("\n", "\\n")
                return ("raw", x.replace("\r", ""))
            return v
        def clean(s):
            return s.replace("\r", "\n") if isinstance(s, basestring) else tuple([clean(i) for i in s]) if isinstance(s, tuple) else s
        props = tuple([(n, tuple(sorted([((p[0][0], p[0][1].upper()), clean(p[1]), clean(value(p[2]))) for p in ps]))) for n, ps in o[1]])
        return (o[0], props, tuple(sorted([self.norm(s) for s in o[2]])))

    def difference(self, a, b):
        return "; ".join(docs.diff(self.norm(docs.observe(a)), self.norm(docs.observe(b))))

    def execute(self, case, ctx):
        card = case["doc"]["n"] == "VCARD"
        cls = Card if card else Calendar
        clean = world.parse(case["doc"])
        forms = {"text": world.text_of(clean), "json": world.json_of(clean)}
        control = self.control()
        settings = dict([(k, v) for k, v in vars(ParserContext).items() if k.isupper()])
        for r in case["rounds"]:
            fmt = "json" if r["json"] else "text"
            s = forms[fmt]
            for d in r["d"]:
                s = damage.tree(s, d) if r["json"] else damage.text(s, d)
                ctx.fault("damage_%s_%s" % (fmt, d["k"]))
            for d in r.get("after") or []:
                s = damage.text(s, d)
                ctx.fault("damage_json_bytes_%s" % (d["k"],))
            how = r["how"]
            got, refused = self.call(ctx, "reading (%s, %s)" % (fmt, how), lambda: self.read(cls, fmt, how, s), s)
            if refused or got is None:
                outcome = "refused"
            else:
                outcome = self.use(ctx, cls, got, r, s)
            now = self.control()
            if now != control:
                ctx.fail("left-behind", "after damaged data was read, sound data reads or expands differently: %r, before %r\n%s" % (now, control, s))
            if settings != dict([(k, v) for k, v in vars(ParserContext).items() if k.isupper()]):
                ctx.fail("left-behind", "reading damaged data changed the settings of the reader\n%s" % (s,))
            ctx.ev(fmt, how, outcome, repr(s)[:200])
            ctx.fp(fmt, how, outcome, tuple(sorted([d["k"] for d in r["d"]])), str(got)[:30] if refused else "", card)
            ctx.nontrivial += outcome != "refused"
        # sound data is read as ever
        for fmt in ("text", "json"):
            again = self.read(cls, fmt, "data", forms[fmt])
            if again is None or world.text_of(again) != forms["text"]:
                ctx.fail("left-behind", "after damaged data was read, what was read before is read differently")

    def use(self, ctx, cls, got, r, s):
        card = cls is Card
        text, refused = self.call(ctx, "writing", lambda: world.text_of(got), s)
        if refused:
            ctx.fail("unwritable", "damaged data was accepted, and cannot be written: %s\n%s" % (text, s))
        again, refused = self.call(ctx, "reading what was written", lambda: self.read(cls, "text", "parse", text), s)
        if refused or again is None:
            ctx.fail("unreadable", "damaged data was accepted, and what is written of it is refused: %s\n%s\nfrom\n%s" % (again, text, s))
        t2 = world.text_of(again)
        if t2 != text:
            ctx.fail("not-stable", "damaged data was accepted, and what is written of it is read as something else: %s\n%s" % (world.view_diff((text, "", 0), (t2, "", 0)), s))
        if not self.same(got, again):
            ctx.fail("content", "damaged data was accepted, and what is written of it says something else: %s\n%s" % (self.difference(got, again), s))
        js, refused = self.call(ctx, "writing as JSON", lambda: world.json_of(got), s)
        if refused:
            # what is not UTF-8 cannot be JSON
            try:
                text.replace("\r\n ", "").decode("utf-8")
            except UnicodeDecodeError:
                pass
            else:
                ctx.fail("unwritable", "damaged data was accepted, and cannot be written as JSON: %s\n%s" % (js, s))
        else:
            again, refused = self.call(ctx, "reading the JSON written", lambda: self.read(cls, "json", "parse", js), s)
            if refused or again is None:
                ctx.fail("unreadable", "damaged data was accepted, and the JSON written of it is refused: %s\n%s\nfrom\n%s" % (again, js, s))
            if not self.same(got, again):
                ctx.fail("content", "damaged data was accepted, and the JSON written of it says something else: %s\n%s" % (self.difference(got, again), s))
        copied, refused = self.call(ctx, "duplicating", lambda: got.duplicate(), s)
        if refused or world.text_of(copied) != text or not copied == got:
            ctx.fail("copy", "a duplicate of what was accepted is not the same\n%s" % (s,))
        self.call(ctx, "validating", lambda: got.validate(), s)
        if card:
            return "accepted"
        year = r["year"]
        if year is None:
            # that of one of the components
            year = 2014
            for c in got.getComponents():
                if isinstance(c, ComponentRecur) and 0 < c.getStart().getYear() < 9999:
                    year = c.getStart().getYear()
        window = Period(DateTime(year, 1, 1), DateTime(year + 1, 1, 1))
        n = 0
        for c in got.getComponents():
            if isinstance(c, ComponentRecur):
                l = []
                self.call(ctx, "expanding", lambda: c.expandPeriod(window, l), s)
                for x in l:
                    self.call(ctx, "looking at an instance", lambda: (x.getInstanceStart().getText(), x.getInstanceEnd().getText()), s)
                n += len(l)
                self.call(ctx, "looking at a component", lambda: (c.getStart().getText(), c.getEnd().getText(), c.getSummary(), c.getUID()), s)
            elif c.getType() == "VTIMEZONE":
                for m in (1, 4, 7, 10):
                    self.call(ctx, "asking for an offset", lambda: c.getTimezoneOffsetSeconds(DateTime(year, m, 15, 2, 30, 0)), s)
        self.call(ctx, "asking for busy time", lambda: got.getFreeBusy(window, []), s)
        self.call(ctx, "expanding all", lambda: got.getVEvents(window, []), s)
        if world.text_of(got) != text:
            ctx.fail("changed", "looking at what was accepted changed it\n%s" % (s,))
        return "used %d" % min(n, 3)


SCENARIO = P22()
