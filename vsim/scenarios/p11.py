"""
P11: a write that fails is reported, leaves only a beginning of the right bytes and no trace in the object.
Two objects are made from one document and edited alike; every write of one of them may meet a fault, the other's never does.
"""
import copy
import json
from vsim import core, docs, streams, tzmodel, world
from vsim.lib import LibScenario, install_zone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.outputfilter import OutputFilter

ERRORS = ["ioerror", "oserror", "valueerror", "diskfull", "timeout"]
NAMES = ["UID", "SUMMARY", "DTSTART", "DTSTAMP", "RRULE", "ATTENDEE", "COMMENT", "DESCRIPTION", "TZID", "TRIGGER", "X-SIM-1", "VERSION", "PRODID", "N", "FN", "TEL", "NOTE",
         "CATEGORIES", "ACTION", "RDATE", "EXDATE", "LOCATION"]


def gen_filter(rnd, n, depth=0):
    f = {"n": n, "all": rnd.chance(30), "props": [], "allsub": rnd.chance(30), "subs": []}
    if not f["all"] and rnd.chance(90):
        f["props"] = [[i, rnd.chance(25)] for i in rnd.sample(NAMES, rnd.between(1, 8))]
    if not f["allsub"] and depth < 2:
        kids = {"VCALENDAR": ["VEVENT", "VTODO", "VJOURNAL", "VTIMEZONE", "VFREEBUSY"], "VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VTIMEZONE": ["STANDARD", "DAYLIGHT"]}.get(n, [])
        for k in kids:
            if rnd.chance(60):
                f["subs"].append(gen_filter(rnd, k, depth + 1))
    return f


def lib_filter(f):
    out = OutputFilter(f["n"])
    if f["all"]:
        out.setAllProperties()
    for n, nov in f["props"]:
        out.addProperty(n, nov)
    if f["allsub"]:
        out.setAllSubComponents()
    for s in f["subs"]:
        out.addSubComponent(lib_filter(s))
    return out


def unfold(text):
    return text.replace("\r\n ", "").split("\r\n")[:-1]


def filtered_lines(lines, f):
    """ what a filter leaves of a whole component's lines """
    out = []
    # stack of: None (dropped), True (everything), or a filter
    stack = []
    for line in lines:
        if line.startswith("BEGIN:"):
            n = line[6:]
            if not stack:
                stack.append(f)
            else:
                top = stack[-1]
                if top is None or top is True:
                    stack.append(top)
                elif top["allsub"]:
                    stack.append(True)
                else:
                    sub = [s for s in top["subs"] if s["n"] == n]
                    stack.append(sub[0] if sub else None)
            if stack[-1] is not None:
                out.append(line)
        elif line.startswith("END:"):
            if stack.pop() is not None:
                out.append(line)
        else:
            top = stack[-1]
            if top is None:
                continue
            if top is True or top["all"]:
                out.append(line)
                continue
            # property name, and where the value starts
            q = False
            end = None
            for i, c in enumerate(line):
                if c == '"':
                    q = not q
                elif c == ":" and not q:
                    end = i
                    break
            name = line[:end].split(";")[0].split(".")[-1].upper()
            for n, nov in top["props"]:
                if n == name:
                    out.append(line[:end + 1] if nov else line)
                    break
    return out


class P11(LibScenario):
    prop = "P11"

    def generate(self, rnd, tier):
        zone = None
        tz = None
        if rnd.chance(20):
            doc = docs.gen_card(rnd)
        else:
            zones = []
            if rnd.chance(60):
                zone = tzmodel.gen_zone(rnd, "Sim/A")
                tz = "Sim/A"
                if rnd.chance(40):
                    zones = [zone]
            doc = docs.gen_calendar(rnd, maxcomps=3, zones=zones or ([zone] if zone else []))
            if zone and not zones:
                # the zone is known, but the calendar does not bring it
                doc["c"] = [c for c in doc["c"] if c["n"] != "VTIMEZONE"]
        ops = []
        for _i in range(rnd.between(3, 10)):
            if rnd.chance(35):
                e = world.gen_edit(rnd, tz)
                e["e"] = True
                ops.append(e)
            else:
                w = {"op": rnd.weighted([("root", 6), ("comp", 3), ("prop", 2), ("filter", 3), ("json", 1)]), "x": rnd.below(1000), "y": rnd.below(1000),
                     "tz": rnd.choice([None, Calendar.ALL_TIMEZONES, Calendar.NONSTD_TIMEZONES, Calendar.NO_TIMEZONES])}
                if w["op"] == "filter":
                    w["f"] = gen_filter(rnd, doc["n"])
                if rnd.chance(70):
                    w["fault"] = {"k": rnd.choice(["full", "full", "once"]), "pos": rnd.below(1000000), "e": rnd.choice(ERRORS), "torn": rnd.chance(60)}
                ops.append(w)
        case = {"doc": doc, "zone": zone, "ops": ops}
        if rnd.chance(8):
            # a value which is not UTF-8, as a reader takes any bytes
            raw = []
            for _i in range(rnd.between(1, 6)):
                raw += rnd.choice([[0x80 + rnd.below(64)] * rnd.between(1, 160), [0xe9], [0x61] * rnd.between(1, 80), [0xf0, 0x9f, 0x98, 0x80] * rnd.between(1, 20),
                                   [0xc3, 0xa9] * rnd.between(1, 40), [0xff] * rnd.between(1, 3)])
            case["raw"] = {"x": rnd.below(1000), "b": raw}
            case["ops"] = [o for o in ops if o["op"] != "json"] or ops
        return case

    def simplify(self, case):
        d = case["doc"]
        for j in range(len(d.get("c") or [])):
            c = copy.deepcopy(case)
            del c["doc"]["c"][j]
            yield c
        for m in [None] + list(range(len(d.get("c") or []))):
            ps = d["p"] if m is None else d["c"][m]["p"]
            for j in range(len(ps)):
                if ps[j]["n"] not in world.SINGLE:
                    c = copy.deepcopy(case)
                    del (c["doc"]["p"] if m is None else c["doc"]["c"][m]["p"])[j]
                    yield c

    def write(self, root, op, out):
        nodes = root.nodes()
        k = op["op"]
        if k == "root":
            if root.n == "VCALENDAR":
                root.lib.generate(out, includeTimezones=op["tz"])
            else:
                root.lib.generate(out)
        elif k == "comp":
            node = nodes[op["x"] % len(nodes)]
            if node is root:
                self.write(root, dict(op, op="root"), out)
            else:
                node.lib.generate(out)
        elif k == "prop":
            node = nodes[op["x"] % len(nodes)]
            if node.props:
                node.props[op["y"] % len(node.props)][1].generate(out)
        elif k == "filter":
            root.lib.generateFiltered(out, lib_filter(op["f"]))
        else:
            j = []
            if root.n == "VCALENDAR":
                root.lib.writeJSON(j, includeTimezones=op["tz"])
            else:
                root.lib.writeJSON(j)
            out.write(json.dumps(j))

    def execute(self, case, ctx):
        if case["zone"] is not None:
            install_zone(tzmodel.Zone(case["zone"]) if isinstance(case["zone"], dict) else case["zone"])
        a = world.pair(world.parse(case["doc"]), copy.deepcopy(case["doc"]), "the object read")
        b = world.pair(world.parse(case["doc"]), copy.deepcopy(case["doc"]), "the object read again")
        kinds = []
        raw = case.get("raw")
        if raw:
            for root in (a, b):
                nodes = root.nodes()
                nodes[raw["x"] % len(nodes)].lib.addProperty(type(root.lib).sPropertyType(name="X-SIM-RAW", value="".join([chr(i) for i in raw["b"]])))
        for op in case["ops"]:
            if raw and op["op"] == "json":
                # not a matter of writing lines
                continue
            if op.get("e"):
                done = world.apply_edit(a, copy.deepcopy(op), ctx)
                world.apply_edit(b, copy.deepcopy(op), ctx)
                if done:
                    kinds.append("edit")
                continue
            k = op["op"]
            kinds.append(k)
            before = self.content(a)
            good = streams.SimOutput()
            self.write(b, op, good)
            good = good.getvalue()
            f = op.get("fault")
            if f is not None and k != "json":
                room = f["pos"] * len(good) // 1000000
                out = streams.SimOutput(room, f["e"], f["torn"], once=f["k"] == "once")
            else:
                out = streams.SimOutput()
            raised = None
            try:
                self.write(a, op, out)
            except core.Violation:
                raise
            except Exception as e:
                raised = e
                if not out.failed:
                    ctx.fail("write-refused", "writing (%s) raised %s: %s although nothing failed" % (k, type(e).__name__, e))
            got = out.getvalue()
            if out.failed:
                ctx.fault("write_%s_%s" % (f["k"], f["e"]))
                if raised is None:
                    ctx.fail("swallowed", "a write failed at byte %d of %d (%s), but the call (%s) returned as if all was written" % (room, len(good), f["e"], k))
                if not good.startswith(got):
                    ctx.fail("not-a-prefix", "after a write failed at byte %d (%s), what was written is not the beginning of what should be: ...%r" % (room, k, got[-60:]))
            elif got != good:
                ctx.fail("bytes", "writing (%s) gives other bytes than a twin that never met a fault: %s" % (k, self.first(good, got)))
            now = self.content(a)
            if now != before:
                ctx.fail("changed", "writing (%s%s) changed the object: %s" % (k, ", which failed" if out.failed else "", "; ".join(docs.diff(before, now))))
            # and again, in peace
            again = streams.SimOutput()
            self.write(a, op, again)
            if again.getvalue() != good:
                ctx.fail("retry", "writing (%s) again%s gives other bytes than a twin that never met a fault: %s" % (
                    k, " after a failure" if out.failed else "", self.first(good, again.getvalue())))
            if k != "json":
                self.lines(ctx, k, good)
            if k == "filter":
                # a filtered write is the whole one less what the filter drops
                whole = streams.SimOutput()
                super(type(a.lib), a.lib).generate(whole) if a.n == "VCARD" else a.lib.generate(whole, includeTimezones=Calendar.NO_TIMEZONES)
                want = filtered_lines(unfold(whole.getvalue()), op["f"])
                if want != unfold(good):
                    ctx.fail("filter", "a filtered write is not what the filter leaves of the whole: %s" % (self.first("\n".join(want), "\n".join(unfold(good))),))
            ctx.ev(k, out.failed, good)
            ctx.fp(tuple(kinds[-4:]), a.n, f["k"] if out.failed else None, f["e"] if out.failed else None, min(9, len(good) // 300))

    def content(self, node):
        m = docs.observe(node.lib)
        # an object may be completed with the time zones it refers to
        return (m[0], m[1], tuple([c for c in m[2] if c[0] != "VTIMEZONE"]))

    def first(self, want, got):
        w, g = want.split("\n"), got.split("\n")
        for i in range(max(len(w), len(g))):
            if w[i:i + 1] != g[i:i + 1]:
                return "%r instead of %r" % (g[i:i + 1], w[i:i + 1])
        return "no difference"

    def lines(self, ctx, k, text):
        if text and not text.endswith("\r\n"):
            ctx.fail("lines", "the last line is not ended: %r" % (text[-60:],))
        for line in text.split("\r\n")[:-1]:
            if "\n" in line or "\r" in line:
                ctx.fail("lines", "a line contains a bare line break: %r" % (line,))
            if len(line) > 75:
                ctx.fail("lines", "a line is longer than 75 octets: %r" % (line,))
        whole = []
        for line in text.split("\r\n")[:-1] + [""]:
            if not line.startswith(" "):
                if self.utf8("".join(whole)):
                    for w in whole:
                        if not self.utf8(w):
                            ctx.fail("lines", "a line ends inside a character: %r" % (w,))
                whole = [line]
            else:
                whole.append(line[1:])

    def utf8(self, s):
        try:
            s.decode("utf-8")
        except UnicodeDecodeError:
            return False
        return True


SCENARIO = P11()
