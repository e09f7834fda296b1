"""
P15: validation reports what is wrong and nothing else, changes only what it says it fixed, and what it
fixed stays fixed - in the text and in what the component then answers.
"""
import copy
from vsim import core, dates as D, tzmodel, world
from vsim.lib import LibScenario, install_zone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty

ZONE = "Sim/Z"
COMMON = "CREATED LAST-MODIFIED SEQUENCE SUMMARY URL ORGANIZER CLASS"

# what each component must have once, must have once and may be given empty, may have once, must have
ONCE = {"VCALENDAR": "PRODID VERSION", "VEVENT": "DTSTAMP UID", "VTODO": "DTSTAMP UID", "VJOURNAL": "DTSTAMP UID", "VFREEBUSY": "DTSTAMP UID",
        "VAVAILABILITY": "DTSTAMP UID", "AVAILABLE": "DTSTAMP DTSTART UID", "VTIMEZONE": "TZID", "STANDARD": "DTSTART TZOFFSETTO TZOFFSETFROM",
        "VPOLL": "DTSTAMP UID ORGANIZER", "VVOTER": "VOTER", "VOTE": "", "VCARD": "VERSION N", "X-COMP": "", "VALARM": "ACTION TRIGGER"}
MAYBE = {"VCALENDAR": "CALSCALE METHOD",
         "VEVENT": "CLASS CREATED DESCRIPTION DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PRIORITY SEQUENCE SUMMARY TRANSP URL RECURRENCE-ID RRULE DTEND DURATION",
         "VTODO": "CLASS COMPLETED CREATED DESCRIPTION DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PERCENT-COMPLETE PRIORITY RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DUE DURATION",
         "VJOURNAL": "CLASS CREATED DTSTART LAST-MODIFIED ORGANIZER RECURRENCE-ID SEQUENCE SUMMARY URL RRULE",
         "VFREEBUSY": "CONTACT DTSTART DTEND ORGANIZER URL",
         "VAVAILABILITY": "BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL RECURRENCE-ID DTEND DURATION",
         "AVAILABLE": "CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SEQUENCE SUMMARY DTEND DURATION",
         "VTIMEZONE": "LAST-MODIFIED TZURL", "STANDARD": "RRULE",
         "VPOLL": "ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL",
         "VVOTER": "CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL", "VOTE": "POLL-ITEM-ID RESPONSE", "VCARD": "BDAY PRODID REV UID", "X-COMP": "", "VALARM": "DURATION REPEAT ACKNOWLEDGED"}
ALARM_EMPTY = {"DISPLAY": "DESCRIPTION", "EMAIL": "DESCRIPTION SUMMARY"}
RECUR = ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE")
STATUS_ONCE = ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE")

# the lines to choose from
UTC = ["20140101T000000Z", "20140101T000000Z", "20140615T121314Z", "20140101T000000"]
LINES = {
    "CREATED": UTC, "LAST-MODIFIED": UTC, "DTSTAMP": UTC, "COMPLETED": UTC, "ACKNOWLEDGED": UTC,
    "PRIORITY": ["0", "1", "9", "10", "-1"], "PERCENT-COMPLETE": ["0", "55", "100", "101", "-1"], "SEQUENCE": ["0", "3", "-2"], "REPEAT": ["1", "4", "0", "-1"],
    "SUMMARY": ["a", "b c"], "DESCRIPTION": ["d", ""], "URL": ["http://a.b/c"], "ORGANIZER": ["mailto:o@b.c"], "CLASS": ["PUBLIC", "PRIVATE"], "GEO": ["1.5;2.5"], "LOCATION": ["here", "there"],
    "TRANSP": ["OPAQUE", "TRANSPARENT"], "CONTACT": ["c"], "BUSYTYPE": ["BUSY"], "ATTENDEE": ["mailto:a@b.c", "mailto:d@b.c"], "COMMENT": ["x", "y"], "CATEGORIES": ["A,B"],
    "STATUS": ["CONFIRMED", "CANCELLED", "CANCELLED", "cancelled", "TENTATIVE"],
    "METHOD": ["PUBLISH", "REQUEST"], "CALSCALE": ["GREGORIAN"], "PRODID": ["-//x//y"], "TZURL": ["http://a.b/tz"],
    "POLL-MODE": ["BASIC"], "POLL-WINNER": ["1"], "POLL-ITEM-ID": ["1", "2"], "RESPONSE": ["50"], "VOTER": ["mailto:v@b.c"], "ACCEPT-RESPONSE": ["a"], "POLL-PROPERTIES": ["DTSTART"],
    "DURATION": ["PT1H", "P1D"], "TRIGGER": ["-PT15M", "PT1H"], "ACTION": ["AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "X-OTHER"],
    "BDAY": ["20000101"], "REV": ["20140101T000000Z"], "UID": ["u-other"], "FN": ["f n", "g"], "N": ["A;B;;;"], "NOTE": ["n"],
    "X-THING": ["1", "2"], "FREEBUSY": ["20140305T100000Z/PT1H"], "TZOFFSETFROM": ["+0100"], "TZOFFSETTO": ["+0200"],
}
TIMES = {"DTSTART": 0, "DTEND": 2, "DUE": 3, "RECURRENCE-ID": 1}
UNTILS = [None, None, "date", "utc"]


def gen_line(rnd, n, tkind, comp):
    if n in TIMES:
        day = 5 + TIMES[n]
        if comp in ("VFREEBUSY", "VPOLL", "STANDARD") and tkind == "date":
            tkind = "utc"
        if comp == "STANDARD":
            return "DTSTART:20000101T020000"
        t = "%02d%02d00" % (rnd.choice([0, 10, 23, 20]), rnd.choice([0, 30]))
        return {"date": "%s;VALUE=DATE:201403%02d" % (n, day), "utc": "%s:201403%02dT%sZ" % (n, day, t), "floating": "%s:201403%02dT%s" % (n, day, t), "local": "%s;TZID=%s:201403%02dT%s" % (n, ZONE, day, t)}[tkind]
    if n == "RRULE":
        u = rnd.choice(UNTILS) if comp != "STANDARD" else None
        return "RRULE:FREQ=DAILY" + ("" if u is None else ";UNTIL=201403%02d%s" % (rnd.between(8, 20), "" if u == "date" else "T%02d0000Z" % (rnd.choice([0, 12, 23]),)))
    return n + ":" + rnd.choice(LINES[n])


class Gen(object):
    def __init__(self, rnd):
        self.rnd, self.n = rnd, 0

    def node(self, name, kids=()):
        rnd = self.rnd
        self.n += 1
        k = rnd.choice(["date", "utc", "floating", "local", "local"])
        node = {"n": name, "id": self.n, "k": k, "p": [], "c": list(kids)}
        act = rnd.choice(LINES["ACTION"])
        for p in ONCE[name].split():
            # without these it would not be read back, or not in a settled order
            if p in ("VERSION",):
                node["p"].append("VERSION:" + ("3.0" if name == "VCARD" else "2.0"))
            elif p == "UID":
                node["p"].append("UID:u%d" % self.n)
            elif p == "TZID":
                node["p"].append("TZID:Sim/V%d" % self.n)
            elif p == "ACTION":
                if rnd.chance(95):
                    node["p"].append("ACTION:" + act)
            elif rnd.chance(90) or name == "STANDARD" and p == "DTSTART":
                node["p"].append(gen_line(rnd, p, k, name))
        for p in self.names(name):
            if rnd.chance(18) or p in ("DTSTART", "DTEND", "DURATION", "RRULE", "DUE") and rnd.chance(35):
                node["p"].append(gen_line(rnd, p, k, name))
                if rnd.chance(15):
                    node["p"].append(gen_line(rnd, p, k, name))
        return node

    def names(self, name):
        extra = {"VEVENT": "STATUS COMMENT ATTENDEE", "VTODO": "STATUS COMMENT", "VJOURNAL": "STATUS", "AVAILABLE": "STATUS", "VALARM": "DESCRIPTION SUMMARY ATTENDEE URL", "VCARD": "FN FN NOTE", "X-COMP": "SEQUENCE PRIORITY DTSTAMP", "VFREEBUSY": "FREEBUSY"}
        return [p for p in (MAYBE[name] + " X-THING " + extra.get(name, "")).split() if p not in ("RECURRENCE-ID", "UID") or name == "VCARD"]

    def top(self):
        rnd = self.rnd
        n = rnd.weighted([("VEVENT", 8), ("VTODO", 5), ("VJOURNAL", 2), ("VFREEBUSY", 1), ("VAVAILABILITY", 2), ("VTIMEZONE", 2), ("VPOLL", 1), ("X-COMP", 1)])
        kids = []
        if n in ("VEVENT", "VTODO"):
            kids = [self.node("VALARM") for _i in range(rnd.choice([0, 0, 1, 1, 2]))]
        elif n == "VAVAILABILITY":
            kids = [self.node("AVAILABLE") for _i in range(rnd.below(3))]
        elif n == "VTIMEZONE":
            kids = [self.node("STANDARD") for _i in range(rnd.choice([0, 1, 1]))]
        elif n == "VPOLL" and rnd.chance(50):
            kids = [self.node("VVOTER", [self.node("VOTE")])]
        return self.node(n, kids)


def walk(node, parent=None):
    yield node, parent
    for c in node["c"]:
        for x in walk(c, node):
            yield x


def name_of(line):
    return line.split(":")[0].split(";")[0]


def value_of(line):
    return line.split(":", 1)[1]


def lines_of(node, name):
    return [l for l in node["p"] if name_of(l) == name]


def bad_value(line):
    n, v = name_of(line), value_of(line)
    if n in ("CREATED", "LAST-MODIFIED", "DTSTAMP", "COMPLETED", "ACKNOWLEDGED"):
        return not v.endswith("Z")
    if n == "PRIORITY":
        return not 0 <= int(v) <= 9
    if n == "PERCENT-COMPLETE":
        return not 0 <= int(v) <= 100
    if n in ("SEQUENCE", "REPEAT"):
        return int(v) < 0
    return False


def is_date(v):
    return "T" not in v


class P15(LibScenario):
    prop = "P15"

    def generate(self, rnd, tier):
        g = Gen(rnd)
        if rnd.chance(12):
            root = g.node("VCARD")
        else:
            root = g.node("VCALENDAR", [g.top() for _i in range(rnd.between(1, 4))])
        nodes = [n for n, _p in walk(root)]
        ops = []
        for _i in range(rnd.between(3, 12)):
            k = rnd.weighted([("check", 4), ("fix", 6), ("part", 3), ("add", 8), ("remove", 4), ("dup", 2), ("reread", 1)])
            op = {"op": k, "x": rnd.below(1000)}
            if k in ("add", "remove", "part"):
                n = rnd.choice(nodes)
                op["id"], op["fix"] = n["id"], rnd.chance(60)
                names = [p for p in g.names(n["n"]) if p != "X-THING"] or ["X-THING"]
                if n["n"] == "VALARM" and rnd.chance(25):
                    names = ["ACTION"]
                if n["n"] in RECUR and rnd.chance(50):
                    names = ["STATUS", "DTEND" if n["n"] != "VTODO" else "DUE", "DURATION", "RRULE", "DTSTART"]
                    names = [p for p in names if n["n"] != "VJOURNAL" or p not in ("DTEND", "DURATION")]
                if n["n"] == "STANDARD":
                    names = ["RRULE"]
                p = rnd.choice(names)
                op["name"] = p
                if k == "add":
                    op["line"] = gen_line(rnd, p, n["k"] if rnd.chance(85) else "utc", n["n"])
                    op["over"] = rnd.chance(40)
            ops.append(op)
        return {"zone": tzmodel.gen_zone(rnd, ZONE), "root": root, "ops": ops}

    def simplify(self, case):
        def paths(node, at):
            for i, c in enumerate(node["c"]):
                yield at + [i]
                for p in paths(c, at + [i]):
                    yield p
        used = [op.get("id") for op in case["ops"]]
        for path in list(paths(case["root"], [])):
            c = copy.deepcopy(case)
            n = c["root"]
            for i in path[:-1]:
                n = n["c"][i]
            if n["c"][path[-1]]["id"] not in used and not [1 for x, _p in walk(n["c"][path[-1]]) if x["id"] in used]:
                del n["c"][path[-1]]
                yield c
        for k, (n, _p) in enumerate(list(walk(case["root"]))):
            for j in range(len(n["p"])):
                if name_of(n["p"][j]) in ("UID", "VERSION", "TZID"):
                    continue
                c = copy.deepcopy(case)
                del list(walk(c["root"]))[k][0]["p"][j]
                yield c

    # -- model

    def text(self, node):
        out = ["BEGIN:" + node["n"], "X-ID:%d" % node["id"]] + node["p"]
        for c in node["c"]:
            out += self.text(c)
        return out + ["END:" + node["n"]]

    def load(self, text):
        return (Card if self.root["n"] == "VCARD" else Calendar).parseText(text)

    def action(self, node):
        a = lines_of(node, "ACTION")
        return value_of(a[0]) if a else "DISPLAY"

    def problems(self, node, parent):
        """ what is wrong with one component, and which of it can be fixed """
        n = node["n"]
        bad, can = [], []
        count = lambda p: len(lines_of(node, p))
        once, maybe, empty, some = ONCE[n].split(), MAYBE[n].split(), [], ["FN"] if n == "VCARD" else []
        if n == "VALARM":
            a = self.action(node)
            empty = ALARM_EMPTY.get(a, "").split()
            if a == "NONE":
                once, maybe = ["ACTION"], []
            elif a == "URI":
                once = once + ["URL"]
            elif a == "AUDIO":
                maybe = maybe + ["ATTACH"]
            elif a == "EMAIL":
                some = ["ATTENDEE"]
        for p in once:
            if count(p) != 1:
                bad.append("[%s] Missing or too many required property: %s" % (n, p))
        for p in empty:
            if count(p) > 1:
                bad.append("[%s] Too many required property: %s" % (n, p))
            elif count(p) == 0:
                can.append("[%s] Missing required property: %s" % (n, p))
        for p in maybe:
            if count(p) > 1:
                bad.append("[%s] Too many properties present: %s" % (n, p))
        for p in some:
            if count(p) == 0:
                bad.append("[%s] Missing required property: %s" % (n, p))
        if n in STATUS_ONCE and count("STATUS") > 1:
            (can if [1 for l in lines_of(node, "STATUS") if value_of(l).upper() == "CANCELLED"] else bad).append("[%s] Too many properties: STATUS" % (n,))
        if n != "VCARD":
            for l in node["p"]:
                if bad_value(l):
                    bad.append("[%s] Property value incorrect: %s" % (n, name_of(l)))
        if n in RECUR and count("DTSTART"):
            for l in lines_of(node, "RRULE"):
                if self.mismatch(node, l):
                    can.append("[%s] Value types must match: DTSTART, UNTIL" % (n,))
        if n == "VEVENT" and not lines_of(parent, "METHOD") and not count("DTSTART"):
            bad.append("[VEVENT] Missing required property: DTSTART")
        if n in ("VEVENT", "AVAILABLE", "VAVAILABILITY") and count("DTEND") and count("DURATION"):
            can.append("[%s] Properties must not both be present: DTEND, DURATION" % (n,))
        if n == "VTODO":
            if count("DUE") and count("DURATION"):
                can.append("[VTODO] Properties must not both be present: DUE, DURATION")
            if count("DURATION") and not count("DTSTART"):
                # (unless fixing took the duration away)
                bad.append("[VTODO] Property must be present: DTSTART with DURATION")
        if n == "VTIMEZONE" and not node["c"]:
            bad.append("[VTIMEZONE] At least one component must be present: STANDARD or DAYLIGHT")
        if n == "VALARM" and bool(count("DURATION")) != bool(count("REPEAT")):
            bad.append("[VALARM] Properties must be present together: DURATION, REPEAT")
        return bad, can

    def mismatch(self, node, rule):
        if "UNTIL=" not in rule:
            return False
        return is_date(rule.split("UNTIL=")[1].split(";")[0]) != is_date(value_of(lines_of(node, "DTSTART")[0]))

    def fix(self, node):
        """ the component after fixing; None in a line for what is not settled """
        n = node["n"]
        if n == "VALARM":
            for p in ALARM_EMPTY.get(self.action(node), "").split():
                if not lines_of(node, p):
                    node["p"].append(p + ":")
        if n in STATUS_ONCE and len(lines_of(node, "STATUS")) > 1 and [1 for l in lines_of(node, "STATUS") if value_of(l).upper() == "CANCELLED"]:
            node["p"] = [l for l in node["p"] if name_of(l) != "STATUS"] + ["STATUS:CANCELLED"]
        if n in RECUR and lines_of(node, "DTSTART"):
            st = lines_of(node, "DTSTART")[0]
            for i, l in enumerate(node["p"]):
                if name_of(l) == "RRULE" and self.mismatch(node, l):
                    head, until = l.split("UNTIL=")
                    node["p"][i] = head + "UNTIL=" + self.until(until, st)
        drop = {"VEVENT": ("DTEND", "DURATION"), "AVAILABLE": ("DTEND", "DURATION"), "VAVAILABILITY": ("DTEND", "DURATION"), "VTODO": ("DURATION", "DUE")}.get(n)
        if drop and lines_of(node, drop[0]) and lines_of(node, drop[1]):
            node["p"] = [l for l in node["p"] if name_of(l) != drop[0]]

    def until(self, until, start):
        """ still that day's instance, where it starts """
        day = D.parse(until[:8]) if hasattr(D, "parse") else (int(until[:4]), int(until[4:6]), int(until[6:8]))
        if is_date(value_of(start)):
            return until[:8]
        t = value_of(start).split("T")[1]
        w = D.secs(tuple(day[:3]) + (int(t[:2]), int(t[2:4]), int(t[4:6])))
        if "TZID" in start:
            w = self.zone.to_utc(w)
            if w is None:
                return "?"
        return D.fmtsec(w, True)

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        self.zone = tzmodel.Zone(case["zone"], 2045)
        install_zone(self.zone)
        self.root = copy.deepcopy(case["root"])
        self.did = []
        self.lib = self.load("\r\n".join(self.text(self.root) + [""]))
        self.agree()
        for op in case["ops"]:
            self.did.append(op["op"])
            getattr(self, "op_" + op["op"])(op)
            self.agree()
            ctx.ev(op["op"])

    def fail(self, kind, msg):
        self.ctx.fail(kind, "%s; after %s" % (msg, " ".join(self.did)))

    def libs(self, lib=None):
        out = {}
        todo = [lib or self.lib]
        while todo:
            l = todo.pop()
            out[int(str(l.getProperties("X-ID")[0].getText()).strip().split(":")[1])] = l
            todo += l.getComponents()
        return out

    def agree(self):
        libs = self.libs()
        if sorted(libs) != sorted(n["id"] for n, _p in walk(self.root)):
            self.fail("components", "components %s" % (sorted(libs),))
        for n, _p in walk(self.root):
            got = []
            for ps in libs[n["id"]].getProperties().values():
                got += [p.getText().replace("\r\n ", "").strip() for p in ps if p.getName() != "X-ID"]
            want = list(n["p"])
            # the parts of an UNTIL that is not settled, and the value type which may be written
            for l in n["p"]:
                if "?" in l and name_of(l) == "RRULE":
                    want.remove(l)
                    for x in got:
                        if x.startswith(l.split("UNTIL=")[0]):
                            n["p"][n["p"].index(l)] = x
                            want.append(x)
                            break
            if sorted(got) != sorted(want):
                self.fail("content", "%s has %s, should have %s" % (n["n"], sorted(x for x in got if x not in want), sorted(x for x in want if x not in got)))

    def expect(self, top, deep=True):
        bad, can = [], []
        parents = dict((n["id"], p) for n, p in walk(self.root))
        for n, _p in walk(top):
            b, c = self.problems(n, parents[n["id"]])
            bad += b
            can += c
        return sorted(bad), sorted(can)

    def validate(self, top, doFix):
        lib = self.libs()[top["id"]]
        bad, can = self.expect(top)
        before = None if doFix else (world.text_of(self.lib), repr(world.derived(self.lib)) if self.root["n"] == "VCALENDAR" else None)
        fixed, unfixed = lib.validate(doFix=doFix)
        fixed, unfixed = sorted(fixed), sorted(unfixed)
        if doFix:
            # that a to-do has a duration and no start need not be said once the duration is gone
            gone = "[VTODO] Property must be present: DTSTART with DURATION"
            spare = len([1 for n, _p in walk(top) if n["n"] == "VTODO" and lines_of(n, "DUE") and lines_of(n, "DURATION") and not lines_of(n, "DTSTART")])
            for _i in range(spare):
                if unfixed.count(gone) < bad.count(gone):
                    bad.remove(gone)
            if fixed != can or unfixed != bad:
                self.fail("report", "fixing %s reports it fixed %s and not %s, should be %s and %s" % (top["n"], fixed, unfixed, can, bad))
            for n, _p in walk(top):
                self.fix(n)
            self.agree()
            if self.root["n"] == "VCALENDAR":
                again = self.load(world.text_of(self.lib))
                a, b = world.derived(self.lib)[2], world.derived(again)[2]
                if a != b:
                    self.fail("answers", "once fixed, answers %s" % (world._first(a, b),))
            bad, can = self.expect(top)
            if can:
                raise core.HarnessError("fixing leaves %s" % (can,))
            fixed, unfixed = lib.validate(doFix=True)
            if fixed or sorted(unfixed) != bad:
                self.fail("again", "fixing %s again reports it fixed %s and not %s, should be none and %s" % (top["n"], fixed, sorted(unfixed), bad))
            self.ctx.probe("fixed", len(can))
        else:
            if fixed or unfixed != sorted(bad + can):
                self.fail("report", "validating %s reports %s, should be %s" % (top["n"], fixed + unfixed, sorted(bad + can)))
            if (world.text_of(self.lib), repr(world.derived(self.lib)) if self.root["n"] == "VCALENDAR" else None) != before:
                self.fail("changed", "validating without fixing changed it")
        self.ctx.fp(self.did[-2:], top["n"], doFix, bad, can)

    def op_check(self, op):
        self.validate(self.root, False)

    def op_fix(self, op):
        self.validate(self.root, True)

    def find(self, op):
        got = [n for n, _p in walk(self.root) if n["id"] == op["id"]]
        return got[0] if got else None

    def op_part(self, op):
        n = self.find(op)
        if n is not None:
            self.validate(n, op["fix"])

    def op_add(self, op):
        n = self.find(op)
        if n is not None:
            l = self.libs()[n["id"]]
            if op["over"]:
                l.removeProperties(op["name"])
                n["p"] = [x for x in n["p"] if name_of(x) != op["name"]]
            l.addProperty((CardProperty if n["n"] == "VCARD" else Property).parseText(op["line"]))
            n["p"].append(op["line"])
            l.finalise()

    def op_remove(self, op):
        n = self.find(op)
        if n is not None:
            l = self.libs()[n["id"]]
            l.removeProperties(op["name"])
            n["p"] = [x for x in n["p"] if name_of(x) != op["name"]]
            l.finalise()

    def op_dup(self, op):
        self.lib = self.lib.duplicate()

    def op_reread(self, op):
        self.lib = self.load(world.text_of(self.lib))


SCENARIO = P15()
