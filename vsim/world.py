"""
A world of live library objects, each mirrored by the plain-data document it should hold, and seeded edits applied to
both.  The document is the reference: it is edited as data, never through the library.
"""
import copy
from vsim import core, docs, streams, rrule as R
from vsim import dates as D
from vsim.gen import gen_rule
from vsim.lib import make_dt
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.parameter import Parameter
from pycalendar.period import Period
from pycalendar.plaintextvalue import PlainTextValue
from pycalendar.datetimevalue import DateTimeValue
from pycalendar.textvalue import TextValue
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty

NO_TZ = Calendar.NO_TIMEZONES


class Node(object):
    """ a component of the library and the document it should say """

    def __init__(self, n, lib, props, kids):
        self.n = n
        self.lib = lib
        self.props = props      # [[document property, library property]]
        self.kids = kids

    def doc(self):
        return {"n": self.n, "p": [p[0] for p in self.props], "c": [k.doc() for k in self.kids]}

    def nodes(self):
        out = [self]
        for k in self.kids:
            out.extend(k.nodes())
        return out


def pair(lib, doc, what):
    """ find the library's object for everything in the document; a mismatch is a violation """
    want, got = docs.meaning(doc), docs.observe(lib)
    if want != got:
        raise core.Violation("content", "%s does not hold what it should: %s" % (what, "; ".join(docs.diff(want, got))))
    return _pair(lib, doc)


def _pair(lib, doc):
    props = []
    left = dict([(n, list(ps)) for n, ps in lib.getProperties().items()])
    for p in doc["p"]:
        m = docs.meaning_prop(p)
        for cand in left[p["n"].upper()]:
            if docs.observe_prop(cand) == m:
                left[p["n"].upper()] = [x for x in left[p["n"].upper()] if x is not cand]
                props.append([p, cand])
                break
    kids = []
    rest = list(lib.getComponents())
    for c in doc.get("c") or []:
        m = docs.meaning(c)
        for cand in rest:
            if cand.getType() == c["n"] and docs.observe(cand) == m:
                rest = [x for x in rest if x is not cand]
                kids.append(_pair(cand, c))
                break
    return Node(doc["n"], lib, props, kids)


def is_card(doc):
    return doc["n"] == "VCARD"


def parse(doc):
    text = docs.plain_text(doc)
    return Card.parseText(text) if is_card(doc) else Calendar.parseText(text)


def parse_component(comp):
    """ one component as the library reads it, without a parent """
    cal = Calendar.parseText(docs.plain_text({"n": "VCALENDAR", "p": [docs.P("VERSION", "text", "2.0"), docs.P("PRODID", "text", "x")], "c": [comp]}))
    return cal.getComponents()[0]


def text_of(lib):
    return lib.getText(includeTimezones=NO_TZ) if isinstance(lib, Calendar) else lib.getText()


def json_of(lib):
    return lib.getText(includeTimezones=NO_TZ, format=Calendar.sFormatJSON) if isinstance(lib, Calendar) else lib.getText(format=Card.sFormatJSON)


def native(p):
    """ the document value as what Property's constructor takes, or None """
    k, v = p["k"], p["v"]
    if k in ("text", "cal", "uri", "raw"):
        return v
    if k == "int":
        return v
    if k == "dt":
        return make_dt(v["k"], v["s"], v.get("tz"))
    if k == "dtlist":
        return [make_dt(i["k"], i["s"], i.get("tz")) for i in v]
    if k == "periodlist":
        out = []
        for st, du, use in v:
            s = make_dt(st["k"], st["s"], st.get("tz"))
            if use:
                out.append(Period(s, duration=Duration(duration=du)))
            else:
                out.append(Period(s, make_dt(st["k"], st["s"] + du, st.get("tz"))))
        return out
    if k == "dur":
        return Duration(duration=v)
    if k == "recur":
        r = Recurrence()
        r.parse(R.text(v["rule"], v.get("until")))
        return r
    if k == "offset":
        return UTCOffsetValue(v)
    return None


def lib_prop(p, how, card=False):
    """ a library property saying p, built from text or from values """
    cls = CardProperty if card else Property
    if how == "native" and p["n"] not in ("TRIGGER",):
        v = native(p)
        if v is not None and not (p["k"] == "raw" and p["n"] not in ("X-SIM-0", "X-SIM-1", "X-SIM-2", "X-A")) and not (card and p["k"] != "text"):
            params = [a for a in p.get("a") or []]
            if not [a for a in params if a[0] == "VALUE"]:
                lib = cls(p.get("g"), p["n"], v) if card else cls(p["n"], v)
                for n, vs in params:
                    lib.addParameter(Parameter(n, vs[0] if len(vs) == 1 else list(vs)))
                return lib
    return cls.parseText(docs.prop_line(p))


# -- edits.  Every edit is a document itself; targets are taken modulo what there is.

CAL_NEW = ["SUMMARY", "COMMENT", "CATEGORIES", "ATTENDEE", "X-SIM-1", "LAST-MODIFIED", "SEQUENCE", "REQUEST-STATUS", "CONTACT", "RDATE", "EXDATE"]
WORDS = ("CALSCALE", "METHOD", "STATUS", "TRANSP", "CLASS", "KIND", "VERSION", "BUSYTYPE")
SINGLE = ("UID", "DTSTART", "VERSION", "PRODID", "RECURRENCE-ID", "TZID", "TZOFFSETFROM", "TZOFFSETTO", "ACTION", "TRIGGER", "N", "FN", "RRULE", "DTSTAMP")


def gen_prop(rnd, tz, card=False):
    if card:
        k = rnd.below(5)
        if k == 0:
            return docs.P("NOTE", "text", docs.gen_text(rnd))
        if k == 1:
            return docs.P("TEL", "text", "+1-555-%04d" % rnd.below(10000), [["TYPE", rnd.sample(["HOME", "WORK", "CELL"], rnd.between(1, 2))]],
                          g="item%d" % rnd.below(3) if rnd.chance(30) else None)
        if k == 2:
            return docs.P("CATEGORIES", "textlist", [docs.gen_text(rnd) for _i in range(rnd.between(1, 3))])
        if k == 3:
            return docs.P("X-ABSHOWAS", "raw", rnd.choice(["COMPANY", "a,b"]))
        return docs.P("ORG", "org", [docs.gen_text(rnd) for _i in range(rnd.between(1, 3))])
    k = rnd.choice(CAL_NEW)
    if k in ("SUMMARY", "COMMENT", "CONTACT"):
        return docs.P(k, "text", docs.gen_text(rnd), [["LANGUAGE", ["en"]]] if rnd.chance(30) else [])
    if k == "CATEGORIES":
        return docs.P(k, "textlist", [docs.gen_text(rnd) for _i in range(rnd.between(1, 3))])
    if k == "ATTENDEE":
        return docs.attendee(rnd, k)
    if k == "X-SIM-1":
        return docs.P(k, "raw", rnd.choice(["plain", "a,b;c", "esc\\,aped\\n"]), [["X-Q", [docs.gen_param_value(rnd)]]] if rnd.chance(50) else [])
    if k == "LAST-MODIFIED":
        return docs.P(k, "dt", docs.stamp(rnd))
    if k == "SEQUENCE":
        return docs.P(k, "int", rnd.between(0, 50))
    if k == "REQUEST-STATUS":
        return docs.P(k, "reqstat", ["2.0", docs.gen_text(rnd) or "x"])
    st = docs.gen_dt(rnd, ["date", "utc", "floating"] + (["local"] if tz else []), tz)
    if k == "RDATE" and st["k"] != "date" and rnd.chance(30):
        return docs.P(k, "periodlist", [[st, 3600 * rnd.between(1, 3), rnd.chance(50)]])
    return docs.P(k, "dtlist", [dict(st, s=st["s"] + 86400 * i) for i in range(rnd.between(1, 3))])


def gen_edit(rnd, tz, kinds=None):
    k = rnd.weighted(kinds or [("add", 6), ("remove", 3), ("removeall", 2), ("param", 4), ("set", 5), ("inplace", 5), ("double", 2), ("addcomp", 3), ("delcomp", 2)])
    e = {"op": k, "at": rnd.below(1000), "x": rnd.below(1000)}
    if k == "add":
        e["how"] = rnd.choice(["text", "native"])
        e["p"] = gen_prop(rnd, tz)
        e["cp"] = gen_prop(rnd, tz, True)
    elif k == "param":
        e["how"] = rnd.choice(["add", "replace", "remove", "addvalue", "setvalues"])
        e["a"] = [rnd.choice(["X-R", "LANGUAGE", "CN"]), [docs.gen_param_value(rnd) for _i in range(rnd.between(1, 2))]]
    elif k == "set":
        e["text"] = docs.gen_text(rnd)
        e["int"] = rnd.between(0, 99)
        e["dt"] = docs.gen_dt(rnd, ["utc"])
    elif k == "inplace":
        e["d"] = rnd.choice([1, 7, 30, -1])
        e["text"] = docs.gen_text(rnd)
    elif k == "addcomp":
        e["c"] = docs.gen_component(rnd, rnd.choice(["VEVENT", "VTODO", "VJOURNAL"]), tz)
        e["alarm"] = docs.gen_alarm(rnd)
        e["into"] = rnd.chance(50)
    return e


def apply_edit(root, e, ctx):
    """
    Edit the library's object and the document; True if anything was done.  What the library must not do is visible in
    what others see, so nothing is judged here.
    """
    card = root.n == "VCARD"
    nodes = root.nodes()
    node = nodes[e["at"] % len(nodes)]
    k = e["op"]
    if k == "add":
        p = e["cp"] if card else e["p"]
        if not card and node.n in ("VTIMEZONE", "STANDARD", "DAYLIGHT") and p["n"] in ("RDATE", "EXDATE"):
            return False
        lib = lib_prop(p, e["how"], card)
        node.lib.addProperty(lib)
        node.props.append([p, lib])
        return True
    if k == "double":
        can = [p for p in node.props if p[0]["n"] not in SINGLE and p[0]["n"] not in WORDS]
        if not can or node.n in ("VTIMEZONE", "STANDARD", "DAYLIGHT"):
            return False
        p = can[e["x"] % len(can)]
        lib = p[1].duplicate()
        node.lib.addProperty(lib)
        node.props.append([copy.deepcopy(p[0]), lib])
        return True
    if k == "remove" or k == "removeall":
        can = [i for i, p in enumerate(node.props) if p[0]["n"] not in SINGLE]
        if not can:
            return False
        i = can[e["x"] % len(can)]
        n = node.props[i][0]["n"]
        if k == "remove":
            node.lib.removeProperty(node.props[i][1])
            # it may have removed another one that says the same
            gone = node.props.pop(i)
            still = node.lib.getProperties(n) if node.lib.hasProperty(n) else []
            if [x for x in still if x is gone[1]]:
                for q in node.props:
                    if q[0]["n"] == n and not [x for x in still if x is q[1]]:
                        q[1] = gone[1]
                        break
        else:
            node.lib.removeProperties(n)
            node.props = [p for p in node.props if p[0]["n"] != n]
        return True
    if k == "param":
        can = [p for p in node.props if p[0]["n"] in ("SUMMARY", "COMMENT", "DESCRIPTION", "ATTENDEE", "ORGANIZER", "LOCATION", "X-SIM-1", "TEL", "NOTE", "EMAIL")]
        if not can:
            return False
        p = can[e["x"] % len(can)]
        doc = p[0] = copy.deepcopy(p[0])
        n, vs = e["a"]
        if e["how"] == "remove":
            p[1].removeParameters(n)
            doc["a"] = [a for a in doc["a"] if a[0].upper() != n]
        elif e["how"] == "replace":
            p[1].replaceParameter(Parameter(n, list(vs)))
            doc["a"] = [a for a in doc["a"] if a[0].upper() != n] + [[n, vs]]
        elif e["how"] == "setvalues":
            have = [a for a in doc["a"] if a[0].upper() == n]
            if not have:
                return False
            p[1].getParameters()[n][0].getValues()[:] = list(vs)
            have[0][1] = list(vs)
        elif e["how"] == "addvalue":
            have = [a for a in doc["a"] if a[0].upper() == n]
            if not have:
                return False
            p[1].getParameters()[n][0].addValue(vs[0])
            have[0][1] = have[0][1] + [vs[0]]
        else:
            p[1].addParameter(Parameter(n, list(vs)))
            doc["a"] = doc["a"] + [[n, vs]]
        return True
    if k == "set":
        can = [p for p in node.props if p[0]["k"] in ("text", "int", "raw", "textlist", "dt") and p[0]["n"] not in SINGLE and not p[0]["n"].startswith("X-") and
               not (p[0]["k"] == "dt" and p[0]["v"]["k"] != "utc") and p[0]["n"] not in WORDS]
        if not can:
            return False
        p = can[e["x"] % len(can)]
        doc = p[0] = copy.deepcopy(p[0])
        if doc["k"] == "int":
            p[1].getValue().setValue(e["int"])
            doc["v"] = e["int"]
        elif doc["k"] == "textlist":
            p[1].getValue().setValue([e["text"], "z"])
            doc["v"] = [e["text"], "z"]
        elif doc["k"] == "dt":
            p[1].getValue().setValue(make_dt("utc", e["dt"]["s"]))
            doc["v"] = dict(e["dt"])
        else:
            p[1].getValue().setValue(e["text"])
            doc["v"] = e["text"]
        return True
    if k == "inplace":
        can = [p for p in node.props if p[0]["k"] in ("dt", "dtlist", "periodlist", "recur", "textlist", "dur", "reqstat", "geo", "org", "n", "adr") and p[0]["n"] not in ("TZID",)]
        if not can:
            return False
        kinds = sorted(set([p[0]["k"] for p in can]))
        kinds += [i for i in kinds if i == "recur"] * 2
        kind = kinds[e["x"] // 7 % len(kinds)]
        can = [p for p in can if p[0]["k"] == kind]
        p = can[e["x"] % len(can)]
        doc = p[0] = copy.deepcopy(p[0])
        d = e["d"]
        val = p[1].getValue()
        if doc["k"] == "dt":
            val.getValue().offsetDay(d)
            doc["v"]["s"] += 86400 * d
        elif doc["k"] == "dtlist":
            val.getValues()[-1].getValue().offsetDay(d)
            doc["v"][-1]["s"] += 86400 * d
        elif doc["k"] == "periodlist":
            per = val.getValues()[0].getValue()
            if not doc["v"][0][2]:
                return False
            per.getStart().offsetDay(d)
            doc["v"][0][0]["s"] += 86400 * d
        elif doc["k"] == "recur":
            rule = doc["v"]["rule"]
            rec = val.getValue()
            lists = [(n, g) for n, g in (("bymonth", rec.getByMonth), ("bymonthday", rec.getByMonthDay), ("byyearday", rec.getByYearDay), ("bysetpos", rec.getBySetPos)) if rule.get(n)]
            if lists and e["x"] % 2:
                n, g = lists[e["x"] // 2 % len(lists)]
                g().append(12)
                rule[n] = list(rule[n]) + [12]
            elif rec.getUseUntil() and e["x"] // 2 % 2:
                rec.getUntil().offsetDay(d)
                doc["v"]["until"] = rec.getUntil().getText()
            else:
                rec.setInterval(abs(d) + 1)
                rule["interval"] = abs(d) + 1
        elif doc["k"] == "reqstat":
            val.getValue()[1] = e["text"] or "z"
            doc["v"][1] = e["text"] or "z"
        elif doc["k"] == "geo":
            val.getValue()[0] = 1.5
            doc["v"][0] = "1.5"
        elif doc["k"] == "org":
            val.setValue((e["text"], "z"))
            doc["v"] = [e["text"], "z"]
        elif doc["k"] in ("n", "adr"):
            now = list(val.getValue().getValue())
            i = e["x"] % 5
            now[i] = e["text"]
            val.getValue().setValue(tuple(now))
            doc["v"] = [list(z) for z in doc["v"]]
            doc["v"][i] = [e["text"]]
        elif doc["k"] == "dur":
            val.getValue().setDuration(doc["v"] + 3600 * d)
            doc["v"] += 3600 * d
        elif e["x"] % 2:
            val.getValues()[0].setValue(e["text"])
            doc["v"][0] = e["text"]
        else:
            val.addValue(TextValue(e["text"]))
            doc["v"].append(e["text"])
        return True
    if k == "addcomp":
        if card:
            return False
        if e["into"]:
            can = [x for x in nodes if x.n in ("VEVENT", "VTODO")]
            if not can:
                return False
            node = can[e["x"] % len(can)]
            wrap = {"n": "VEVENT", "p": [docs.P("UID", "text", "w")], "c": [e["alarm"]]}
            lib = parse_component(wrap).getComponents()[0].duplicate(parent=node.lib)
            doc = e["alarm"]
        else:
            if root.n != "VCALENDAR":
                return False
            node = root
            lib = parse_component(e["c"]).duplicate(parent=root.lib)
            doc = e["c"]
        node.lib.addComponent(lib)
        node.kids.append(pair(lib, doc, "the component added"))
        return True
    if k == "delcomp":
        can = [(x, i) for x in nodes for i in range(len(x.kids)) if x.kids[i].n not in ("STANDARD", "DAYLIGHT")]
        if not can:
            return False
        node, i = can[e["x"] % len(can)]
        node.lib.removeComponent(node.kids[i].lib)
        gone = node.kids.pop(i)
        still = node.lib.getComponents()
        if [x for x in still if x is gone.lib]:
            # an equal one went: the rest is what it should be
            for q in node.kids:
                if not [x for x in still if x is q.lib]:
                    gone2 = q
                    node.kids = [z for z in node.kids if z is not q] + [_pair(gone.lib, q.doc())]
                    break
        return True
    raise core.HarnessError("edit %s" % k)


# -- views: everything a user can see of an object

def _dt(x):
    return None if x is None else "%s%s" % (x.getText(), "[%s]" % x.getTimezoneID() if x.getTimezoneID() else "")


def derived(lib, key=True):
    """ what the library answers about an object, other than its content """
    out = []
    t = lib.getType()
    if t in ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE"):
        out.append((t, lib.getUID(), lib.getSeq(), lib.getSummary(), lib.hasStart(), _dt(lib.getStart()) if lib.hasStart() else None,
                    _dt(lib.getEnd()) if lib.hasStart() else None, lib.hasEnd(), lib.useDuration(), _dt(lib.getRecurrenceID()) if lib.isRecurrenceInstance() else None,
                    lib.isRecurring(), lib.hasStamp(), _dt(lib.getStamp()) if lib.hasStamp() else None, lib.getDescription(), lib.getLocation()))
        if t in ("VEVENT", "VTODO"):
            out.append(("status", lib.getStatus()))
        if t == "VTODO":
            out.append((lib.getPriority(), _dt(lib.getCompleted()) if lib.hasCompleted() else None))
        if lib.hasStart() and t == "VEVENT":
            st = lib.getStart().duplicate()
            en = st.duplicate()
            en.offsetDay(60)
            res = []
            lib.expandPeriod(Period(st, en), res)
            out.append(tuple([(_dt(r.getInstanceStart()), _dt(r.getInstanceEnd())) for r in res]))
    elif t == "VFREEBUSY":
        res = []
        lib.expandPeriodComp(Period(make_dt("utc", 0), make_dt("utc", D.secs((2100, 1, 1, 0, 0, 0)))), res)
        bt = lib.getBusyTime()
        out.append((lib.hasStart(), _dt(lib.getStart()) if lib.hasStart() else None, len(res), tuple([(b.getType(), b.getPeriod().getText()) for b in bt]) if bt else None))
    elif t == "VTIMEZONE":
        out.append((lib.getID(), tuple([lib.getTimezoneOffsetSeconds(make_dt("floating", D.secs((y, m, 15, 12, 0, 0)))) for y in (2001, 2012) for m in (1, 7)])))
    elif t == "VALARM":
        out.append((lib.getAction(), lib.isTriggerOnStart() if not lib.isTriggerAbsolute() else None, _dt(lib.getTriggerOn()) if lib.isTriggerAbsolute() else lib.getTriggerDuration().getTotalSeconds(),
                    lib.getRepeats(), lib.getInterval().getTotalSeconds(), lib.getActionData().getType()))
    elif t == "VCALENDAR":
        out.append((lib.getName(), lib.getDescription(), lib.getMethod()))
        uids = sorted(set([c.getUID() for c in lib.getComponents() if hasattr(c, "getRecurrenceID") and c.getUID()]))
        for u in uids:
            ids = []
            lib.getRecurrenceInstancesIds("VEVENT", u, ids)
            out.append((u, tuple(sorted([_dt(i) for i in ids]))))
        m = lib.masterComponent()
        out.append(m.getUID() if m is not None else None)
    return (t, tuple(out), tuple(sorted([derived(c) for c in lib.getComponents()])))


def content_json(lib):
    if hasattr(lib, "getTextJSON") or isinstance(lib, Card):
        return json_of(lib)
    j = []
    lib.writeJSON(j)
    return repr(j)


def view(lib, der=True):
    return (text_of(lib), content_json(lib), derived(lib) if der and not isinstance(lib, Card) else None)


def view_diff(a, b):
    for name, x, y in zip(("text", "JSON", "answers"), a, b):
        if x != y:
            if name == "answers":
                return "%s: %r is now %r" % ((name,) + _first(x, y))
            xs, ys = x.split("\n"), y.split("\n")
            for i in range(max(len(xs), len(ys))):
                p, q = xs[i:i + 1], ys[i:i + 1]
                if p != q:
                    return "%s: %r is now %r" % (name, p, q)
    return "nothing"


def _first(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        for p, q in zip(x, y):
            if p != q:
                return _first(p, q)
    return x, y


def finalise(lib):
    for c in lib.getComponents():
        finalise(c)
    lib.finalise()
