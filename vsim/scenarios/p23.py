"""
P23: what is written as XML, or as XML or JSON through a filter, is what the calendar holds.
"""
import copy
import json
import re
from java.lang import Exception as JavaException
from java.io import ByteArrayInputStream
from javax.xml.parsers import DocumentBuilderFactory
from jarray import array
from vsim import docs, tzmodel, world
from vsim.lib import LibScenario
from vsim.scenarios.p11 import gen_filter, lib_filter
from vsim.scenarios.p13 import merged
from pycalendar import xmlutils
from pycalendar.icalendar import xmldefinitions
import xml.etree.cElementTree as XML

NS = "urn:ietf:params:xml:ns:icalendar-2.0"


def parse_xml(ctx, data):
    """ [name, text, [children]] by the platform's own XML parser """
    f = DocumentBuilderFactory.newInstance()
    f.setNamespaceAware(True)
    try:
        b = f.newDocumentBuilder()
        b.setErrorHandler(None)
        doc = b.parse(ByteArrayInputStream(array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in data], "b")))
    except (Exception, JavaException) as e:
        ctx.fail("not-xml", "what is written as XML is not XML: %s\n%s" % (e, data))

    def walk(n):
        if n.getNamespaceURI() != NS:
            ctx.fail("namespace", "an element of another namespace: %s" % (n.getTagName(),))
        kids = []
        text = []
        x = n.getFirstChild()
        while x is not None:
            if x.getNodeType() == x.ELEMENT_NODE:
                kids.append(walk(x))
            else:
                text.append(x.getNodeValue())
            x = x.getNextSibling()
        text = "".join(text)
        if kids and text.strip():
            ctx.fail("mixed", "text between elements: %r" % (text,))
        return [n.getLocalName().encode("utf-8"), "" if kids else text.encode("utf-8"), kids]
    return walk(doc.getDocumentElement())


def compact(s):
    s = s.strip()
    return s.replace("-", "").replace(":", "")


def seconds(s):
    m = re.match(r"^([+-]?)P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?$", s)
    n = [int(i or 0) for i in m.groups()[1:]]
    v = n[0] * 604800 + n[1] * 86400 + n[2] * 3600 + n[3] * 60 + n[4]
    return -v if m.group(1) == "-" else v


def one_value(n, tz):
    k, t, kids = n
    tzs = "[%s]" % tz if tz else ""
    if k == "unknown":
        return ("raw", t)
    if k == "text":
        return ("text", t)
    if k in ("date", "date-time"):
        if not re.match(r"^\d{4}-\d\d-\d\d$" if k == "date" else r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ?$", t):
            return ("bad", t)
        return ("dt", compact(t) + (tzs if k == "date-time" and not t.endswith("Z") else ""))
    if k == "duration":
        return ("dur", seconds(t))
    if k == "period":
        if [i[0] for i in kids] not in (["start", "end"], ["start", "duration"]):
            return ("bad", k, [i[0] for i in kids])

        def at(s):
            return compact(s) + ("" if s.endswith("Z") else tzs)
        return ("period", at(kids[0][1]), seconds(kids[1][1]) if kids[1][0] == "duration" else at(kids[1][1]))
    if k == "cal-address":
        return ("cal", t)
    if k == "uri":
        return ("uri", t)
    if k == "binary":
        return ("bin", t)
    if k == "integer":
        return ("int", int(t))
    if k == "utc-offset":
        m = re.match(r"^([+-])(\d\d):(\d\d)(?::(\d\d))?$", t)
        if not m:
            return ("bad", k, t)
        v = int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4) or 0)
        return ("offset", -v if m.group(1) == "-" else v)
    if k == "recur":
        parts = {}
        order = []
        for n, x, sub in kids:
            if n == "until":
                # the text itself, or an element of its type
                x = compact(sub[0][1] if sub else x)
            parts.setdefault(n.upper(), []).append(x)
            order.append(n.upper())
        if order and order[0] != "FREQ":
            return ("bad", k, order)
        return ("recur", docs.canon_rule(";".join(["%s=%s" % (n, ",".join(parts[n])) for n in sorted(parts)])))
    return ("bad", k, t)


def from_xml(ctx, n):
    """ canonical content of a component element """
    name, _t, kids = n
    props = {}
    subs = []
    for k, _t2, items in kids:
        if k == "properties":
            for p in items:
                pn, pt, vals = p
                params = {}
                values = []
                for v in vals:
                    if v[0] == "parameters" and not values:
                        for q in v[2]:
                            params.setdefault(q[0].upper(), []).extend([i[1] for i in q[2]])
                    else:
                        values.append(v)
                tz = params.get("TZID", [None])[0]
                kinds = [v[0] for v in values]
                pn = pn.upper()
                if pn == "GEO" and kinds == ["latitude", "longitude"]:
                    val = [("geo", float(values[0][1]), float(values[1][1]))]
                elif pn == "REQUEST-STATUS" and kinds in (["code", "description"], ["code", "description", "data"]):
                    val = [("reqstat", tuple([v[1] for v in values]))]
                else:
                    val = [one_value(v, tz) for v in values]
                props.setdefault(pn, []).append((("", pn), tuple(sorted([(a, tuple(sorted(b))) for a, b in params.items()])), tuple(val)))
        elif k == "components":
            subs.extend([from_xml(ctx, c) for c in items])
        else:
            ctx.fail("structure", "a component holds an element %r" % (k,))
    return (name.upper(), tuple([(i, tuple(sorted(props[i]))) for i in sorted(props)]), tuple(sorted(subs)))


def flat(m):
    """ the same of a model: every value as the tuple of its values; line ends as XML reads them """
    def text(x):
        if isinstance(x, str):
            return x.replace("\r\n", "\n").replace("\r", "\n")
        return tuple([text(i) for i in x]) if isinstance(x, tuple) else x

    def value(v):
        if v[0] == "list":
            return tuple([text(i) for i in v[1]])
        return (text(v),)
    return (m[0].upper(), tuple([(n.upper(), tuple(sorted([((p[0][0], p[0][1].upper()), text(p[1]), value(p[2])) for p in ps]))) for n, ps in m[1]]),
            tuple(sorted([flat(s) for s in m[2]])))


def filter_json(c, f):
    """ what a filter leaves of a component's JSON """
    props = [p for p in c[1] if f["all"]]
    if not f["all"]:
        chosen = dict([(n.lower(), v) for n, v in f["props"]])
        props = [p[:2] if chosen[p[0]] else p for p in c[1] if p[0] in chosen]
    subs = list(c[2]) if f["allsub"] else []
    if not f["allsub"]:
        by = dict([(s["n"].lower(), s) for s in f["subs"]])
        subs = [filter_json(s, by[s[0]]) for s in c[2] if s[0] in by]
    return [c[0], props, subs]


def filter_xml(c, f):
    out = [c[0], "", []]
    for k, _t, items in c[2]:
        if k == "properties":
            chosen = dict([(n.lower(), v) for n, v in f["props"]])
            out[2].append([k, "", [p if f["all"] or not chosen[p[0]] else [p[0], "", [v for v in p[2] if v[0] == "parameters"]] for p in items if f["all"] or p[0] in chosen]])
        else:
            by = dict([(s["n"].lower(), s) for s in f["subs"]])
            out[2].append([k, "", list(items) if f["allsub"] else [filter_xml(s, by[s[0]]) for s in items if s[0] in by]])
    return out


def tidy(n):
    """ an element with nothing in it, such as <components/>, says nothing; nor does white space about elements """
    k, t, kids = n
    kids = [tidy(i) for i in kids]
    kids = [i for i in kids if i[0] not in ("components", "properties", "parameters") or i[2]]
    return [k, t if t.strip() else "", kids]


class P23(LibScenario):
    prop = "P23"

    def generate(self, rnd, tier):
        zones = [tzmodel.gen_zone(rnd, "Sim/A")] if rnd.chance(40) else []
        tz = "Sim/A" if zones else None
        doc = merged(docs.gen_calendar(rnd, maxcomps=3, zones=zones))
        ops = []
        for _i in range(rnd.between(3, 10)):
            k = rnd.weighted([("edit", 10), ("xml", 6), ("filter", 6), ("text", 2), ("copy", 2)])
            op = {"op": k, "x": rnd.below(1000), "y": rnd.below(1000)}
            if k == "edit":
                op.update(world.gen_edit(rnd, tz))
                op["e"] = True
                merged({"p": [op[i] for i in ("p", "cp") if i in op], "c": [op[i] for i in ("c", "alarm") if i in op]})
                if op["op"] == "param" and op["how"] == "add":
                    op["how"] = "replace"
            elif k == "filter":
                op["f"] = gen_filter(rnd, "VCALENDAR")
                op["fmt"] = rnd.choice(["json", "xml"])
            ops.append(op)
        return {"doc": doc, "ops": ops}

    def simplify(self, case):
        d = case["doc"]
        for j in range(len(d.get("c") or [])):
            c = copy.deepcopy(case)
            del c["doc"]["c"][j]
            yield c
        for m in [None] + list(range(len(d.get("c") or []))):
            ps = d["p"] if m is None else d["c"][m]["p"]
            for j in range(len(ps)):
                if ps[j]["n"] not in world.SINGLE:
                    c = copy.deepcopy(case)
                    del (c["doc"]["p"] if m is None else c["doc"]["c"][m]["p"])[j]
                    yield c

    def xml_of(self, ctx, lib):
        return parse_xml(ctx, lib.getTextXML(includeTimezones=world.NO_TZ))

    def execute(self, case, ctx):
        root = world.pair(world.parse(case["doc"]), copy.deepcopy(case["doc"]), "the object read")
        kinds = []
        for op in case["ops"]:
            k = op["op"]
            if op.get("e"):
                if world.apply_edit(root, op, ctx):
                    kinds.append("edit")
                continue
            kinds.append(k)
            before = (world.text_of(root.lib), world.json_of(root.lib))
            want = flat(docs.meaning(root.doc()))
            if k == "xml" or k == "copy":
                lib = root.lib.duplicate() if k == "copy" else root.lib
                tree = self.xml_of(ctx, lib)
                if tree[0] != "icalendar" or len(tree[2]) != 1:
                    ctx.fail("structure", "the root is %r with %d elements" % (tree[0], len(tree[2])))
                got = from_xml(ctx, tree[2][0])
                if got != want:
                    ctx.fail("content", "after %s the XML says something else: %s" % (kinds, "; ".join(docs.diff(want, got))))
                ctx.ev("xml", len(repr(got)))
            elif k == "filter":
                f = lib_filter(op["f"])
                if op["fmt"] == "json":
                    a, b = [], []
                    root.lib.writeJSON(a, includeTimezones=world.NO_TZ)
                    root.lib.writeJSONFiltered(b, f)
                    a, b = [json.loads(json.dumps(i[0])) for i in (a, b)]
                    x, y = filter_json(a, op["f"]), b

                    # (nothing says what a property without a value is followed by)
                    def cut(c, f):
                        by = dict([(s["n"].lower(), s) for s in f["subs"]])
                        no = [n.lower() for n, v in f["props"] if v] if not f["all"] else []
                        return [c[0], [p[:2] if p[0] in no else p for p in c[1]], [s if f["allsub"] or s[0] not in by else cut(s, by[s[0]]) for s in c[2]]]
                    y = cut(y, op["f"])
                else:
                    node = XML.Element(xmlutils.makeTag(xmldefinitions.iCalendar20_namespace, "icalendar"))
                    root.lib.writeXMLFiltered(node, xmldefinitions.iCalendar20_namespace, f)
                    y = tidy(parse_xml(ctx, xmlutils.toString(node))[2][0])
                    x = tidy(filter_xml(self.xml_of(ctx, root.lib)[2][0], op["f"]))
                if x != y:
                    ctx.fail("filter", "through a filter (%s) the %s is not that part of the whole: %s" % (json.dumps(op["f"]), op["fmt"], self.first(x, y)))
                ctx.ev("filter", op["fmt"], len(repr(x)))
            now = (world.text_of(root.lib), world.json_of(root.lib))
            if now != before:
                ctx.fail("changed", "writing (%s) changed what is written: %s" % (k, world.view_diff(before, now)))
            ctx.fp(tuple(kinds[-4:]), op.get("fmt"), len(want[2]), len(want[1]))

    def first(self, a, b):
        if type(a) != type(b) or not isinstance(a, list):
            return "%r vs %r" % (a, b)
        for x, y in zip(a, b):
            if x != y:
                return self.first(x, y)
        return "%r vs %r" % (a[len(b):], b[len(a):])


SCENARIO = P23()
