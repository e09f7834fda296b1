"""
Generated iCalendar and vCard documents, as plain data: what a document says, how it is written down, and what a
reader of the library sees in the object it got (read through public accessors only).

comp = {"n": NAME, "p": [prop], "c": [comp]}
prop = {"n": NAME, "g": group or None, "a": [[name, [values]]], "k": kind, "v": value}
"""
from vsim import dates as D
from vsim import rrule as R
from vsim import tzmodel
from vsim.gen import gen_day, gen_tod, gen_rule, horizon
from pycalendar.value import Value

WORDS = ["Review", "caf\xc3\xa9", "R\xc3\xa9union d'\xc3\xa9quipe", "\xe4\xbc\x9a\xe8\xad\xb0", "\xf0\x9f\x98\x80", "a,b", "x;y", "back\\slash",
         "two\nlines", "\"quoted\"", "colon: here", "", " lead", "trail ", "100%", "^caret", "long " * 20, "\xe2\x82\xac" * 30, "\\n", "ends\\", ";", ",", "\n"]
IDCHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def gen_text(rnd):
    k = rnd.below(8)
    if k < 4:
        return rnd.choice(WORDS)
    if k < 7:
        return " ".join([rnd.choice(WORDS) for _i in range(rnd.between(1, 4))])
    return "".join([rnd.choice(["x", "y", " ", ",", ";", "\\", "\n", ":", "\"", "\xc3\xa9", "\xe4\xbc\x9a", "N", "n"]) for _i in range(rnd.between(1, 90))])


def gen_uid(rnd):
    return "".join([rnd.choice(IDCHARS) for _i in range(8)]) + rnd.choice(["", "@example.com", "-x"])


def gen_param_value(rnd):
    return rnd.choice(["Joe", "Smith, Joe", "a;b", "x:y", "caf\xc3\xa9", "say \"hi\"", "car^et", "two\nlines", "\xe4\xbc\x9a\xe8\xad\xb0", "x" * 60])


def esc(s):
    out = []
    for c in s:
        if c == "\n":
            out.append("\\n")
        elif c in ",;\\":
            out.append("\\" + c)
        else:
            out.append(c)
    return "".join(out)


def param_text(v):
    v = v.replace("^", "^^").replace("\n", "^n").replace("\"", "^'")
    if ":" in v or ";" in v or "," in v:
        return "\"%s\"" % v
    return v


def dt_text(v):
    return D.fmtsec(v["s"], v["k"] == "utc", v["k"] == "date")


def dur_text(s):
    sign = "-" if s < 0 else ""
    s = abs(s)
    if s and s % 604800 == 0:
        return "%sP%dW" % (sign, s // 604800)
    d, s = divmod(s, 86400)
    h, s = divmod(s, 3600)
    m, s = divmod(s, 60)
    t = ""
    if h:
        t += "%dH" % h
    if m or h and s:
        t += "%dM" % m
    if s or not (d or h or m):
        t += "%dS" % s
    return "%sP%s%s" % (sign, "%dD" % d if d else "", "T" + t if t else "")


def value_text(p):
    k, v = p["k"], p["v"]
    if k == "text":
        return esc(v)
    if k == "textlist":
        return ",".join([esc(i) for i in v])
    if k in ("raw", "uri", "cal", "bin"):
        return v
    if k == "dt":
        return dt_text(v)
    if k == "dtlist":
        return ",".join([dt_text(i) for i in v])
    if k == "periodlist":
        return ",".join(["%s/%s" % (dt_text(i[0]), dur_text(i[1]) if i[2] else dt_text(dict(i[0], s=i[0]["s"] + i[1]))) for i in v])
    if k == "dur":
        return dur_text(v)
    if k == "int":
        return str(v)
    if k == "recur":
        return R.text(v["rule"], v.get("until"))
    if k == "offset":
        return tzmodel.off_text(v)
    if k == "geo":
        return "%s;%s" % (v[0], v[1])
    if k in ("reqstat", "org"):
        return ";".join([esc(i) for i in v])
    if k in ("n", "adr"):
        return ";".join([",".join([esc(j) for j in i]) for i in v])
    raise ValueError(k)


def prop_params(p):
    """ parameters as written, TZID and VALUE included """
    out = [[n, list(vs)] for n, vs in p.get("a") or []]
    v = p["v"]
    first = None
    if p["k"] == "dt":
        first = v
    elif p["k"] == "dtlist":
        first = v[0]
    elif p["k"] == "periodlist":
        first = v[0][0]
        if p["n"] == "RDATE":
            out.append(["VALUE", ["PERIOD"]])
    if first is not None and p["k"] != "periodlist":
        if first["k"] == "date" and p["n"] not in ("BDAY",):
            out.append(["VALUE", ["DATE"]])
        if p["n"] == "TRIGGER":
            out.append(["VALUE", ["DATE-TIME"]])
    if first is not None and first["k"] == "local":
        out.append(["TZID", [first["tz"]]])
    return out


def prop_line(p):
    name = (p["g"] + "." if p.get("g") else "") + p["n"]
    ps = "".join([";%s%s" % (n, "=" + ",".join([param_text(v) for v in vs]) if vs else "") for n, vs in prop_params(p)])
    return "%s%s:%s" % (name, ps, value_text(p))


def comp_lines(c):
    out = ["BEGIN:" + c["n"]]
    for p in c["p"]:
        out.append(prop_line(p))
    for s in c.get("c") or []:
        out.extend(comp_lines(s))
    out.append("END:" + c["n"])
    return out


def plain_text(c):
    return "\r\n".join(comp_lines(c)) + "\r\n"


# -- what the document means, and what the library says it means

def _dtv(v):
    return "%s%s" % (dt_text(v), "[%s]" % v["tz"] if v["k"] == "local" else "")


def meaning_prop(p):
    k, v = p["k"], p["v"]
    if k == "dt":
        m = ("dt", _dtv(v))
    elif k == "dtlist":
        m = ("list", tuple([("dt", _dtv(i)) for i in v]))
    elif k == "periodlist":
        m = ("list", tuple([("period", _dtv(i[0]), i[1] if i[2] else _dtv(dict(i[0], s=i[0]["s"] + i[1]))) for i in v]))
    elif k == "textlist":
        m = ("list", tuple([("text", i) for i in v]))
    elif k == "dur":
        m = ("dur", v)
    elif k == "offset":
        m = ("offset", v)
    elif k == "recur":
        m = ("recur", canon_rule(value_text(p)))
    elif k == "geo":
        m = ("geo", float(v[0]), float(v[1]))
    elif k == "reqstat":
        m = ("reqstat", tuple(v))
    elif k == "org":
        m = ("org", tuple(v))
    elif k in ("n", "adr"):
        m = (k, tuple([tuple(i) for i in v]))
    elif k == "bin":
        m = ("bin", v.replace(" ", ""))
    else:
        m = (k, v)
    params = {}
    for n, vs in prop_params(p):
        if n.upper() not in ("VALUE",):
            params.setdefault(n.upper(), []).extend(vs)
    return ((p.get("g") or "", p["n"]), tuple(sorted([(n, tuple(sorted(vs))) for n, vs in params.items()])), m)


def meaning(c):
    """ canonical content: property order between names, and component order, do not matter """
    props = {}
    for p in c["p"]:
        props.setdefault(p["n"], []).append(meaning_prop(p))
    return (c["n"], tuple([(n, tuple(sorted(props[n]))) for n in sorted(props)]), tuple(sorted([meaning(s) for s in c.get("c") or []])))


def canon_rule(text):
    parts = {}
    for kv in text.split(";"):
        k, v = kv.split("=", 1)
        parts[k] = ",".join(sorted(v.split(","))) if k.startswith("BY") else v
    if parts.get("INTERVAL") == "1":
        del parts["INTERVAL"]
    if parts.get("WKST") == "MO":
        del parts["WKST"]
    return tuple(sorted(parts.items()))


def _tuple_of(x):
    if isinstance(x, (list, tuple)):
        return tuple([_tuple_of(i) for i in x])
    return x


def _norm_nested(v, n):
    out = []
    for i in v:
        out.append(tuple(i) if isinstance(i, (list, tuple)) else (i,))
    return tuple(out)


def observe_value(v):
    if v is None:
        return ("none",)
    if v.getRealType() == Value.VALUETYPE_MULTIVALUE:
        return ("list", tuple([observe_value(i) for i in v.getValues()]))
    t = v.getType()
    x = v.getValue()
    if t in (Value.VALUETYPE_DATETIME, Value.VALUETYPE_DATE):
        return ("dt", "%s%s" % (x.getText(), "[%s]" % x.getTimezoneID() if x.getTimezoneID() else ""))
    if t == Value.VALUETYPE_PERIOD:
        def text(s):
            return "%s%s" % (s.getText(), "[%s]" % s.getTimezoneID() if s.getTimezoneID() else "")
        return ("period", text(x.getStart()), x.getDuration().getTotalSeconds() if x.getUseDuration() else text(x.getEnd()))
    if t == Value.VALUETYPE_TEXT:
        return ("text", x)
    if t == Value.VALUETYPE_DURATION:
        return ("dur", x.getTotalSeconds())
    if t == Value.VALUETYPE_INTEGER:
        return ("int", x)
    if t == Value.VALUETYPE_UTC_OFFSET:
        return ("offset", x)
    if t == Value.VALUETYPE_RECUR:
        return ("recur", canon_rule(x.getText()))
    if t == Value.VALUETYPE_GEO:
        return ("geo", float(x[0]), float(x[1]))
    if t == Value.VALUETYPE_REQUEST_STATUS:
        return ("reqstat", tuple([i for i in x if i is not None]))
    if t == Value.VALUETYPE_ORG:
        return ("org", tuple(x) if isinstance(x, (list, tuple)) else (x,))
    if t == Value.VALUETYPE_N:
        return ("n", _norm_nested(x.getValue(), 5))
    if t == Value.VALUETYPE_ADR:
        return ("adr", _norm_nested(x.getValue(), 7))
    if t == Value.VALUETYPE_CALADDRESS:
        return ("cal", x)
    if t == Value.VALUETYPE_URI:
        return ("uri", x)
    if t == Value.VALUETYPE_BINARY:
        return ("bin", x)
    return ("raw", x)


def observe_prop(p):
    params = {}
    for n, attrs in p.getParameters().items():
        if n.upper() == "VALUE":
            continue
        for a in attrs:
            params.setdefault(n.upper(), []).extend([i for i in a.getValues() if i is not None])
    return ((p.getGroup() or "", p.getName()), tuple(sorted([(n, tuple(sorted(vs))) for n, vs in params.items()])), observe_value(p.getValue()))


def observe(c):
    props = {}
    for n, ps in c.getProperties().items():
        if ps:
            props.setdefault(n, []).extend([observe_prop(p) for p in ps])
    return (c.getType(), tuple([(n, tuple(sorted(props[n]))) for n in sorted(props)]), tuple(sorted([observe(s) for s in c.getComponents()])))


def diff(a, b, path=""):
    """ short description of the first differences between two canonical contents """
    if a == b:
        return []
    out = []
    path = path + "/" + a[0]
    if a[0] != b[0]:
        return ["%s: %s vs %s" % (path, a[0], b[0])]
    pa, pb = dict(a[1]), dict(b[1])
    for n in sorted(set(pa) | set(pb)):
        if pa.get(n) != pb.get(n):
            out.append("%s %s: %r vs %r" % (path, n, pa.get(n), pb.get(n)))
    if a[2] != b[2]:
        if len(a[2]) != len(b[2]):
            out.append("%s sub-components %s vs %s" % (path, [x[0] for x in a[2]], [x[0] for x in b[2]]))
        else:
            for x, y in zip(a[2], b[2]):
                out.extend(diff(x, y, path))
    return out[:6]


# -- generators

def P(n, k, v, a=None, g=None):
    return {"n": n, "k": k, "v": v, "a": a or [], "g": g}


def gen_dt(rnd, kinds, tz=None):
    k = rnd.choice(kinds)
    s = D.secs(gen_day(rnd, 1998, 2030) + ((0, 0, 0) if k == "date" else gen_tod(rnd)))
    v = {"k": k, "s": s}
    if k == "local":
        v["tz"] = tz
    return v


def stamp(rnd):
    return gen_dt(rnd, ["utc"])


def maybe(rnd, pct, props, p):
    if rnd.chance(pct):
        props.append(p())


def attendee(rnd, name):
    a = []
    if rnd.chance(60):
        a.append(["CN", [gen_param_value(rnd)]])
    if rnd.chance(40):
        a.append(["PARTSTAT", [rnd.choice(["ACCEPTED", "NEEDS-ACTION", "DECLINED"])]])
    if rnd.chance(20):
        a.append(["MEMBER", ["mailto:g%d@example.com" % i for i in range(rnd.between(1, 3))]])
    if rnd.chance(20):
        a.append(["X-P", [gen_param_value(rnd) for _i in range(rnd.between(1, 2))]])
    return P(name, "cal", rnd.choice(["mailto:", "urn:uuid:", "http://example.com/p/"]) + gen_uid(rnd).lower(), a)


def common(rnd, props, tz):
    maybe(rnd, 70, props, lambda: P("SUMMARY", "text", gen_text(rnd), [["LANGUAGE", ["en"]]] if rnd.chance(20) else []))
    maybe(rnd, 40, props, lambda: P("DESCRIPTION", "text", gen_text(rnd)))
    maybe(rnd, 20, props, lambda: P("COMMENT", "text", gen_text(rnd)))
    maybe(rnd, 15, props, lambda: P("COMMENT", "text", gen_text(rnd)))
    maybe(rnd, 30, props, lambda: P("CATEGORIES", "textlist", [gen_text(rnd) for _i in range(rnd.between(1, 3))]))
    maybe(rnd, 15, props, lambda: P("CLASS", "text", rnd.choice(["PUBLIC", "PRIVATE"])))
    maybe(rnd, 20, props, lambda: P("SEQUENCE", "int", rnd.between(0, 99)))
    maybe(rnd, 20, props, lambda: P("CREATED", "dt", stamp(rnd)))
    maybe(rnd, 20, props, lambda: P("LAST-MODIFIED", "dt", stamp(rnd)))
    maybe(rnd, 25, props, lambda: attendee(rnd, "ORGANIZER"))
    for _i in range(rnd.below(3)):
        props.append(attendee(rnd, "ATTENDEE"))
    maybe(rnd, 15, props, lambda: P("URL", "uri", "http://example.com/?q=%s;x=1,2" % gen_uid(rnd)))
    maybe(rnd, 15, props, lambda: P("ATTACH", "uri", "http://example.com/%s" % gen_uid(rnd), [["FMTTYPE", ["text/plain"]]]))
    maybe(rnd, 10, props, lambda: P("ATTACH", "bin", "QUJD" * rnd.between(1, 60), [["ENCODING", ["BASE64"]], ["VALUE", ["BINARY"]]]))
    maybe(rnd, 15, props, lambda: P("REQUEST-STATUS", "reqstat", ["2.%d" % rnd.below(9), gen_text(rnd) or "x"] + ([gen_text(rnd) or "y"] if rnd.chance(40) else [])))
    maybe(rnd, 20, props, lambda: P("X-SIM-%d" % rnd.below(3), "raw", rnd.choice(["plain", "a,b;c", "esc\\,aped\\n", "caf\xc3\xa9", "x" * 120])))
    maybe(rnd, 10, props, lambda: P("X-DATE", "dt", gen_dt(rnd, ["local"] if tz else ["utc"], tz), [["VALUE", ["DATE-TIME"]]]))
    maybe(rnd, 10, props, lambda: P("X-NUM", "int", rnd.between(-5, 5), [["VALUE", ["INTEGER"]]]))


def gen_alarm(rnd):
    props = [P("ACTION", "text", rnd.choice(["DISPLAY", "AUDIO", "EMAIL"]))]
    if rnd.chance(75):
        props.append(P("TRIGGER", "dur", rnd.choice([-900, -3600, 0, 600, -86400, -604800]), [["RELATED", ["END"]]] if rnd.chance(25) else []))
    else:
        props.append(P("TRIGGER", "dt", stamp(rnd)))
    act = props[0]["v"]
    if act in ("DISPLAY", "EMAIL"):
        props.append(P("DESCRIPTION", "text", gen_text(rnd)))
    if act == "EMAIL":
        props.append(P("SUMMARY", "text", gen_text(rnd)))
        props.append(attendee(rnd, "ATTENDEE"))
    if rnd.chance(30):
        props.append(P("REPEAT", "int", rnd.between(1, 5)))
        props.append(P("DURATION", "dur", rnd.choice([300, 600])))
    if rnd.chance(20):
        props.append(P("ACKNOWLEDGED", "dt", stamp(rnd)))
    return {"n": "VALARM", "p": props, "c": []}


def gen_recur(rnd, start, pct):
    props = []
    if not rnd.chance(pct):
        return props
    rule = gen_rule(rnd, start["k"] == "date", sub=False)
    r = {"rule": rule}
    k = rnd.below(3)
    if k == 0:
        rule["count"] = rnd.between(1, 20)
    elif k == 1:
        rule["until"] = start["s"] + rnd.between(0, horizon(rule))
        r["until"] = D.fmtsec(rule["until"], start["k"] in ("utc", "local"), start["k"] == "date")
    props.append(P("RRULE", "recur", r))
    if rnd.chance(30):
        props.append(P("EXDATE", "dtlist", [dict(start, s=start["s"] + 86400 * rnd.between(1, 50)) for _i in range(rnd.between(1, 3))]))
    if rnd.chance(30):
        props.append(P("RDATE", "dtlist", [dict(start, s=start["s"] + 86400 * rnd.between(1, 50)) for _i in range(rnd.between(1, 3))]))
    if rnd.chance(12) and start["k"] != "date":
        props.append(P("RDATE", "periodlist", [[dict(start, s=start["s"] + 86400 * rnd.between(1, 50)), rnd.choice([3600, 7200]), rnd.chance(50)]]))
    return props


def gen_component(rnd, name, tz, uid=None):
    kinds = ["date", "utc", "floating"] + (["local", "local"] if tz else [])
    uid = uid or gen_uid(rnd)
    props = [P("UID", "text", uid), P("DTSTAMP", "dt", stamp(rnd))]
    subs = []
    if name == "VEVENT":
        st = gen_dt(rnd, kinds, tz)
        props.append(P("DTSTART", "dt", st))
        k = rnd.below(3)
        unit = 86400 if st["k"] == "date" else 900
        if k == 0:
            props.append(P("DTEND", "dt", dict(st, s=st["s"] + unit * rnd.between(1, 9))))
        elif k == 1:
            props.append(P("DURATION", "dur", unit * rnd.between(1, 9)))
        props.extend(gen_recur(rnd, st, 40))
        maybe(rnd, 20, props, lambda: P("LOCATION", "text", gen_text(rnd)))
        maybe(rnd, 20, props, lambda: P("STATUS", "text", rnd.choice(["CONFIRMED", "TENTATIVE", "CANCELLED"])))
        maybe(rnd, 20, props, lambda: P("TRANSP", "text", rnd.choice(["OPAQUE", "TRANSPARENT"])))
        maybe(rnd, 10, props, lambda: P("GEO", "geo", ["%d.5" % rnd.between(-89, 89), "%d.25" % rnd.between(-179, 179)]))
        maybe(rnd, 10, props, lambda: P("PRIORITY", "int", rnd.between(0, 9)))
        maybe(rnd, 10, props, lambda: P("RESOURCES", "textlist", [gen_text(rnd), gen_text(rnd)]))
        common(rnd, props, tz)
        for _i in range(rnd.choice([0, 0, 1, 2])):
            subs.append(gen_alarm(rnd))
    elif name == "VTODO":
        if rnd.chance(60):
            st = gen_dt(rnd, kinds, tz)
            props.append(P("DTSTART", "dt", st))
            if rnd.chance(50):
                props.append(P("DUE", "dt", dict(st, s=st["s"] + 86400 * rnd.between(1, 9))))
            props.extend(gen_recur(rnd, st, 25))
        elif rnd.chance(50):
            props.append(P("DUE", "dt", gen_dt(rnd, kinds, tz)))
        maybe(rnd, 30, props, lambda: P("STATUS", "text", rnd.choice(["NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"])))
        maybe(rnd, 20, props, lambda: P("COMPLETED", "dt", stamp(rnd)))
        maybe(rnd, 20, props, lambda: P("PERCENT-COMPLETE", "int", rnd.between(0, 100)))
        common(rnd, props, tz)
        for _i in range(rnd.choice([0, 0, 1])):
            subs.append(gen_alarm(rnd))
    elif name == "VJOURNAL":
        if rnd.chance(70):
            props.append(P("DTSTART", "dt", gen_dt(rnd, kinds, tz)))
        common(rnd, props, tz)
    elif name == "VFREEBUSY":
        s = stamp(rnd)
        props.append(P("DTSTART", "dt", s))
        props.append(P("DTEND", "dt", dict(s, s=s["s"] + 86400 * 7)))
        for _i in range(rnd.between(0, 3)):
            ps = [[dict(s, s=s["s"] + rnd.between(0, 600000)), 900 * rnd.between(1, 16), rnd.chance(50)] for _j in range(rnd.between(1, 3))]
            props.append(P("FREEBUSY", "periodlist", ps, [["FBTYPE", [rnd.choice(["BUSY", "BUSY-TENTATIVE", "FREE"])]]] if rnd.chance(60) else []))
        maybe(rnd, 40, props, lambda: attendee(rnd, "ORGANIZER"))
    elif name == "VAVAILABILITY":
        s = gen_dt(rnd, ["utc"])
        props.append(P("DTSTART", "dt", s))
        props.append(P("DTEND", "dt", dict(s, s=s["s"] + 86400 * 30)))
        for _i in range(rnd.between(0, 2)):
            a = dict(s, s=s["s"] + 3600 * rnd.between(1, 100))
            subs.append({"n": "AVAILABLE", "p": [P("UID", "text", gen_uid(rnd)), P("DTSTAMP", "dt", stamp(rnd)), P("DTSTART", "dt", a),
                                                 P("DTEND", "dt", dict(a, s=a["s"] + 7200)), P("SUMMARY", "text", gen_text(rnd))] + gen_recur(rnd, a, 30), "c": []})
        maybe(rnd, 40, props, lambda: P("SUMMARY", "text", gen_text(rnd)))
    else:
        # a component nobody knows
        props = [P("X-A", "raw", rnd.choice(["1", "a,b", "c\\;d"])), P("SUMMARY", "text", gen_text(rnd))]
        if rnd.chance(50):
            subs.append({"n": "X-INNER", "p": [P("X-B", "raw", "2")], "c": []})
    if rnd.chance(30):
        rnd.shuffle(props)
    return {"n": name, "p": props, "c": subs}


def zone_comp(spec):
    """ the document form of a tzmodel zone """
    subs = []
    for o in spec["obs"]:
        ps = [P("DTSTART", "dt", {"k": "floating", "s": o["start"]})]
        if o.get("rule"):
            ps.append(P("RRULE", "recur", {"rule": o["rule"], "until": D.fmtsec(o["until"], True) if o.get("until") is not None else None}))
        if o.get("rdates"):
            ps.append(P("RDATE", "dtlist", [{"k": "floating", "s": r} for r in o["rdates"]]))
        if o.get("name"):
            ps.append(P("TZNAME", "text", o["name"]))
        ps.append(P("TZOFFSETFROM", "offset", o["from"]))
        ps.append(P("TZOFFSETTO", "offset", o["to"]))
        subs.append({"n": o["kind"], "p": ps, "c": []})
    return {"n": "VTIMEZONE", "p": [P("TZID", "text", spec["tzid"])], "c": subs}


def gen_calendar(rnd, maxcomps=4, kinds=None, tz=None, zones=None):
    props = [P("VERSION", "text", "2.0"), P("PRODID", "text", "-//vsim//%s//EN" % gen_uid(rnd))]
    maybe(rnd, 30, props, lambda: P("CALSCALE", "text", "GREGORIAN"))
    maybe(rnd, 20, props, lambda: P("METHOD", "text", rnd.choice(["REQUEST", "PUBLISH", "REPLY"])))
    maybe(rnd, 20, props, lambda: P("X-WR-CALNAME", "text", gen_text(rnd)))
    maybe(rnd, 10, props, lambda: P("X-WR-CALDESC", "text", gen_text(rnd)))
    comps = []
    if zones is None:
        zones = []
        if rnd.chance(50):
            zones = [tzmodel.gen_zone(rnd, "Sim/%s" % rnd.choice(["A", "B", "C"]))]
    for z in zones:
        comps.append(zone_comp(z))
    tzid = tz or (zones[0]["tzid"] if zones else None)
    for _i in range(rnd.between(1, maxcomps)):
        n = rnd.weighted(kinds or [("VEVENT", 8), ("VTODO", 3), ("VJOURNAL", 2), ("VFREEBUSY", 2), ("VAVAILABILITY", 1), ("X-THING", 1)])
        c = gen_component(rnd, n, tzid)
        comps.append(c)
        starts = [p for p in c["p"] if p["n"] == "DTSTART"]
        if n == "VEVENT" and [p for p in c["p"] if p["n"] == "RRULE"] and rnd.chance(50):
            o = gen_component(rnd, n, tzid, uid=[p for p in c["p"] if p["n"] == "UID"][0]["v"])
            o["p"] = [p for p in o["p"] if p["n"] not in ("RRULE", "RDATE", "EXDATE")]
            o["p"].append(P("RECURRENCE-ID", "dt", dict(starts[0]["v"])))
            comps.append(o)
    if rnd.chance(20):
        rnd.shuffle(comps)
    return {"n": "VCALENDAR", "p": props, "c": comps}


def gen_card(rnd):
    props = [P("VERSION", "text", "3.0"), P("UID", "text", gen_uid(rnd)), P("FN", "text", gen_text(rnd)),
             P("N", "n", [[gen_text(rnd)], [gen_text(rnd)], [gen_text(rnd) for _i in range(rnd.between(1, 3))], [""], [""]])]
    for _i in range(rnd.below(3)):
        types = rnd.sample(["HOME", "WORK", "CELL", "pref"], rnd.between(1, 3))
        props.append(P("TEL", "text", "+1-555-%04d" % rnd.below(10000), [["TYPE", types]] if rnd.chance(60) else [["TYPE", [t]] for t in types],
                       g="item%d" % rnd.below(3) if rnd.chance(30) else None))
    for _i in range(rnd.below(3)):
        props.append(P("EMAIL", "text", "%s@example.com" % gen_uid(rnd), [["TYPE", ["INTERNET"]]], g="item%d" % rnd.below(3) if rnd.chance(30) else None))
    maybe(rnd, 50, props, lambda: P("ADR", "adr", [[""], [""], [gen_text(rnd), gen_text(rnd)] if rnd.chance(30) else [gen_text(rnd)], [gen_text(rnd)], [""], ["%05d" % rnd.below(99999)], [gen_text(rnd)]],
                                    [["TYPE", ["HOME"]]]))
    maybe(rnd, 40, props, lambda: P("ORG", "org", [gen_text(rnd) for _i in range(rnd.between(1, 3))]))
    maybe(rnd, 30, props, lambda: P("NICKNAME", "textlist", [gen_text(rnd) for _i in range(rnd.between(1, 2))]))
    maybe(rnd, 30, props, lambda: P("CATEGORIES", "textlist", [gen_text(rnd) for _i in range(rnd.between(1, 3))]))
    maybe(rnd, 40, props, lambda: P("NOTE", "text", gen_text(rnd)))
    maybe(rnd, 30, props, lambda: P("BDAY", "dt", gen_dt(rnd, ["date"])))
    maybe(rnd, 30, props, lambda: P("REV", "dt", stamp(rnd)))
    maybe(rnd, 20, props, lambda: P("URL", "uri", "http://example.com/%s" % gen_uid(rnd)))
    maybe(rnd, 20, props, lambda: P("PHOTO", "bin", "QUJD" * rnd.between(1, 100), [["ENCODING", ["b"]], ["TYPE", ["JPEG"]]]))
    maybe(rnd, 20, props, lambda: P("X-ABSHOWAS", "raw", rnd.choice(["COMPANY", "a,b", "c\\;d", "e\\\\"])))
    maybe(rnd, 15, props, lambda: P("TITLE", "text", gen_text(rnd)))
    if rnd.chance(30):
        rnd.shuffle(props)
    return {"n": "VCARD", "p": props, "c": []}
