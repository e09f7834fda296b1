"""
Independent model of VTIMEZONE semantics: a zone is a list of observances, its transitions are computed
from scratch, eagerly, over the whole horizon of the simulation, with no cache.

zone = {"tzid": .., "obs": [{"kind": "STANDARD"|"DAYLIGHT", "start": wall secs, "from": s, "to": s, "name": ..,
        "rule": rule or None, "until": utc secs or None, "rdates": [wall secs]}]}
"""
from vsim import dates as D
from vsim import rrule as R


def off_text(s):
    sign = "-" if s < 0 else "+"
    s = abs(s)
    t = "%s%02d%02d" % (sign, s // 3600, s // 60 % 60)
    if s % 60:
        t += "%02d" % (s % 60)
    return t


class Zone(object):

    def __init__(self, spec, horizon_year=2050):
        self.spec = spec
        self.tzid = spec["tzid"]
        hz = D.secs((horizon_year, 1, 1, 0, 0, 0))
        tr = set()
        for o in spec["obs"]:
            if o.get("rule"):
                onsets = R.expand(o["rule"], o["start"], hz, key=lambda x, f=o["from"]: x - f, until=o.get("until"))
            else:
                onsets = [o["start"]]
            onsets = set(onsets) | set(o.get("rdates") or [])
            for w in onsets:
                tr.add((w, o["from"], o["to"], o.get("name") or "", o["kind"]))
        self.trans = sorted(tr)
        self.first_utc = self.trans[0][0] - self.trans[0][1]
        self.first_wall = self.trans[0][0]

    def offset_utc(self, u):
        """ offset in force at UTC second u, None before the first onset """
        res = None
        for w, f, t, _n, _k in self.trans:
            if w - f <= u:
                res = t
            else:
                break
        return res

    def name_wall(self, w):
        res = None
        for x in self.trans:
            if x[0] <= w:
                res = x
            else:
                break
        return res

    def offsets_wall(self, w):
        """
        Acceptable offsets for a wall clock time: one that exists once has one, one that exists twice is the
        first (RFC 5545 3.3.5), one that does not exist has the two on either side of the gap.
        Empty before the first onset.
        """
        if w < self.first_wall:
            return ()
        prev = cur = None
        for x in self.trans:
            if x[0] <= w:
                prev, cur = cur, x
            else:
                break
        gap = cur[2] - cur[1]
        if gap > 0 and w < cur[0] + gap:
            return (cur[1], cur[2])
        return (cur[2],)

    def offset_wall(self, w):
        """ None when not settled by the specification (gap, or before the first onset) """
        o = self.offsets_wall(w)
        return o[0] if len(o) == 1 else None

    def to_utc(self, w):
        o = self.offset_wall(w)
        return None if o is None else w - o

    def text_lines(self):
        out = ["BEGIN:VTIMEZONE", "TZID:%s" % self.tzid]
        for o in self.spec["obs"]:
            out.append("BEGIN:%s" % o["kind"])
            out.append("DTSTART:%s" % D.fmtsec(o["start"]))
            if o.get("rule"):
                out.append("RRULE:%s" % R.text(o["rule"], D.fmtsec(o["until"], True) if o.get("until") is not None else None))
            if o.get("rdates"):
                for r in o["rdates"]:
                    out.append("RDATE:%s" % D.fmtsec(r))
            if o.get("name"):
                out.append("TZNAME:%s" % o["name"])
            out.append("TZOFFSETFROM:%s" % off_text(o["from"]))
            out.append("TZOFFSETTO:%s" % off_text(o["to"]))
            out.append("END:%s" % o["kind"])
        out.append("END:VTIMEZONE")
        return out

    def text(self, eol="\r\n"):
        return eol.join(self.text_lines()) + eol

    def calendar(self, eol="\r\n"):
        lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//vsim//tz//EN"] + self.text_lines() + ["END:VCALENDAR"]
        return eol.join(lines) + eol


def gen_zone(rnd, tzid, big=False):
    """
    A realistic zone history: fixed offset, or alternating standard / daylight with one or more rule eras,
    possibly with the standard offset itself changing, given as RRULEs, RDATEs or single observances.
    """
    std = 900 * rnd.choice([-40, -32, -28, -20, -16, -14, -12, 0, 4, 8, 14, 20, 22, 23, 36, 38, 40, 48, 52])
    kind = rnd.weighted([("fixed", 1), ("dst", 7), ("shift", 2)])
    y0 = rnd.between(1966, 1998)
    hh = rnd.choice([0, 1, 2, 2, 2, 3])
    abbr = "%s%s" % (rnd.choice("ABCEGKMNPW"), rnd.choice("ABEKNRST"))
    names = rnd.chance(90)
    std_name = abbr + "ST" if names else None
    dst_name = abbr + "DT" if names else None
    first = D.secs((y0, 1, 1, 0, 0, 0))
    if kind == "fixed":
        return {"tzid": tzid, "obs": [{"kind": "STANDARD", "start": first, "from": std, "to": std, "name": std_name}]}
    if kind == "shift":
        obs = [{"kind": "STANDARD", "start": first, "from": std, "to": std, "name": std_name}]
        w = first
        cur = std
        for i in range(rnd.between(1, 5)):
            w += 86400 * rnd.between(200, 4000)
            new = cur + 900 * rnd.choice([-4, -2, 2, 4, 3, -3])
            if abs(new) > 50000:
                new = 0
            obs.append({"kind": "STANDARD", "start": w + 3600 * rnd.between(0, 3), "from": cur, "to": new,
                        "name": "%sX%d" % (abbr, i) if names else None})
            cur = new
        return {"tzid": tzid, "obs": obs}
    save = rnd.choice([3600, 3600, 3600, 1800, 7200])
    eras = rnd.between(1, 3)
    obs = []
    south = rnd.chance(30)
    y = y0
    base = {"kind": "STANDARD", "start": first, "from": std, "to": std, "name": std_name}
    # the standard offset in force before the first summer
    obs.append(base)
    for e in range(eras):
        last = e == eras - 1
        yend = None if last and rnd.chance(80) else y + rnd.between(2, 12)
        mon_on, mon_off = rnd.choice([(3, 11), (3, 10), (4, 10), (4, 9), (5, 10)])
        if south:
            mon_on, mon_off = mon_off, mon_on
        # the switch on and the switch off of one era
        on_rule = {"freq": "YEARLY", "bymonth": [mon_on], "byday": [[rnd.choice([1, 2, -1]), rnd.choice([0, 0, 5, 6])]]}
        off_rule = {"freq": "YEARLY", "bymonth": [mon_off], "byday": [[rnd.choice([1, 2, -1]), rnd.choice([0, 0, 5, 6])]]}
        for rule, frm, to, name, k in ((on_rule, std, std + save, dst_name, "DAYLIGHT"), (off_rule, std + save, std, std_name, "STANDARD")):
            begin = D.secs((y, 1, 1, 0, 0, 0))
            # every onset of this era
            cands = R.expand(rule, begin + hh * 3600, D.secs(((yend or 2052), 1, 1, 0, 0, 0)))[1:]
            if yend:
                cands = [c for c in cands if c < D.secs((yend, 1, 1, 0, 0, 0))]
            if not cands:
                continue
            o = {"kind": k, "start": cands[0], "from": frm, "to": to, "name": name}
            style = rnd.weighted([("rule", 8), ("rdate", 2), ("both", 2)]) if yend else "rule"
            if style == "both" and len(cands) > 2:
                cut = rnd.between(1, len(cands) - 1)
                o["rule"] = rule
                o["until"] = rule["until"] = cands[cut - 1] - frm
                # one of the dates may be an instance of the rule too
                o["rdates"] = cands[cut - rnd.below(2):]
                rnd.shuffle(o["rdates"])
            elif style == "rule":
                o["rule"] = rule
                if yend:
                    o["until"] = cands[-1] - frm
                    rule["until"] = o["until"]
            else:
                o["rdates"] = cands[1:]
            obs.append(o)
        if yend is None:
            break
        # eras begin and end in standard time: in the south the year ends in summer time
        if south:
            obs.append({"kind": "STANDARD", "start": D.secs((yend, 1, 1, 0, 0, 0)) + 7200, "from": std + save, "to": std,
                        "name": std_name})
        y = yend + rnd.between(0, 2)
        if south and y == yend:
            y += 1
    if rnd.chance(30):
        rnd.shuffle(obs)
    return {"tzid": tzid, "obs": obs}
