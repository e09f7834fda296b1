"""
Time zone source (the text form zic reads): generator, and an independent compiler to offsets.

source = {"sets": {name: [rule]}, "zones": [{"name": .., "segs": [seg]}], "links": [[to, from]]}
rule = [from, to ("only", "max", year), month, on, at seconds, at mode ("", "s", "u"), save seconds, letter]
seg = [stdoff seconds, "-" or set name or fixed save seconds, format, until]
until = None or [year, month, on, seconds, mode], shorter if the rest is not given
"""
from vsim import dates as D

MONTHS = ["", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]


def hms(s):
    t = "%s%d:%02d" % ("-" if s < 0 else "", abs(s) // 3600, abs(s) // 60 % 60)
    return t if s % 60 == 0 else t + ":%02d" % (abs(s) % 60)


def save(s):
    return "0" if s == 0 else hms(s)


def rule_line(name, r):
    return "\t".join(["Rule", name, str(r[0]), str(r[1]), "-", MONTHS[r[2]], r[3], hms(r[4]) + r[5], save(r[6]), r[7]])


def until_text(u):
    out = [str(u[0])]
    if len(u) > 1:
        out.append(MONTHS[u[1]])
    if len(u) > 2:
        out.append(u[2])
    if len(u) > 3:
        out.append(hms(u[3]) + u[4])
    return " ".join(out)


def seg_text(s):
    rule = s[1] if isinstance(s[1], (str, unicode)) else hms(s[1])
    return "\t".join([hms(s[0]), rule, s[2]] + ([until_text(s[3])] if s[3] else []))


def zone_lines(z):
    return ["Zone %s\t%s" % (z["name"], seg_text(z["segs"][0]))] + ["\t\t\t" + seg_text(s) for s in z["segs"][1:]]


def day_on(y, m, on):
    if on.startswith("last"):
        want = DAYS.index(on[4:])
        d = D.mdays(y, m)
        while (D.dow(D.days(y, m, d))) != want:
            d -= 1
        return d
    if ">=" in on:
        name, d = on.split(">=")
        d = int(d)
        while D.dow(D.days(y, m, d)) != DAYS.index(name):
            d += 1
        return d
    return int(on)


def at(y, m, on, secs):
    return D.days(y, m, day_on(y, m, on)) * 86400 + secs - EPOCH


EPOCH = D.days(1970, 1, 1) * 86400 - D.secs((1970, 1, 1, 0, 0, 0))


def rule_times(rules, horizon):
    out = []
    for r in rules:
        last = r[0] if r[1] == "only" else horizon if r[1] == "max" else r[1]
        for y in range(r[0], min(last, horizon) + 1):
            out.append((at(y, r[2], r[3], r[4]), r[5], r[6]))
    return sorted(out)


def to_utc(w, mode, std, sav):
    return w if mode == "u" else w - std if mode == "s" else w - std - sav


class Compiled(object):
    """ offsets from the beginning of time on: [(utc, offset)] """

    def __init__(self, source, zone, horizon=2045):
        self.trans = []
        start, std, sav = None, None, 0
        for seg in zone["segs"]:
            std = seg[0]
            u = seg[3]
            until = None
            if u:
                until = at(u[0], u[1] if len(u) > 1 else 1, u[2] if len(u) > 2 else "1", u[3] if len(u) > 3 else 0)
            mode = u[4] if u and len(u) > 4 else ""
            if not isinstance(seg[1], (str, unicode)) or seg[1] == "-":
                sav = 0 if seg[1] == "-" else seg[1]
                self.add(start, std + sav)
            else:
                # which saving is in force when the segment starts: of the last change before, else none
                times = rule_times(source["sets"][seg[1]], horizon)
                cur, done = 0, start is None
                for w, m, s in times:
                    t = to_utc(w, m, std, cur)
                    if until is not None and t >= to_utc(until, mode, std, cur):
                        break
                    if start is not None and t <= start:
                        cur = s
                        continue
                    if not done:
                        self.add(start, std + cur)
                        done = True
                    if not self.trans:
                        self.add(None, std)
                    cur = s
                    self.add(t, std + cur)
                if not done or not self.trans:
                    self.add(start, std + cur)
                sav = cur
            if until is not None:
                start = to_utc(until, mode, std, sav)

    def add(self, t, off):
        self.trans.append((t, off))

    def offset(self, u):
        res = self.trans[0][1]
        for t, o in self.trans[1:]:
            if t > u:
                break
            res = o
        return res

    def changes(self):
        out, cur = [], self.trans[0][1]
        for t, o in self.trans[1:]:
            if o != cur:
                out.append(t)
                cur = o
        return out


def gen_on(rnd, fixed=False):
    k = rnd.weighted([("last", 4), ("ge", 5), ("day", 0 if not fixed else 5)])
    if k == "last":
        return "last" + rnd.choice(DAYS)
    if k == "ge":
        return "%s>=%d" % (rnd.choice(DAYS), rnd.choice([1, 1, 8, 8, 15, 22, 2, 9, 23, 25]))
    return str(rnd.between(1, 28))


def gen_set(rnd, y0):
    south = rnd.chance(30)
    rules = []
    y = y0
    n = rnd.between(1, 4)
    for i in range(n):
        last = i == n - 1
        span = rnd.choice([0, 1, 3, 9])
        end = "max" if last and rnd.chance(70) else y + span
        sav = rnd.choice([3600, 3600, 3600, 1800, 7200])
        mode = rnd.choice(["", "", "s", "u"])
        h = rnd.choice([0, 1, 2, 2, 2, 3, 23])
        m1, m2 = (rnd.choice([9, 10, 11]), rnd.choice([2, 3, 4])) if south else (rnd.choice([3, 4, 5]), rnd.choice([9, 10, 11]))
        only = end != "max" and end == y
        to = "only" if only else end
        a = [y, to, m1, gen_on(rnd, only), 3600 * h, mode, sav, rnd.choice(["D", "S"])]
        h2 = h if mode == "u" or rnd.chance(60) else rnd.choice([0, 2, 3, 24])
        b = [y, to, m2, gen_on(rnd, only), 3600 * h2, mode if rnd.chance(70) else "", 0, rnd.choice(["S", "-"])]
        if south and y == y0:
            b[0] += 1
            if b[1] == "only":
                b[0] -= 0
            elif b[1] != "max" and b[0] > b[1]:
                b[1] = "only"
        rules += [a, b]
        if end == "max":
            break
        y = end + rnd.between(1, 4)
    return rules


def gen(rnd):
    sets = {}
    for name in rnd.sample(["EU", "US", "Aus", "Xx"], rnd.between(1, 3)):
        sets[name] = gen_set(rnd, rnd.between(1916, 1990))
    zones = []
    for i in range(rnd.between(1, 3)):
        segs = []
        lmt = rnd.between(-43200, 46800)
        y = rnd.between(1880, 1920)
        segs.append([lmt, "-", "LMT", [y] + rnd.choice([[], [rnd.between(1, 12), str(rnd.between(1, 28))], [11, "18", 43200 + rnd.below(3600), ""]])])
        std = 1800 * rnd.between(-20, 24)
        for _j in range(rnd.choice([0, 0, 1, 1, 2, 3])):
            y += rnd.between(4, 40)
            if y > 2025:
                break
            segs.append([std, gen_rule(rnd, sets), gen_format(rnd), gen_until(rnd, y)])
            if rnd.chance(60):
                std += 1800 * rnd.choice([-2, -1, 1, 2])
        segs.append([std, gen_rule(rnd, sets) if not rnd.chance(70) else rnd.choice(sorted(sets)), gen_format(rnd), None])
        for s in segs:
            if s[1] in sets and "%s" not in s[2] and "/" not in s[2]:
                s[2] = "X%sT"
        zones.append({"name": ["Here/One", "Here/Two", "There", "A/B/C"][i], "segs": segs})
    return {"sets": sets, "zones": zones}


def gen_rule(rnd, sets):
    return rnd.weighted([("-", 4), (rnd.choice(sorted(sets)), 7), (rnd.choice([3600, 1800]), 1)])


def gen_format(rnd):
    return rnd.choice(["E%sT", "GMT/BST", "XX", "Z%sT"])


def gen_until(rnd, y):
    u = [y]
    if rnd.chance(75):
        u.append(rnd.between(1, 12))
        if rnd.chance(80):
            u.append(rnd.choice(["1", "5", "17", "28", "lastSun", "lastSat", "Sun>=1", "Sun>=8"]))
            if rnd.chance(70):
                u += [3600 * rnd.choice([0, 1, 2, 3, 23, 24]), rnd.choice(["", "", "s", "u"])]
    return u


def text(source, comments=()):
    out = []
    for name in sorted(source["sets"]):
        out += [rule_line(name, r) for r in source["sets"][name]]
    for z in source["zones"]:
        out += zone_lines(z)
    return "\n".join(out) + "\n"
