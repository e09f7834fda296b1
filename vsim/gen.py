"""
Generators shared by scenarios (all randomness from the Rnd handed in).
"""
from vsim import dates as D
from vsim import rrule as R


def gen_day(rnd, lo=1995, hi=2035):
    y = rnd.between(lo, hi)
    k = rnd.below(10)
    if k == 0:
        return (y, 1, rnd.between(29, 31))
    if k == 1:
        y = y - y % 4
        if D.leap(y):
            return (y, 2, 29)
    if k == 2:
        return (y, 12, rnd.between(25, 31))
    if k == 3:
        m = rnd.choice([1, 3, 5, 7, 8, 10, 12])
        return (y, m, 31)
    m = rnd.between(1, 12)
    return (y, m, rnd.between(1, D.mdays(y, m)))


def gen_tod(rnd):
    k = rnd.below(6)
    if k == 0:
        return (0, 0, 0)
    if k == 1:
        return (23, 59, rnd.choice([0, 59]))
    if k == 2:
        return (rnd.between(0, 4), rnd.choice([0, 30]), 0)
    return (rnd.between(0, 23), rnd.choice([0, 15, 30, 45, rnd.between(0, 59)]), rnd.choice([0, 0, rnd.between(0, 59)]))


def subset(rnd, lo, hi, kmax, neg=False):
    k = rnd.between(1, kmax)
    s = set()
    for _i in range(k):
        v = rnd.between(lo, hi)
        if neg and rnd.chance(35):
            v = -v
        s.add(v)
    out = sorted(s)
    if rnd.chance(30):
        rnd.shuffle(out)
    return out


def gen_byday(rnd, numeric, kmax=4):
    out = []
    for _i in range(rnd.between(1, kmax)):
        n = 0
        if numeric and rnd.chance(50):
            n = rnd.choice(numeric)
        d = [n, rnd.below(7)]
        if d not in out:
            out.append(d)
    return out


def gen_rule(rnd, datevalue=False, sub=True, simple=False):
    """ A rule RFC 5545 allows, without COUNT or UNTIL """
    freqs = [("DAILY", 4), ("WEEKLY", 5), ("MONTHLY", 6), ("YEARLY", 6)]
    if sub and not datevalue:
        freqs += [("HOURLY", 2), ("MINUTELY", 1), ("SECONDLY", 1)]
    f = rnd.weighted(freqs)
    r = {"freq": f, "interval": rnd.weighted([(1, 6), (2, 3), (3, 2), (rnd.between(4, 9), 1)])}
    if simple or rnd.chance(25):
        return r
    if rnd.chance(20):
        r["wkst"] = rnd.below(7)
    if f in R.SUB:
        if rnd.chance(30):
            r["bymonth"] = subset(rnd, 1, 12, 5)
        if rnd.chance(20):
            r["bymonthday"] = subset(rnd, 1, 31, 8, True)
        if rnd.chance(25):
            r["byday"] = gen_byday(rnd, None, 4)
        if rnd.chance(30):
            r["byhour"] = subset(rnd, 0, 23, 6)
        if rnd.chance(30):
            r["byminute"] = subset(rnd, 0, 59, 4)
        if rnd.chance(20):
            r["bysecond"] = subset(rnd, 0, 59, 3)
    else:
        if f == "DAILY":
            if rnd.chance(30):
                r["bymonth"] = subset(rnd, 1, 12, 5)
            if rnd.chance(25):
                r["bymonthday"] = subset(rnd, 1, 31, 8, True)
            if rnd.chance(35):
                r["byday"] = gen_byday(rnd, None, 4)
        elif f == "WEEKLY":
            if rnd.chance(80):
                r["byday"] = gen_byday(rnd, None, 4)
            if rnd.chance(20):
                r["bymonth"] = subset(rnd, 1, 12, 6)
        elif f == "MONTHLY":
            k = rnd.below(6)
            if k in (0, 1, 4):
                r["bymonthday"] = subset(rnd, 1, 31, 4, True)
            if k in (2, 3, 4):
                r["byday"] = gen_byday(rnd, [1, 2, 3, 4, 5, -1, -2, -3, -4, -5] if k != 4 else None, 4)
            if rnd.chance(20):
                r["bymonth"] = subset(rnd, 1, 12, 6)
        elif f == "YEARLY":
            k = rnd.below(9)
            if k in (0, 1, 2, 3):
                r["bymonth"] = subset(rnd, 1, 12, 4)
            if k in (1, 4):
                r["bymonthday"] = subset(rnd, 1, 31, 3, True)
            if k in (2, 3):
                r["byday"] = gen_byday(rnd, [1, 2, 3, 4, -1, -2, 5, -5], 3)
            if k == 4 and rnd.chance(50):
                r["byday"] = gen_byday(rnd, None, 3)
            if k == 5:
                r["byday"] = gen_byday(rnd, [1, 2, 10, 20, 52, -1, -2, -30], 2)
            if k == 6:
                r["byyearday"] = subset(rnd, 1, 366, 4, True)
            if k in (7,):
                r["byweekno"] = subset(rnd, 1, 53, 3, True)
                # without BYDAY the weekday is the one the repository's own tests pin, see DESIGN.md
                r["byday"] = gen_byday(rnd, None, 3)
        if not datevalue:
            if rnd.chance(20):
                r["byhour"] = subset(rnd, 0, 23, 3)
            if rnd.chance(15):
                r["byminute"] = subset(rnd, 0, 59, 3)
            if rnd.chance(10):
                r["bysecond"] = subset(rnd, 0, 59, 2)
    if len([k for k in r if k.startswith("by")]) > 0 and rnd.chance(20):
        r["bysetpos"] = subset(rnd, 1, 4, 2, True)
    return r


HORIZON = {"SECONDLY": 240, "MINUTELY": 2 * 3600, "HOURLY": 3 * 86400, "DAILY": 80 * 86400, "WEEKLY": 320 * 86400,
           "MONTHLY": 800 * 86400, "YEARLY": 9 * 366 * 86400}


def horizon(rule):
    return HORIZON[rule["freq"]] * min(rule.get("interval", 1), 4)
