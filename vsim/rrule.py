"""
Independent model of RFC 5545 recurrence rules: a rule is a dict, a start is a wall clock second count,
the answer is computed by brute force over whole frequency periods, with no cache and no early exit other
than the horizon.

rule keys: freq, interval, count, until (seconds, wall clock or as given by `until_of`), bysecond, byminute, byhour,
byday [(n, dow 0=SU)], bymonthday, byyearday, byweekno, bymonth, bysetpos, wkst
"""
from vsim import dates as D

DAYNAMES = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
SUB = ("HOURLY", "MINUTELY", "SECONDLY")


def text(rule, until_text=None):
    parts = ["FREQ=%s" % rule["freq"]]
    if rule.get("until") is not None:
        parts.append("UNTIL=%s" % until_text)
    if rule.get("count"):
        parts.append("COUNT=%d" % rule["count"])
    if rule.get("interval", 1) != 1:
        parts.append("INTERVAL=%d" % rule["interval"])
    for k in ("bysecond", "byminute", "byhour", "byday", "bymonthday", "byyearday", "byweekno", "bymonth", "bysetpos"):
        v = rule.get(k)
        if v:
            if k == "byday":
                v = ["%s%s" % (n if n else "", DAYNAMES[d]) for n, d in v]
            parts.append("%s=%s" % (k.upper(), ",".join([str(i) for i in v])))
    if rule.get("wkst", 1) != 1:
        parts.append("WKST=%s" % DAYNAMES[rule["wkst"]])
    return ";".join(parts)


def _limit_month(rule, z):
    return not rule.get("bymonth") or D.civil(z)[1] in rule["bymonth"]


def _is_monthday(z, mds):
    y, m, d = D.civil(z)
    n = D.mdays(y, m)
    for x in mds:
        if x == d or x < 0 and n + x + 1 == d:
            return True
    return False


def _is_yearday(z, yds):
    y, _m, _d = D.civil(z)
    yd = z - D.days(y, 1, 1) + 1
    n = D.ydays(y)
    for x in yds:
        if x == yd or x < 0 and n + x + 1 == yd:
            return True
    return False


def _is_day_plain(z, byday):
    w = D.dow(z)
    return any([w == d for _n, d in byday])


def _is_day_in_month(z, byday):
    y, m, d = D.civil(z)
    w = D.dow(z)
    nd = D.mdays(y, m)
    for n, dd in byday:
        if dd != w:
            continue
        if n == 0 or n > 0 and (d - 1) // 7 + 1 == n or n < 0 and (nd - d) // 7 + 1 == -n:
            return True
    return False


def _is_day_in_year(z, byday):
    y = D.civil(z)[0]
    w = D.dow(z)
    yd = z - D.days(y, 1, 1)
    nd = D.ydays(y)
    for n, dd in byday:
        if dd != w:
            continue
        if n == 0 or n > 0 and yd // 7 + 1 == n or n < 0 and (nd - 1 - yd) // 7 + 1 == -n:
            return True
    return False


def _times(rule, freq, base):
    """ expanded times of day (seconds) for DAILY and slower """
    h, m, s = base // 3600, base // 60 % 60, base % 60
    hs = rule.get("byhour") or [h]
    ms = rule.get("byminute") or [m]
    ss = rule.get("bysecond") or [s]
    return sorted(set([a * 3600 + b * 60 + c for a in hs for b in ms for c in ss]))


def _setpos(rule, items):
    items = sorted(set(items))
    sp = rule.get("bysetpos")
    if not sp:
        return items
    out = set()
    for p in sp:
        if p > 0 and p <= len(items):
            out.add(items[p - 1])
        elif p < 0 and -p <= len(items):
            out.add(items[p])
    return sorted(out)


def _daysets(rule, start, horizon):
    """ yield lists of day numbers, one list for each frequency period """
    freq = rule["freq"]
    step = rule.get("interval", 1)
    z0 = start // 86400
    y0, m0, d0 = D.civil(z0)
    bm, bmd, byd, bwn, bd = [rule.get(k) for k in ("bymonth", "bymonthday", "byyearday", "byweekno", "byday")]
    hz = horizon // 86400 + {"DAILY": 1, "WEEKLY": 8, "MONTHLY": 32, "YEARLY": 370}[freq]
    if freq == "DAILY":
        z = z0
        while z <= hz:
            ok = _limit_month(rule, z)
            if ok and bmd and not _is_monthday(z, bmd):
                ok = False
            if ok and bd and not _is_day_plain(z, bd):
                ok = False
            yield [z] if ok else []
            z += step
    elif freq == "WEEKLY":
        wk = rule.get("wkst", 1)
        w = z0 - (D.dow(z0) - wk) % 7
        while w <= hz:
            if bd:
                out = [z for z in range(w, w + 7) if _is_day_plain(z, bd)]
            else:
                out = [w + (D.dow(z0) - wk) % 7]
            yield [z for z in out if _limit_month(rule, z)]
            w += 7 * step
    elif freq == "MONTHLY":
        mi = y0 * 12 + m0 - 1
        while D.days(mi // 12, mi % 12 + 1, 1) <= hz:
            y, m = mi // 12, mi % 12 + 1
            mi += step
            if bm and m not in bm:
                yield []
                continue
            first = D.days(y, m, 1)
            n = D.mdays(y, m)
            allz = range(first, first + n)
            if bmd:
                out = [z for z in allz if _is_monthday(z, bmd)]
                if bd:
                    out = [z for z in out if _is_day_in_month(z, bd)]
            elif bd:
                out = [z for z in allz if _is_day_in_month(z, bd)]
            else:
                out = [first + d0 - 1] if d0 <= n else []
            yield out
    elif freq == "YEARLY":
        y = y0
        while D.days(y, 1, 1) <= hz:
            yield _yearset(rule, y, m0, d0, D.dow(z0))
            y += step


def _yearset(rule, y, m0, d0, dow0):
    bm, bmd, byd, bwn, bd = [rule.get(k) for k in ("bymonth", "bymonthday", "byyearday", "byweekno", "byday")]
    first = D.days(y, 1, 1)
    allz = range(first, first + D.ydays(y))
    if bwn:
        wk = rule.get("wkst", 1)
        w1 = D.week1(y, wk)
        nw = D.weeks_in_year(y, wk)
        out = []
        for n in bwn:
            k = n if n > 0 else nw + n + 1
            if 1 <= k <= nw:
                out.extend(range(w1 + 7 * (k - 1), w1 + 7 * k))
        if bd:
            out = [z for z in out if _is_day_plain(z, bd)]
        else:
            out = [z for z in out if D.dow(z) == dow0]
        if bm:
            out = [z for z in out if D.civil(z)[1] in bm]
        return out
    out = allz
    if bm:
        out = []
        for m in sorted(set(bm)):
            s = D.days(y, m, 1)
            out.extend(range(s, s + D.mdays(y, m)))
    if byd:
        out = [z for z in out if _is_yearday(z, byd)]
    if bmd:
        out = [z for z in out if _is_monthday(z, bmd)]
    if bd:
        if bm or bmd or byd:
            out = [z for z in out if _is_day_in_month(z, bd)]
        else:
            out = [z for z in out if _is_day_in_year(z, bd)]
    if not (byd or bmd or bd):
        if bm:
            out = [z for z in out if D.civil(z)[2] == d0]
        else:
            out = [D.days(y, m0, d0)] if D.valid(y, m0, d0) else []
    return out


def expand(rule, start, horizon, key=None, until=None, datevalue=False):
    """
    All instances (wall seconds) from start up to horizon (wall seconds, inclusive plus slack), DTSTART first,
    then every rule instance after it.  key maps wall seconds to the comparison scale of `until`.
    """
    key = key or (lambda x: x)
    out = [start]
    count = rule.get("count")

    def over(x):
        return until is not None and key(x) > until

    if count == 1:
        return out
    for s in _sets(rule, start, horizon, datevalue):
        for x in s:
            if x <= start:
                continue
            if x > horizon:
                return out
            if over(x):
                return out
            out.append(x)
            if count and len(out) >= count:
                return out
    return out


def _sets(rule, start, horizon, datevalue):
    freq = rule["freq"]
    step = rule.get("interval", 1)
    if freq in SUB:
        unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[freq]
        bm, bmd, bd = rule.get("bymonth"), rule.get("bymonthday"), rule.get("byday")
        bh, bmi, bs = rule.get("byhour"), rule.get("byminute"), rule.get("bysecond")
        t = start
        while t <= horizon + unit:
            z, r = divmod(t, 86400)
            h, m, s = r // 3600, r // 60 % 60, r % 60
            ok = (not bm or D.civil(z)[1] in bm) and (not bmd or _is_monthday(z, bmd)) and (not bd or _is_day_plain(z, bd)) \
                and (not bh or h in bh)
            items = []
            if ok:
                if freq == "HOURLY":
                    items = [z * 86400 + h * 3600 + a * 60 + b for a in (bmi or [m]) for b in (bs or [s])]
                elif freq == "MINUTELY":
                    if not bmi or m in bmi:
                        items = [z * 86400 + h * 3600 + m * 60 + b for b in (bs or [s])]
                elif (not bmi or m in bmi) and (not bs or s in bs):
                    items = [t]
            yield _setpos(rule, items)
            t += step * unit
    else:
        tod = [0] if datevalue else _times(rule, freq, start % 86400)
        for zs in _daysets(rule, start, horizon):
            yield _setpos(rule, [z * 86400 + x for z in zs for x in tod])
