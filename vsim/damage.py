"""
Damage to what is stored: what bad media, a cut transfer or another program's mistakes leave of a file.
"""
import json
import re

TEXT = ["flip", "drop", "dup", "zero", "linedrop", "linedup", "lineswap", "over", "cut", "digit", "digit", "foreign", "number", "number", "mistake", "mistake", "mistake"]
NUMBERS = ["0", "1", "2", "-1", "+1", "00", "99", "366", "9999", "", "1.5", "0x1", "1000000000"]
MISTAKES = {
    "RRULE": [";INTERVAL=0", ";INTERVAL=-1", ";COUNT=0", ";COUNT=-3", ";BYMONTH=0", ";BYMONTH=13", ";BYDAY=0MO", ";BYDAY=54MO", ";BYSETPOS=0", ";BYMONTHDAY=0", ";BYMONTHDAY=32",
              ";BYYEARDAY=0", ";BYYEARDAY=367", ";BYWEEKNO=0", ";BYWEEKNO=54", ";BYHOUR=24", ";BYMINUTE=60", ";BYSECOND=61", ";WKST=XX", ";", ";FREQ=DAILY", ";COUNT=2;UNTIL=20140101", ";BYDAY=", ";BYMONTH=1,",
              ";interval=2", ";X-OTHER=1"],
    "DTSTART": ["Z", "T", "T25", ",20140101", "/PT1H", " "], "DTEND": ["Z", "T", "0"], "DURATION": ["D", "T", "P1D", "-"], "TRIGGER": ["S", "Z", "-P"], "TZOFFSETTO": ["0", "00", "+"], "TZOFFSETFROM": ["0", "00", "-"],
    "EXDATE": [",", ",20140101", "Z"], "RDATE": [",", "/", "/P1D", "/20140101T000000Z"], "FREEBUSY": [",", "/", "/PT1H", "-"], "RECURRENCE-ID": ["Z", "T"],
}
TREE = ["del", "null", "number", "string", "list", "object", "dup", "swap", "name"]
STRINGS = ["", "x", "2014", "text", "20140101T000000Z", ";", "A:B", " ", "unknown", "vevent", "BEGIN", "a\nb", "date", "-PT0S", "P1D", "FREQ=DAILY"]
FOREIGN = ["\xef\xbb\xbf", "\r\n\r\n", "\t", "\"", "\\", ";", ":", ",", "=", "END:VEVENT\r\n", "BEGIN:VEVENT\r\n", "BEGIN:VALARM\r\n", "\r\n ", "-", "P", "T", "Z", "00", "9" * 30, "VALUE=DATE", "\xff"]


def gen(rnd, tree):
    """ one piece of damage: what it is and where, as numbers that fit any document """
    return {"k": rnd.choice(TREE if tree else TEXT), "p": rnd.below(1000000), "q": rnd.below(1000000), "n": rnd.between(1, 12), "b": rnd.below(8)}


def text(s, d):
    if not s:
        return s
    k = d["k"]
    p = d["p"] * len(s) // 1000000
    q = d["q"] * len(s) // 1000000
    n = d["n"]
    if k == "flip":
        return s[:p] + chr(ord(s[p]) ^ (1 << d["b"])) + s[p + 1:]
    if k == "drop":
        return s[:p] + s[p + n:]
    if k == "dup":
        return s[:p + n] + s[p:]
    if k == "zero":
        return s[:p] + "\0" * n + s[p + n:]
    if k == "over":
        return s[:p] + s[q:q + n] + s[p + n:]
    if k == "cut":
        return s[:p]
    if k == "foreign":
        return s[:p] + FOREIGN[d["q"] % len(FOREIGN)] + s[p:]
    if k == "digit":
        at = [i for i, c in enumerate(s) if c.isdigit()]
        if not at:
            return s
        p = at[d["p"] % len(at)]
        return s[:p] + "%d" % (d["q"] % 10) + s[p + 1:]
    if k == "number":
        at = [m.span() for m in re.finditer("[+-]?[0-9]+", s)]
        if not at:
            return s
        a, b = at[d["p"] % len(at)]
        return s[:a] + NUMBERS[d["q"] % len(NUMBERS)] + s[b:]
    lines = s.split("\r\n")
    if k == "mistake":
        names = sorted(set([re.split("[:;]", l)[0].upper() for l in lines]) & set(MISTAKES))
        if not names:
            return s
        name = names[d["p"] % len(names)]
        at = [i for i, l in enumerate(lines) if re.split("[:;]", l)[0].upper() == name]
        i = at[d["p"] % len(at)]
        more = MISTAKES[name]
        lines[i] += more[d["q"] % len(more)]
        return "\r\n".join(lines)
    i, j = d["p"] % len(lines), d["q"] % len(lines)
    if k == "linedrop":
        del lines[i]
    elif k == "linedup":
        lines.insert(j, lines[i])
    else:
        lines[i], lines[j] = lines[j], lines[i]
    return "\r\n".join(lines)


def tree(s, d):
    root = json.loads(s)
    spots = []

    def walk(x):
        for i in (range(len(x)) if isinstance(x, list) else sorted(x.keys())):
            spots.append((x, i))
            if isinstance(x[i], (list, dict)):
                walk(x[i])
    walk(root)
    if not spots:
        return s
    k = d["k"]
    x, i = spots[d["p"] % len(spots)]
    if k == "name":
        # the first of a list is what names a component or property
        at = [(y, j) for y, j in spots if isinstance(y, list) and j == 0 and isinstance(y[j], basestring)]
        if at:
            x, i = at[d["p"] % len(at)]
        k = "string"
    if k == "del":
        del x[i]
    elif k == "null":
        x[i] = None
    elif k == "number":
        x[i] = [0, -1, 1.5, True, 10 ** 20][d["q"] % 5]
    elif k == "string":
        x[i] = STRINGS[d["q"] % len(STRINGS)]
    elif k == "list":
        x[i] = [x[i]]
    elif k == "object":
        x[i] = {"a": x[i]}
    elif k == "dup":
        if isinstance(x, list):
            x.insert(i, x[i])
    else:
        y, j = spots[d["q"] % len(spots)]
        a, b = json.dumps(x[i]), json.dumps(y[j])
        x[i], y[j] = json.loads(b), json.loads(a)
    try:
        return json.dumps(root)
    except ValueError:
        return s
