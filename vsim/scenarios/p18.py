"""
P18: what is made of time zone source is what the source says, whatever was asked before.
"""
import copy
import os
import shutil
import sys
import tempfile
import pycalendar
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pycalendar.__file__))), "zonal"))
from vsim import core, tzsrc, dates as D
from vsim.lib import LibScenario, make_dt
from pycalendar.icalendar.calendar import Calendar
from zonal.tzconvert import tzconvert

_open = open


def wall_of(dt):
    return D.secs((dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds()))


def year(y):
    return D.secs((y, 1, 1, 0, 0, 0))


class P18(LibScenario):
    prop = "P18"

    def generate(self, rnd, tier):
        src = tzsrc.gen(rnd)
        names = [z["name"] for z in src["zones"]]
        ops = []
        for _i in range(rnd.between(2, 8)):
            k = rnd.weighted([("expand", 6), ("vtimezone", 5), ("all", 2), ("another", 1), ("again", 1)])
            a = rnd.choice([1800, 1850, 1900, 1940, 1970, 1999, rnd.between(1880, 2020)])
            b = rnd.choice([2010, 2018, 2030, rnd.between(a + 1, 2035)])
            ops.append({"op": k, "zone": rnd.choice(names), "min": a, "max": max(a + 1, b), "only": rnd.sample(names, rnd.between(1, len(names))) if rnd.chance(50) else None})
        lay = {"files": rnd.choice([1, 1, 2, 3]), "noise": rnd.below(1000), "eof": rnd.chance(80), "spaces": rnd.chance(30)}
        return {"src": src, "ops": ops, "lay": lay}

    def simplify(self, case):
        src = case["src"]
        for i in range(len(src["zones"])):
            n = src["zones"][i]["name"]
            if not [1 for o in case["ops"] if o["zone"] == n] and len(src["zones"]) > 1:
                c = copy.deepcopy(case)
                del c["src"]["zones"][i]
                for o in c["ops"]:
                    o["only"] = [x for x in o["only"] if x != n] or None if o["only"] else None
                yield c
            for j in range(len(src["zones"][i]["segs"]) - 1):
                c = copy.deepcopy(case)
                del c["src"]["zones"][i]["segs"][j]
                yield c
        for n in sorted(src["sets"]):
            for i in range(len(src["sets"][n]) - 1):
                c = copy.deepcopy(case)
                del c["src"]["sets"][n][i]
                yield c
        if case["lay"] != {"files": 1, "noise": 0, "eof": True, "spaces": False}:
            yield dict(case, lay={"files": 1, "noise": 0, "eof": True, "spaces": False})

    # -- the files

    def layout(self, src, lay):
        """ the source in one or more files, as such files are written """
        rnd = core.Rnd("noise%d" % lay["noise"])
        chunks = []
        for n in sorted(src["sets"]):
            for r in src["sets"][n]:
                chunks.append([tzsrc.rule_line(n, r)])
        for z in src["zones"]:
            chunks.append(tzsrc.zone_lines(z))
        files = [[] for _i in range(lay["files"])]
        for i, c in enumerate(chunks):
            f = files[i * lay["files"] // len(chunks)]
            if lay["noise"]:
                if rnd.chance(10):
                    f.append("# a comment")
                if rnd.chance(10):
                    f.append("")
                c = [l + ("\t# note" if rnd.chance(10) else "") for l in c]
                if len(c) > 1 and rnd.chance(20):
                    c.insert(rnd.between(1, len(c) - 1), "# in between, the rules of this and that")
            if lay["spaces"]:
                c = [l.replace("\t", "  ") if rnd.chance(50) and not l.startswith("Zone") else l for l in c]
            f += c
        out = ["\n".join(f) + "\n" for f in files]
        if not lay["eof"]:
            out[-1] = out[-1][:-1]
        return out

    def parse(self):
        tz = tzconvert()
        for f in self.files:
            tz.parse(f)
        return tz

    # -- run

    def execute(self, case, ctx):
        self.ctx = ctx
        self.dir = tempfile.mkdtemp(prefix="vsimtz")
        out = sys.stdout
        try:
            self.files = []
            for i, text in enumerate(self.layout(case["src"], case["lay"])):
                p = os.path.join(self.dir, "f%d" % i)
                f = _open(p, "wb")
                f.write(text)
                f.close()
                self.files.append(p)
            self.models = dict([(z["name"], tzsrc.Compiled(case["src"], z)) for z in case["src"]["zones"]])
            self.tz = self.parse()
            self.did = []
            self.asked = {}
            if self.tz.getZoneNames() != set(self.models):
                ctx.fail("zones", "zones %s" % (sorted(self.tz.getZoneNames()),))
            for op in case["ops"]:
                self.did.append("%s %s %d-%d" % (op["op"], op["zone"], op["min"], op["max"]))
                getattr(self, "op_" + op["op"])(op)
                ctx.ev(op["op"])
        finally:
            sys.stdout = out
            shutil.rmtree(self.dir)

    def fail(self, kind, msg):
        self.ctx.fail(kind, "%s; after %s" % (msg, ", ".join(self.did)))

    def same(self, key, value):
        old = self.asked.setdefault(key, value)
        if old != value:
            self.fail("history", "%s is now %s, was %s" % (key, value, old))

    def points(self, model, lo, hi, more):
        """ instants to ask about: about each change, and in between """
        out = set()
        for t in list(model.changes()) + list(more):
            for u in (t - 1, t):
                if lo <= u < hi:
                    out.add(u)
        y = lo
        while y < hi:
            out.add(y)
            y += 86400 * 397
        return sorted(out)

    def op_expand(self, op):
        got = [(wall_of(d), a, b) for d, a, b in self.tz.expandZone(op["zone"], op["min"], op["max"])]
        self.same(("expansion", op["zone"], op["min"], op["max"]), got)
        g = [(w - a, a, b) for w, a, b in got]
        for i in range(1, len(g)):
            if g[i][0] <= g[i - 1][0] or g[i][1] != g[i - 1][2]:
                self.fail("order", "the changes %s do not follow on each other" % (got[i - 1:i + 1],))
        model = self.models[op["zone"]]
        if not g:
            self.fail("none", "no offset for %s at all" % (op["zone"],))
        for u in self.points(model, year(op["min"]), year(op["max"]), [t for t, _a, _b in g]):
            o = g[0][1]
            for t, a, b in g:
                if t > u:
                    break
                o = b
            if o != model.offset(u):
                self.fail("expansion", "the expansion of %s for %d to %d has offset %d at %s, by its source it is %d" % (op["zone"], op["min"], op["max"], o, D.fmtsec(u, True), model.offset(u)))
        self.ctx.fp("e", len(g), op["min"] // 20, op["max"] // 5, len(self.did))

    def check_vtz(self, vt, op):
        name = vt.getID()
        model = self.models[name]
        firsts = [wall_of(c.getStart()) - c.getUTCOffsetFrom() for c in vt.getComponents()]
        # local mean time is left out: a zone may begin with it
        lmt = [t for t, _o in model.trans if t is not None]
        lo = max(min(firsts) if firsts else year(op["max"]), year(op["min"]))
        if not firsts:
            self.fail("empty", "the VTIMEZONE of %s for %d to %d has no offset" % (name, op["min"], op["max"]))
        begins = [t for t in lmt if year(op["min"]) <= t < year(op["max"])]
        if begins and lo > max(year(op["min"]), begins[0]):
            self.fail("late", "the VTIMEZONE of %s for %d to %d begins at %s" % (name, op["min"], op["max"], D.fmtsec(lo, True)))
        for u in self.points(model, lo, year(op["max"]), []):
            got = vt.getTimezoneOffsetSeconds(make_dt("utc", u), relative_to_utc=True)
            if got != model.offset(u):
                self.fail("vtimezone", "the VTIMEZONE of %s for %d to %d has offset %s at %s, by its source it is %d" % (name, op["min"], op["max"], got, D.fmtsec(u, True), model.offset(u)))
        self.ctx.fp("v", len(firsts), op["min"] // 20, op["max"] // 5, len(self.did))

    def vtz(self, op, only):
        text = self.tz.vtimezones(op["min"], op["max"], only)
        self.same(("VTIMEZONE", tuple(only or ()), op["min"], op["max"]), text)
        cal = Calendar.parseText(text)
        got = sorted([c.getID() for c in cal.getComponents()])
        if got != sorted(only or self.models):
            self.fail("which", "VTIMEZONEs %s, should be %s" % (got, sorted(only or self.models)))
        for c in cal.getComponents():
            self.check_vtz(c, op)

    def op_vtimezone(self, op):
        self.vtz(op, [op["zone"]])

    def op_all(self, op):
        self.vtz(op, op["only"])

    def op_another(self, op):
        """ another reader of the same files """
        self.tz = self.parse()

    def op_again(self, op):
        """ the same question as before """
        self.op_expand(op)
        self.op_expand(op)


SCENARIO = P18()
