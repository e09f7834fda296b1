"""
P17: a directory of zones is made anew whole: each file in it is complete whenever anybody looks, and what a run
that ends well leaves is what its source says, whatever was there before and however earlier runs ended.
"""
import copy
import os
import sys
import pycalendar
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pycalendar.__file__))), "zonal"))
from vsim import core, simdisk, tzsrc
from vsim.lib import LibScenario
from zonal import tzconvert as module
from zonal.tzconvert import tzconvert
import re

LINKS = ["Old/One", "Old/Two", "GB", "Here/Also", "A", "ZZ", "EST5", "XXX"]
ALIASES = ["Some Standard Time", "Other Standard Time", "GB"]


class Elements(object):
    """ stands in for ElementTree, for which this interpreter lacks the parser: an alias file as written below """

    def __init__(self, element=None, file=None):
        data = file.read() if hasattr(file, "read") else open(file).read()
        self.all = [dict(re.findall('([a-z]+)="([^"]*)"', x)) for x in re.findall("<mapZone ([^>]*)/>", data)]
        if not data.endswith("</supplementalData>"):
            raise module.XMLParseError("cut off")

    def getroot(self):
        return self

    def findall(self, path):
        return self.all

    def iter(self, name=None):
        return iter(self.all)


class FakeXML(object):
    ElementTree = Elements

    @staticmethod
    def parse(file):
        return Elements(file=file)


class Null(object):
    def write(self, data):
        pass

    def flush(self):
        pass


class P17(LibScenario):
    prop = "P17"

    def generate(self, rnd, tier):
        srcs = []
        for _i in range(rnd.choice([1, 2])):
            src = tzsrc.gen(rnd)
            for z in src["zones"]:
                # names that other parts of a zone have, too
                if rnd.chance(15) and z is src["zones"][0]:
                    z["name"] = rnd.choice(["XX", "GMT", "EST", "RDATE"])
                z["segs"] = z["segs"][:1] + z["segs"][-2:]
            # or that begin with another zone's name
            if len(src["zones"]) > 1 and rnd.chance(40):
                name = src["zones"][0]["name"] + rnd.choice(["x", "-1", "/Deep", ".ics"])
                if name not in [z["name"] for z in src["zones"]]:
                    src["zones"][1]["name"] = name
            names = [z["name"] for z in src["zones"]]
            links = []
            for to in rnd.sample(LINKS, rnd.below(5)):
                links.append([to, rnd.weighted([(rnd.choice(names), 6), (rnd.choice(LINKS), 2), ("No/Where", 1)])])
            src["links"] = self.sane(links)
            src["alias"] = None
            if rnd.chance(30):
                src["alias"] = [[a, rnd.choice(names + ["No/Where"])] for a in rnd.sample(ALIASES, rnd.between(1, 3))]
            srcs.append(src)
        ops = []
        for _i in range(rnd.between(2, 6)):
            s = rnd.below(len(srcs))
            names = [z["name"] for z in srcs[s]["zones"]]
            fault = None
            if rnd.chance(65):
                fault = {"at": rnd.choice([rnd.between(1, 12), rnd.between(1, 60)]), "what": rnd.choice(["crash", "crash", "error", "full"]), "cut": rnd.choice([0, 1000000, rnd.below(1000001)]), "err": rnd.choice([5, 13, 28])}
            ops.append({"src": s, "min": rnd.choice([1800, 1970, 2000]), "max": rnd.choice([2018, 2025]), "links": rnd.chance(85), "only": rnd.sample(names, rnd.between(1, len(names))) if rnd.chance(30) else None,
                        "alias": rnd.chance(60), "fault": fault, "keep": rnd.chance(50), "litter": rnd.choice([None, None, "stray.txt", "Here/Stale.ics", "Deep/Er/Stale.ics"])})
        return {"srcs": srcs, "ops": ops}

    def sane(self, links):
        """ no links in circles """
        m = dict(links)
        out = []
        for to, frm in links:
            seen = [to]
            x = frm
            while x in m and x not in seen:
                seen.append(x)
                x = m[x]
            if x not in m:
                out.append([to, frm])
            else:
                del m[to]
        return out

    def simplify(self, case):
        for i, o in enumerate(case["ops"]):
            for k, v in (("fault", None), ("only", None), ("alias", False), ("litter", None), ("keep", False)):
                if o[k] != v:
                    c = copy.deepcopy(case)
                    c["ops"][i][k] = v
                    yield c
        for i, s in enumerate(case["srcs"]):
            for j in range(len(s["links"])):
                c = copy.deepcopy(case)
                del c["srcs"][i]["links"][j]
                yield c
            for j in range(len(s["zones"]) - 1):
                n = s["zones"][j + 1]["name"]
                c = copy.deepcopy(case)
                del c["srcs"][i]["zones"][j + 1]
                if not [1 for o in c["ops"] if o["src"] == i and o["only"] and n in o["only"]]:
                    yield c

    # -- model

    def text_of(self, src):
        return tzsrc.text(src) + "".join(["Link\t%s\t%s\n" % (frm, to) for to, frm in src["links"]])

    def expected(self, op):
        """ the files a run ends with, None for a file of links """
        src = self.case["srcs"][op["src"]]
        key = (op["src"], op["min"], op["max"])
        if key not in self.zonetext:
            tz = tzconvert()
            tz.parse(self.srcfiles[op["src"]])
            self.zonetext[key] = dict([(z["name"], tz.vtimezones(op["min"], op["max"], [z["name"]])) for z in src["zones"]])
        out = {}
        for name, text in self.zonetext[key].items():
            if not op["only"] or name in op["only"]:
                out[name + ".ics"] = text
        pairs = []
        if op["links"]:
            links = dict(src["links"])
            if op["alias"] and src["alias"]:
                for a, z in src["alias"]:
                    links.setdefault(a, z)
            for to in sorted(links):
                frm = links[to]
                while frm in links:
                    frm = links[frm]
                if frm + ".ics" in out:
                    want = out[frm + ".ics"]
                    for p in ("TZID:", "X-LIC-LOCATION:"):
                        want = want.replace("\r\n%s%s\r\n" % (p, frm), "\r\n%s%s\r\n" % (p, to))
                    pairs.append((to, links[to], want))
            for to, frm, want in pairs:
                out[to + ".ics"] = want
        return out, sorted([(to, frm) for to, frm, _w in pairs]) if op["links"] else None

    # -- run

    def execute(self, case, ctx):
        self.ctx, self.case = ctx, case
        self.zonetext = {}
        self.did = []
        self.disk = simdisk.Disk()
        out = sys.stdout
        xml = getattr(module, "XML", None)
        if xml is not None:
            module.XML = FakeXML
        sys.stdout = Null()
        try:
            self.srcfiles, self.aliasfiles = [], []
            for i, s in enumerate(case["srcs"]):
                p = os.path.join(self.disk.root, "src%d" % i)
                self.disk.put(p, self.text_of(s))
                self.srcfiles.append(p)
                a = os.path.join(self.disk.root, "alias%d.xml" % i)
                if s["alias"]:
                    self.disk.put(a, "<supplementalData><windowsZones><mapTimezones>%s</mapTimezones></windowsZones></supplementalData>" % "".join(
                        ['<mapZone other="%s" territory="001" type="%s"/><mapZone other="%s" territory="US" type="No/Thing"/>' % (x, y, x) for x, y in s["alias"]]))
                self.aliasfiles.append(a)
            self.top = os.path.join(self.disk.root, "zoneinfo")
            self.tzs = {}
            self.known = {}
            for op in case["ops"]:
                self.step(op)
                self.disk.watch = None
        finally:
            sys.stdout = out
            if xml is not None:
                module.XML = xml
            self.disk.close()

    def fail(self, kind, msg):
        self.ctx.fail(kind, "%s; runs: %s" % (msg, ", ".join(self.did)))

    def look(self):
        """ what somebody else sees at this moment """
        for name, data in self.disk.files(self.top).items():
            if name.endswith(".ics") and data not in self.known.get(name, ()) and not name.endswith("Stale.ics"):
                self.fail("torn", "somebody looking finds %d characters in %s, which is not that zone of any run" % (len(data), name))

    def step(self, op):
        ctx, disk = self.ctx, self.disk
        f = op["fault"]
        src = self.case["srcs"][op["src"]]
        self.did.append("%d-%d%s" % (op["min"], op["max"], "" if f is None else " with %s at %d" % (f["what"], f["at"])))
        disk.watch = None
        disk.arm(None)
        if op["litter"]:
            disk.put(os.path.join(self.top, op["litter"]), "left over")
        files, pairs = self.expected(op)
        for n, t in files.items():
            self.known.setdefault(n, set()).add(t)
        tz = self.tzs.get(op["src"]) if op["keep"] else None
        if tz is None:
            tz = tzconvert()
            tz.parse(self.srcfiles[op["src"]])
            self.tzs[op["src"]] = tz
        disk.watch = self.look
        disk.arm(f)
        alias = self.aliasfiles[op["src"]] if op["alias"] and src["alias"] else None
        error = None
        try:
            tz.generateZoneinfoFiles(self.top, op["min"], op["max"], links=op["links"], windowsAliases=alias, filterzones=op["only"])
        except simdisk.Crash:
            error = "killed"
            self.tzs.clear()
        except (IOError, OSError, ValueError) as e:
            if disk.hit is None:
                raise
            error = "failed"
        hit, n = disk.hit, disk.n
        disk.arm(None)
        disk.boot()
        disk.watch = None
        if hit is not None:
            ctx.fault(hit)
        self.look()
        ctx.ev(op["src"], error, hit)
        ctx.fp(error, hit, n // 3, len(files), op["links"])
        if error is not None:
            return
        if hit is not None and f["what"] == "error":
            ctx.probe("survived")
        got = disk.files(self.top)
        links = got.pop("links.txt", None)
        if sorted(got) != sorted(files):
            self.fail("files", "a run that ended well leaves %s, which should not be there, and not %s" % (sorted(set(got) - set(files)), sorted(set(files) - set(got))))
        for name in sorted(files):
            if got[name] != files[name]:
                a, b = got[name].split("\r\n"), files[name].split("\r\n")
                i = [i for i in range(min(len(a), len(b))) if a[i] != b[i]]
                self.fail("content", "a run that ended well leaves %s with %r where it should be %r" % (name, a[i[0]] if i else a[-2:], b[i[0]] if i else b[-2:]))
        if (links is None) != (pairs is None) or pairs is not None and sorted([tuple(l.split("\t")) for l in links.split("\n") if l]) != pairs:
            self.fail("links", "a run that ended well leaves the list of links %r, should be %s" % (links, pairs))


SCENARIO = P17()
