ID = "p17-longer-names"
PROP = "P17"
NEEDS = "files asked for of some zones only, one of which has a name another zone's name begins with"
BREAKS = "a file is written for a zone that was not asked for"
EDITS = [("zonal/tzconvert.py", """            if filterzones and tzzone.name not in filterzones:
                continue
            cal = Calendar()
            vtz = tzzone.vtimezone(cal, self.rules, minYear, maxYear)
            cal.addComponent(vtz)

            icsdata""", """            if filterzones and not tzzone.name.startswith(tuple(filterzones)):
                continue
            cal = Calendar()
            vtz = tzzone.vtimezone(cal, self.rules, minYear, maxYear)
            cal.addComponent(vtz)

            icsdata""")]
DEMO = '''
from zonal.tzconvert import tzconvert
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    f = open(os.path.join(d, "src"), "wb")
    f.write("Zone\\tDemo/Z\\t-5:00\\t-\\tA\\n\\nZone\\tDemo/Zoo\\t-6:00\\t-\\tB\\n\\n")
    f.close()
    t = tzconvert()
    t.parse(os.path.join(d, "src"))
    out = os.path.join(d, "out")
    os.mkdir(out)
    t.generateZoneinfoFiles(out, 2000, 2010, False, None, ["Demo/Z"])
    got = sorted(os.listdir(os.path.join(out, "Demo")))
finally:
    shutil.rmtree(d)
if got != ["Z.ics"]:
    print got
    sys.exit(1)
'''
