ID = "p18-until-in-standard-time"
PROP = "P18"
NEEDS = "a zone line that ends at a time of day given in standard time, while daylight saving time is in effect"
BREAKS = "the change at its end comes an hour early"
EDITS = [("zonal/zone.py", """            lastUntilDateUTC = lastUntilDate.getUTC(last_offset, last_stdoffset)
""", """            lastUntilDateUTC = lastUntilDate.getUTC(last_offset, last_offset)
""")]
DEMO = '''
from zonal.tzconvert import tzconvert
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    f = open(os.path.join(d, "src"), "wb")
    f.write("Rule\\tDemo\\t1980\\t1995\\t-\\tApr\\t1\\t2:00\\t1:00\\tD\\nRule\\tDemo\\t1980\\t1995\\t-\\tOct\\t1\\t2:00\\t0\\tS\\nZone\\tDemo/Z\\t-5:00\\tDemo\\tE%sT\\t1990\\tJul\\t1\\t2:00s\\n\\t\\t\\t-8:00\\t-\\tPST\\n\\n")
    f.close()
    t = tzconvert()
    t.parse(os.path.join(d, "src"))
finally:
    shutil.rmtree(d)
got = [i[0].getText() for i in t.expandZone("Demo/Z", 1990, 1995)]
if "19900701T020000" not in got:
    print got
    sys.exit(1)
'''
