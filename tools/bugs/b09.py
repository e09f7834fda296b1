ID = "p09-fold-after-blank"
PROP = "P09"
NEEDS = "a continuation line that consists of the fold character only, in the middle of a long folded line"
BREAKS = "the rest of a line folded with an empty continuation is lost or refused"
EDITS = [("pycalendar/utils.py", """        if lines[1][0].isspace():
""", """        if lines[1][0].isspace() and lines[1].strip():
""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
T = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nX-WR-CALNAME:one\\r\\n  \\r\\n two\\r\\nEND:VCALENDAR\\r\\n"
try:
    c = Calendar.parseText(T)
    got = c.getPropertyString("X-WR-CALNAME")
except Exception as e:
    got = repr(e)
if got != "one two":
    print "got", repr(got)
    sys.exit(1)
'''
