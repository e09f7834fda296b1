ID = "p05-shared-parameter-values"
PROP = "P05"
NEEDS = "a property parameter with values that is duplicated and then gets a further value (or loses one)"
BREAKS = "adding a value to a parameter of a duplicate also adds it to the original"
EDITS = [("pycalendar/parameter.py", "        other.mValues = self.mValues[:]", "        other.mValues = self.mValues")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nATTENDEE;MEMBER=\\"mailto:a\\":mailto:b\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
t = c.getText()
d = c.duplicate()
d.getComponents()[0].getProperties("ATTENDEE")[0].getParameters()["MEMBER"][0].addValue("mailto:z")
if c.getText() != t:
    print c.getText()
    sys.exit(1)
'''
