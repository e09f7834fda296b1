ID = "p19-old-uid-stays"
PROP = "P19"
NEEDS = "a component that has a UID asked for a new one, then written or read again"
BREAKS = "the component has two UIDs"
EDITS = [("pycalendar/icalendar/component.py", """        self.removeProperties(definitions.cICalProperty_UID)

        prop = Property(definitions.cICalProperty_UID, self.mUID)""", """        if uid:
            self.removeProperties(definitions.cICalProperty_UID)

        prop = Property(definitions.cICalProperty_UID, self.mUID)""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
c.getComponents()[0].setUID("")
if len(c.getComponents()[0].getProperties("UID")) != 1:
    print c
    sys.exit(1)
'''
