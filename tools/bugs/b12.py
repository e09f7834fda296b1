ID = "p12-duration-stays"
PROP = "P12"
NEEDS = "an event timed by a start and a duration that is then given a start and an end"
BREAKS = "the event is written with both, and reads back with its old duration"
EDITS = [("pycalendar/icalendar/componentrecur.py", """        self.mDuration = False
        self.FixStartEnd()
        # Remove existing DTSTART & DTEND & DURATION & DUE items
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
        self.removeProperties(definitions.cICalProperty_DURATION)
        self.removeProperties(definitions.cICalProperty_DUE)
""", """        self.FixStartEnd()
        # Remove existing DTSTART & DTEND & DURATION & DUE items
        self.removeProperties(definitions.cICalProperty_DTSTART)
        if self.mDuration and self.sEndProperty != definitions.cICalProperty_DTEND:
            self.removeProperties(definitions.cICalProperty_DURATION)
        else:
            self.removeProperties(definitions.cICalProperty_DTEND)
        self.removeProperties(definitions.cICalProperty_DUE)
""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200102T000000Z\\r\\nDURATION:PT1H\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
e = c.getComponents()[0]
e.editTimingStartEnd(DateTime.parseText("20200103T000000Z"), DateTime.parseText("20200103T050000Z"))
if e.hasProperty("DURATION"):
    print e
    sys.exit(1)
'''
