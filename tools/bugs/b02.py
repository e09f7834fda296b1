ID = "p02-starts-at-the-end"
PROP = "P02"
NEEDS = "an event that does not recur (or an override) and starts exactly when the window ends"
BREAKS = "the window holds an event that does not take place in it, so adjoining windows both have it"
EDITS = [("pycalendar/icalendar/componentrecur.py", "self.mStart >= period.getEnd()", "period.getEnd() < self.mStart")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.period import Period
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200102T000000Z\\r\\nDTEND:20200102T010000Z\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
l = []
c.getVEvents(Period(DateTime.parseText("20200101T000000Z"), DateTime.parseText("20200102T000000Z")), l)
if l:
    print l
    sys.exit(1)
'''
