ID = "p20-span-else"
PROP = "P20"
NEEDS = "a VFREEBUSY without DTSTART/DTEND in which a period listed later begins before and ends after those before it, and a question about a time only that period takes"
BREAKS = "the span of the free-busy data is too short, so busy time at its end is not reported"
EDITS = [("pycalendar/icalendar/vfreebusy.py", "                                if max_end < period.getValue().getEnd():", "                                elif max_end < period.getValue().getEnd():")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.period import Period
T = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VFREEBUSY\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nFREEBUSY:20200110T100000Z/20200110T110000Z,20200110T090000Z/20200110T180000Z\\r\\nEND:VFREEBUSY\\r\\nEND:VCALENDAR\\r\\n"
c = Calendar.parseText(T)
fb = []
c.getFreeBusy(Period(DateTime.parseText("20200110T150000Z"), DateTime.parseText("20200110T160000Z")), fb)
if len(fb) == 0:
    print fb
    sys.exit(1)
'''
