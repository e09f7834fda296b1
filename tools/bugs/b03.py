ID = "p03-expand-below-cache"
PROP = "P03"
NEEDS = "asking for the offset first (which fills the shared expansion cache), then for the abbreviation of a later year, then the offset again"
BREAKS = "the offset of years far ahead comes from a cache that an abbreviation query cut short"
EDITS = [("pycalendar/icalendar/vtimezoneelement.py", """            if temp > self.mCachedExpandBelow:
                self.mCachedExpandBelowItems = []
                period = Period(self.mStart, temp)
                self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                self.mCachedExpandBelow = temp

            if len(self.mCachedExpandBelowItems) != 0:
                # List comes""", """            if temp > self.mCachedExpandBelow:
                self.mCachedExpandBelowItems = []
                period = Period(below, temp) if self.mStart.getYear() < below.getYear() - 1 else Period(self.mStart, temp)
                period = Period(period.getStart() if period.getStart() == self.mStart else DateTime(below.getYear() - 1, 1, 1, 0, 0, 0), temp)
                self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                self.mCachedExpandBelow = temp

            if len(self.mCachedExpandBelowItems) != 0:
                # List comes""")]
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
ZONE = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Demo/Zone
BEGIN:STANDARD
DTSTART:20001029T020000
RRULE:FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10
TZNAME:EST
TZOFFSETFROM:-0400
TZOFFSETTO:-0500
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20010401T020000
RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=4
TZNAME:EDT
TZOFFSETFROM:-0500
TZOFFSETTO:-0400
END:DAYLIGHT
END:VTIMEZONE
END:VCALENDAR
"""
Calendar.parseText(ZONE)
tz = TimezoneDatabase.getTimezone("Demo/Zone")
early, late = DateTime(2005, 7, 1, 12, 0, 0), DateTime(2030, 7, 1, 12, 0, 0)
tz.getTimezoneDescriptor(late)
got = (tz.getTimezoneDescriptor(early), tz.getTimezoneOffsetSeconds(early))
if got != ("(EDT)", -14400):
    print "got", got
    sys.exit(1)
'''
