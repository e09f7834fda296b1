ID = "p10-merge-as-you-go"
PROP = "P10"
NEEDS = "a calendar whose text is refused (or whose stream fails) after the first VTIMEZONE was complete"
BREAKS = "time zones of data that was refused stay in the process-wide database and decide later conversions"
EDITS = [("pycalendar/icalendar/calendar.py", """        super(Calendar, self).addComponent(component)

        if isinstance(component, ComponentRecur):
            uid""", """        super(Calendar, self).addComponent(component)

        if component.getType() == definitions.cICalComponent_VTIMEZONE and component.getID():
            from pycalendar.timezonedb import TimezoneDatabase
            TimezoneDatabase.mergeTimezones(self, (component,))
        elif isinstance(component, ComponentRecur):
            uid""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
T = """BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:Demo/Broken
BEGIN:STANDARD
DTSTART:20001029T020000
TZOFFSETFROM:-0400
TZOFFSETTO:-0500
END:STANDARD
END:VTIMEZONE
BEGIN:VEVENT
UID:1
DTSTAMP:20200101T000000Z
DTSTART:garbage
END:VEVENT
END:VCALENDAR
"""
try:
    Calendar.parseText(T)
except Exception:
    pass
if TimezoneDatabase.getTimezone("Demo/Broken") is not None:
    print "zone left behind"
    sys.exit(1)
'''
