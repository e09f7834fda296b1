ID = "p08-database-zone-itself"
PROP = "P08"
NEEDS = "a calendar written with a zone it refers to but does not define, and the definition in that calendar changed afterwards (or the calendar's zones stripped)"
BREAKS = "the definition in the calendar is the one of the database: changing it changes the time zone for everybody"
EDITS = [("pycalendar/icalendar/calendar.py", """                    dup = tz.duplicate()
                    self.addComponent(dup)
""", """                    dup = tz if tz.getParentComponent() is None or len(tz.getComponents()) == 1 else tz.duplicate()
                    self.addComponent(dup)
""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
Z = "BEGIN:VTIMEZONE\\r\\nTZID:Demo/Z\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\nTZOFFSETFROM:+0100\\r\\nTZOFFSETTO:+0100\\r\\nTZNAME:X\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\n"
H = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n"
Calendar.parseText(H + Z + "END:VCALENDAR\\r\\n")
c = Calendar.parseText(H + "BEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART;TZID=Demo/Z:20200101T000000\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
c.getText(includeTimezones=Calendar.ALL_TIMEZONES)
for z in c.getComponents("VTIMEZONE"):
    z.removeProperties("TZID")
    z.removeComponent(z.getComponents()[0])
z = TimezoneDatabase.getTimezone("Demo/Z")
if len(z.getComponents()) != 1 or not z.hasProperty("TZID"):
    print z
    sys.exit(1)
'''
