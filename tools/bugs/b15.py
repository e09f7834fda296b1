ID = "p15-first-of-each"
PROP = "P15"
NEEDS = "a property that may be there several times, with a value that is not allowed in another than the first"
BREAKS = "validation does not report it"
EDITS = [("pycalendar/componentbase.py", """                for property in properties:
                    propname = property.getName().upper()
                    if propname in self.propertyValueChecks:""", """                for property in properties[:1]:
                    propname = property.getName().upper()
                    if propname in self.propertyValueChecks:""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nPRIORITY:1\\r\\nPRIORITY:77\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
fixed, unfixed = c.validate()
if not [i for i in unfixed if "alue" in i]:
    print fixed, unfixed
    sys.exit(1)
'''
