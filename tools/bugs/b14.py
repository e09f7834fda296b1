ID = "p14-one-of-equals"
PROP = "P14"
NEEDS = "a copy of an overridden instance added to the calendar that holds it, and then the first of the two removed"
BREAKS = "the calendar holds an overridden instance it does not know by its UID"
EDITS = [("pycalendar/icalendar/calendar.py", """                self.mOverriddenComponentsByUID[uid].append(component)
""", """                if component not in self.mOverriddenComponentsByUID[uid]:
                    self.mOverriddenComponentsByUID[uid].append(component)
""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
V = "BEGIN:VEVENT\\r\\nUID:%s\\r\\nDTSTAMP:20200101T000000Z\\r\\nRECURRENCE-ID:2020010%dT000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nEND:VEVENT\\r\\n"
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n" + V % ("a", 1) + "END:VCALENDAR\\r\\n")
one = c.getComponents()[0]
c.addComponent(one.duplicate(c))
c.removeComponent(one)
ids = []
c.getRecurrenceInstancesIds("VEVENT", "a", ids)
if len(ids) != 1 or len(c.getComponents()) != 1:
    print ids
    sys.exit(1)
'''
