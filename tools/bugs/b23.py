ID = "p23-from-the-end"
PROP = "P23"
NEEDS = "a rule with a day of the week counted from the end, written as XML"
BREAKS = "the XML says every such day"
EDITS = [("pycalendar/icalendar/recurrence.py", """                byday = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_byday))
                data = ""
                if iter[0] != 0:""", """                byday = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_byday))
                data = ""
                if iter[0] > 0:""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nRRULE:FREQ=MONTHLY;BYDAY=-1SU\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
t = c.getTextXML()
if "-1SU" not in t:
    print t
    sys.exit(1)
'''
