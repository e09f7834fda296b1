ID = "p13-two-line-ends"
PROP = "P13"
NEEDS = "a parameter value with two line ends in a row"
BREAKS = "one of the two is lost when it is written"
EDITS = [("pycalendar/utils.py", """                    if last != '\\r':
                        encoded.append("^n")""", """                    if last != '\\r' and last != '\\n':
                        encoded.append("^n")""")]
DEMO = '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nATTENDEE;CN=a^n^nb:mailto:b\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
d = Calendar.parseText(c.getText())
if d.getComponents()[0].getProperties("ATTENDEE")[0].getParameterValue("CN") != "a\\n\\nb":
    print c
    sys.exit(1)
'''
