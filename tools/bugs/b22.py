ID = "p22-interval-nothing"
PROP = "P22"
NEEDS = "a recurrence rule damaged to INTERVAL=0, expanded"
BREAKS = "it is accepted, and expanding it never ends"
EDITS = [("pycalendar/icalendar/recurrence.py", """                if self.mInterval < 1:
                    raise""", """                if self.mInterval < 0:
                    raise""")]
DEMO = '''
import threading, os
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.period import Period
done = []
def run():
    try:
        c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nRRULE:FREQ=DAILY;INTERVAL=0\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
        c.getComponents()[0].expandPeriod(Period(DateTime.parseText("20200101"), DateTime.parseText("20200110")), [])
    except Exception, e:
        print type(e)
    done.append(1)
t = threading.Thread(target=run)
t.setDaemon(True)
t.start()
t.join(30)
sys.stdout.flush()
os._exit(0 if done else 1)
'''
