ID = "p21-day-old-completes"
PROP = "P21"
NEEDS = "an alarm with repetitions further apart than a day, all of them passed but the last, asked between a day after one repetition and the next"
BREAKS = "the alarm is completed with repetitions still to come"
EDITS = [("pycalendar/icalendar/valarm.py", """            if self.mDoneCount == self.mRepeats:
                self.mAlarmStatus = definitions.eAlarm_Status_Completed
""", """            if self.mDoneCount >= self.mRepeats - 1 and (self.mDoneCount == self.mRepeats or trigger > self.mLastTrigger):
                self.mAlarmStatus = definitions.eAlarm_Status_Completed
""")]
DEMO = '''
class Clock(object):
    now = 0
    @staticmethod
    def time():
        return Clock.now
    @staticmethod
    def localtime(t=None):
        return real.localtime(Clock.now if t is None else t)
    @staticmethod
    def gmtime(t=None):
        return real.gmtime(Clock.now if t is None else t)
    @staticmethod
    def mktime(t):
        return real.mktime(t)
import time as real, calendar
from pycalendar import datetime
datetime.time = Clock
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.datetime import DateTime
T = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200110T000000Z\\r\\nBEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:x\\r\\nTRIGGER:PT0S\\r\\nREPEAT:2\\r\\nDURATION:P2D\\r\\nEND:VALARM\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n"
c = Calendar.parseText(T)
Clock.now = calendar.timegm((2020, 1, 13, 12, 0, 0, 0, 0, 0))
a = c.getComponents()[0].getComponents()[0]
dt = DateTime()
a.getNextTrigger(dt)
if a.getAlarmStatus() == definitions.eAlarm_Status_Completed or dt.getText() != "20200114T000000Z":
    print a.getAlarmStatus(), dt.getText()
    sys.exit(1)
'''
