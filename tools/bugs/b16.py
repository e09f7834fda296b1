ID = "p16-month-table-january"
PROP = "P16"
NEEDS = "a table of a month that shows days of the month before, in which the clock is"
BREAKS = "the day it is now is marked in another row or not at all"
EDITS = [("pycalendar/utils.py", """                today_index = [0, back_col]
""", """                today_index = [row, back_col]
""")]
DEMO = '''
class Clock(object):
    now = 0
    @staticmethod
    def time():
        return Clock.now
    @staticmethod
    def localtime(t=None):
        return real.localtime(Clock.now if t is None else t)
    @staticmethod
    def gmtime(t=None):
        return real.gmtime(Clock.now if t is None else t)
    @staticmethod
    def mktime(t):
        return real.mktime(t)
import time as real, calendar
from pycalendar import datetime
datetime.time = Clock
Clock.now = calendar.timegm((2020, 1, 31, 12, 0, 0, 0, 0, 0))
from pycalendar import utils
t, i = utils.getMonthTable(2, 2020, 0, None, None)
if i != [0, 5]:
    print i
    sys.exit(1)
'''
