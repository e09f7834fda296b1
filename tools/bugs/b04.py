ID = "p04-nothing-to-normalise"
PROP = "P04"
NEEDS = "a date-time whose instant was asked for, moved by months to a date that exists there, and then asked for its instant"
BREAKS = "the instant of a date-time is that of its earlier value"
EDITS = [("pycalendar/datetime.py", """        self.mMonth += diff_month
        self.normalise()
""", """        self.mMonth += diff_month
        if not 1 <= self.mMonth <= 12 or self.mDay > 28:
            self.normalise()
""")]
DEMO = '''
from pycalendar.datetime import DateTime
a = DateTime.parseText("20200110T120000Z")
x = a.getPosixTime()
a.offsetMonth(1)
b = DateTime.parseText("20200210T120000Z")
if a.getPosixTime() != b.getPosixTime():
    print a.getPosixTime(), b.getPosixTime()
    sys.exit(1)
'''
