ID = "p01-setpos-per-interval"
PROP = "P01"
NEEDS = "a rule with a negative BYSETPOS larger than 1 in size whose set is sometimes exactly as long as the position"
BREAKS = "BYSETPOS=-n picks nothing when the set has exactly n members"
EDITS = [("pycalendar/icalendar/recurrence.py", "                if -iter <= input_size:", "                if -iter < input_size:")]
DEMO = '''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence()
r.parse("FREQ=MONTHLY;BYDAY=MO;BYSETPOS=-5")
items = []
r.expand(DateTime(2024, 1, 1, 9, 0, 0), Period(DateTime(2024, 1, 1), DateTime(2025, 1, 1)), items)
got = [i.getText() for i in items]
want = ["20240101T090000", "20240401T090000", "20240701T090000", "20240902T090000", "20241202T090000"]
if got != want:
    print "got", got
    sys.exit(1)
'''
