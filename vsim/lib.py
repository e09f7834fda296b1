"""
Everything the scenarios share on the library side of the seam: resetting process-wide library state,
building library values from model values, reading library values back as text.
"""
from vsim import core
from vsim import dates as D
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.parser import ParserContext
from pycalendar.icalendar.calendar import Calendar

_PARSER_DEFAULTS = dict([(k, v) for k, v in ParserContext.__dict__.items() if k.isupper() and not k.startswith("PARSER_")])


def reset():
    """ a fresh process, as far as the library's global state goes """
    TimezoneDatabase.sTimezoneDatabase = None
    Timezone.sDefaultTimezone = Timezone(utc=True)
    for k, v in _PARSER_DEFAULTS.items():
        setattr(ParserContext, k, v)


class LibScenario(core.Scenario):
    def reset(self):
        reset()

    def cleanup(self):
        reset()


def make_dt(kind, secs, tzid=None):
    """ a DateTime with the given wall clock """
    t = D.wall(secs)
    if kind == "date":
        return DateTime(t[0], t[1], t[2])
    if kind == "utc":
        return DateTime(t[0], t[1], t[2], t[3], t[4], t[5], tzid=Timezone(utc=True))
    if kind == "local":
        return DateTime(t[0], t[1], t[2], t[3], t[4], t[5], tzid=Timezone(utc=False, tzid=tzid))
    return DateTime(t[0], t[1], t[2], t[3], t[4], t[5])


def dt_wall(dt):
    return D.secs((dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds()))


def dt_desc(dt):
    """ full observable description """
    if dt is None:
        return None
    return "%s%s" % (dt.getText(), "" if not dt.getTimezoneID() else "[%s]" % (dt.getTimezoneID(),))


def install_zone(zone):
    """ hand the library a calendar holding the zone, as a user reading a file would """
    cal = Calendar.parseText(zone.calendar())
    if cal is None:
        raise core.Violation("setup-parse", "a valid VTIMEZONE was refused:\n%s" % (zone.calendar(),))
    return cal
