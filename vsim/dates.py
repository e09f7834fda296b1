"""
Independent civil-calendar arithmetic (proleptic Gregorian), used by all reference models.
Shares no code with the library.
"""


def days(y, m, d):
    """ days since 1970-01-01 """
    y -= m <= 2
    era = (y if y >= 0 else y - 399) // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil(z):
    z += 719468
    era = (z if z >= 0 else z - 146096) // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return (y + (m <= 2), m, d)


def dow(z):
    """ 0 = Sunday, as the library numbers them """
    return (z + 4) % 7


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


MD = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def mdays(y, m):
    return 29 if m == 2 and leap(y) else MD[m]


def ydays(y):
    return 366 if leap(y) else 365


def valid(y, m, d):
    return 1 <= m <= 12 and 1 <= d <= mdays(y, m)


def secs(t):
    """ wall clock tuple (y,m,d,H,M,S) -> seconds as if UTC """
    return days(t[0], t[1], t[2]) * 86400 + t[3] * 3600 + t[4] * 60 + t[5]


def wall(s):
    z, r = divmod(s, 86400)
    y, m, d = civil(z)
    return (y, m, d, r // 3600, r // 60 % 60, r % 60)


def week1(y, wkst):
    """ day number of the first day of week number 1 of year y, weeks starting on wkst (0=SU) """
    j4 = days(y, 1, 4)
    return j4 - (dow(j4) - wkst) % 7


def weekno(z, wkst):
    """ (week-year, week number) """
    y = civil(z)[0]
    for yy in (y + 1, y, y - 1):
        w = week1(yy, wkst)
        if z >= w:
            return yy, (z - w) // 7 + 1


def weeks_in_year(y, wkst):
    return (week1(y + 1, wkst) - week1(y, wkst)) // 7


def fmt(t, utc=False, date=False):
    if date:
        return "%04d%02d%02d" % (t[0], t[1], t[2])
    return "%04d%02d%02dT%02d%02d%02d%s" % (t[0], t[1], t[2], t[3], t[4], t[5], "Z" if utc else "")


def fmtsec(s, utc=False, date=False):
    return fmt(wall(s), utc, date)
