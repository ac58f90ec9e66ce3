# -*- coding: utf-8 -*-
"""Reference calendar: written on the standard library's proleptic Gregorian dates only."""
import datetime as D

EPOCH = D.datetime(1970, 1, 1)


def floordiv(a, b):
    return a // b


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return 29 if m == 2 and leap(y) else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def norm(y, mo, d, h=0, mi=0, s=0):
    """normalised datetime: months roll into years first, then everything else is an offset in time"""
    m0 = mo - 1
    y += m0 // 12
    mo = m0 % 12 + 1
    return D.datetime(y, mo, 1) + D.timedelta(days=d - 1, seconds=h * 3600 + mi * 60 + s)


def secs(td):
    return td.days * 86400 + td.seconds


def posix(dt):
    return secs(dt - EPOCH)


def dow(dt):
    """0 = Sunday"""
    return dt.isoweekday() % 7


def yday(dt):
    return (dt.date() if isinstance(dt, D.datetime) else dt).toordinal() - D.date(dt.year, 1, 1).toordinal() + 1


def weekno(dt):
    return dt.isocalendar()[1]


def nth_dow_in_month(y, m, n, wd):
    """date of the n-th weekday wd (0=Sunday) of a month, n may be negative, may run out of the month"""
    if n > 0:
        first = D.date(y, m, 1)
        return first + D.timedelta((wd - dow(first)) % 7 + 7 * (n - 1))
    last = D.date(y, m, mdays(y, m))
    return last - D.timedelta((dow(last) - wd) % 7 + 7 * (-n - 1))


def nth_dow_in_year(y, n, wd):
    if n > 0:
        first = D.date(y, 1, 1)
        return first + D.timedelta((wd - dow(first)) % 7 + 7 * (n - 1))
    last = D.date(y, 12, 31)
    return last - D.timedelta((dow(last) - wd) % 7 + 7 * (-n - 1))


def from_iso(y, w, isodow):
    jan4 = D.date(y, 1, 4)
    return jan4 - D.timedelta(jan4.isoweekday() - 1) + D.timedelta((w - 1) * 7 + isodow - 1)


def weeks_in(y):
    return D.date(y, 12, 28).isocalendar()[1]


def txt(dt, utc=False, dateonly=False):
    if dateonly:
        return "%04d%02d%02d" % (dt.year, dt.month, dt.day)
    return "%04d%02d%02dT%02d%02d%02d%s" % (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, "Z" if utc else "")


def xtxt(dt, utc=False, dateonly=False):
    if dateonly:
        return "%04d-%02d-%02d" % (dt.year, dt.month, dt.day)
    return "%04d-%02d-%02dT%02d:%02d:%02d%s" % (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, "Z" if utc else "")


def rand_date(rng, lo=1753, hi=9990):
    r = rng.random()
    if r < 0.55:
        y = rng.randint(max(lo, 1900), min(hi, 2200)) if lo < 2150 and hi > 1950 else rng.randint(lo, hi)
    elif r < 0.75:
        # century and leap boundaries
        y = rng.choice([1800, 1900, 2000, 2100, 2200, 2300, 2400, 1970, 1971, 1972, 1968, 1969, 2096, 2104]) + rng.randint(-2, 2)
        y = min(max(y, lo), hi)
    else:
        y = rng.randint(lo, hi)
    r = rng.random()
    if r < 0.25:
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (2, 29), (1, 31), (12, 25), (12, 29), (1, 3), (1, 4), (12, 28), (12, 30), (1, 2), (4, 30), (5, 31), (10, 31)])
        if (m, d) == (2, 29) and not leap(y):
            d = 28
        return D.date(y, m, d)
    m = rng.randint(1, 12)
    return D.date(y, m, rng.randint(1, mdays(y, m)))


def rand_dt(rng, lo=1753, hi=9990):
    d = rand_date(rng, lo, hi)
    r = rng.random()
    if r < 0.15:
        h, mi, s = 0, 0, 0
    elif r < 0.3:
        h, mi, s = 23, 59, 59
    else:
        h, mi, s = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
    return D.datetime(d.year, d.month, d.day, h, mi, s)
