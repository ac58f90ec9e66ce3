# -*- coding: utf-8 -*-
"""C08 civil calendar: every date/time value agrees with the Gregorian calendar through any history of edits."""
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.timezone import Timezone
from pycalendar.icalendar import definitions
from refcal import *

RULE = ("random walks of 4-14 calendar edits (field sets, offsets, duration arithmetic, week/month/year-day moves) over dates of 1753-9990, biased to century, "
        "leap-day, month and ISO-week-year boundaries, each step compared in every derived field with a reference calendar; plus sweeps of "
        "whole years; a case is non-trivial when distinct start and operation list")
REQUIRE = {"steps": 2000, "ops": 18, "swept_days": 2000}
PLAN = [("walk", 4800, 160000), ("sweep", 480, 3200), ("textform", 1600, 40000), ("span", 1600, 40000), ("weekset", 1200, 30000)]
FREQS = {"S": definitions.eRecurrence_SECONDLY, "M": definitions.eRecurrence_MINUTELY, "H": definitions.eRecurrence_HOURLY,
         "D": definitions.eRecurrence_DAILY, "W": definitions.eRecurrence_WEEKLY, "MO": definitions.eRecurrence_MONTHLY, "Y": definitions.eRecurrence_YEARLY}


def mk(r, utc=False, dateonly=False):
    tz = Timezone(utc=True) if utc else Timezone(utc=False)
    if dateonly:
        return DateTime(r.year, r.month, r.day)
    return DateTime(r.year, r.month, r.day, r.hour, r.minute, r.second, tzid=tz)


def fields(x):
    return (x.getYear(), x.getMonth(), x.getDay(), x.getHours(), x.getMinutes(), x.getSeconds())


def compare(ctx, x, r, utc, dateonly, hist, posixread=True):
    want = (r.year, r.month, r.day, r.hour, r.minute, r.second)
    ok = ctx.eq(fields(x), want, "fields-after-%s" % hist[-1][0], "fields after %r" % (hist,))
    if not ok:
        return False
    ok = ctx.eq(x.getDayOfWeek(), dow(r), "day-of-week", "day of week of %s after %r" % (r, hist)) and ok
    ok = ctx.eq(x.getYearDay(), yday(r), "year-day", "year day of %s" % r) and ok
    ok = ctx.eq(x.getWeekNo(), weekno(r), "week-number", "ISO week of %s" % r) and ok
    ok = ctx.eq(bool(x.invalid()), False, "invalid-flag", "invalid() of %s" % r) and ok
    if posixread:
        ok = ctx.eq(x.getPosixTime(), posix(r), "posix-time", "epoch seconds of %s after %r" % (r, hist)) and ok
    ok = ctx.eq(x.getText(), txt(r, utc, dateonly), "text", "text of %s" % r) and ok
    return ok


def walk(ctx, rng, i):
    dateonly = rng.random() < 0.2
    utc = not dateonly and rng.random() < 0.5
    r = rand_dt(rng, 1780, 9900)
    if dateonly:
        r = r.replace(hour=0, minute=0, second=0)
    x = mk(r, utc, dateonly)
    hist = [("start", str(r))]
    if not compare(ctx, x, r, utc, dateonly, hist):
        return
    for _step in range(rng.randint(4, 14)):
        before = r
        op = rng.choice(["offY", "offMo", "offD", "offH", "offMi", "offS", "add", "sub", "md", "yd", "wdm", "wdy", "next",
                         "recS", "recM", "recH", "recD", "recW", "recMO", "recY", "set", "sett", "dup", "yset", "hms"])
        if dateonly and op in ("offH", "offMi", "offS", "sett", "recS", "recM", "recH", "hms"):
            op = "offD"
        if op == "offY":
            n = rng.choice([1, -1, 4, -4, 100, -100, rng.randint(-30, 30)])
            r = norm(r.year + n, r.month, r.day, r.hour, r.minute, r.second)
            x.offsetYear(n)
        elif op == "offMo":
            n = rng.choice([1, -1, 12, -12, 11, -11, 13, rng.randint(-40, 40)])
            r = norm(r.year, r.month + n, r.day, r.hour, r.minute, r.second)
            x.offsetMonth(n)
        elif op == "offD":
            n = rng.choice([1, -1, 7, -7, 30, -31, 365, -366, rng.randint(-800, 800)])
            r = r + D.timedelta(days=n)
            x.offsetDay(n)
        elif op == "offH":
            n = rng.choice([1, -1, 24, -24, 23, -25, rng.randint(-900, 900)])
            r = r + D.timedelta(hours=n)
            x.offsetHours(n)
        elif op == "offMi":
            n = rng.choice([1, -1, 60, -60, 1439, -1441, rng.randint(-9000, 9000)])
            r = r + D.timedelta(minutes=n)
            x.offsetMinutes(n)
        elif op == "offS":
            n = rng.choice([1, -1, 60, -60, 86400, -86401, rng.randint(-900000, 900000)])
            r = r + D.timedelta(seconds=n)
            x.offsetSeconds(n)
        elif op in ("add", "sub"):
            if dateonly:
                n = 86400 * rng.randint(-500, 500)
            else:
                n = rng.choice([rng.randint(-100000, 100000), 86400 * rng.randint(-40, 40), rng.randint(-10 ** 8, 10 ** 8), 604800 * rng.randint(-9, 9)])
            dur = Duration(duration=n)
            old = fields(x)
            if op == "add":
                y = x + dur
                r = r + D.timedelta(seconds=n)
            else:
                y = x - dur
                r = r - D.timedelta(seconds=n)
            ctx.eq(fields(x), old, "arith-mutates-operand", "operand of %s" % op)
            x = y
        elif op == "md":
            n = rng.choice([1, -1, 15, 28, 29, 30, 31, -28, -29, -30, -31, rng.randint(1, 31), -rng.randint(1, 31)])
            inv = rng.random() < 0.3
            if n > 0:
                day = n
            else:
                day = mdays(r.year, r.month) + n + 1
            if inv:
                y = x.duplicate()
                y.setMonthDay(n, allow_invalid=True)
                ctx.eq(bool(y.invalid()), not (1 <= day <= mdays(r.year, r.month)), "invalid-flag", "invalid() after month day %d in %s" % (n, r))
                ctx.eq((y.getYear(), y.getMonth(), y.getDay()), (r.year, r.month, day), "allow-invalid-month-day", "month day %d in %s" % (n, r))
            r = norm(r.year, r.month, day, r.hour, r.minute, r.second)
            x.setMonthDay(n)
            if 1 <= day <= mdays(before.year, before.month):
                ctx.check(x.isMonthDay(n), "is-month-day", "isMonthDay(%d) false after setting it on %s" % (n, before))
        elif op == "yd":
            n = rng.choice([1, -1, 59, 60, 61, 365, 366, -365, -366, rng.randint(1, 366), -rng.randint(1, 366)])
            length = 366 if leap(r.year) else 365
            if n > 0:
                r = norm(r.year, 1, n, r.hour, r.minute, r.second)
            else:
                r = norm(r.year, 12, 31 + n + 1, r.hour, r.minute, r.second)
            x.setYearDay(n)
        elif op == "wdm":
            n, wd = rng.choice([1, 2, 3, 4, 5, -1, -2, -3, -4, -5]), rng.randint(0, 6)
            d = nth_dow_in_month(r.year, r.month, n, wd)
            r = D.datetime(d.year, d.month, d.day, r.hour, r.minute, r.second)
            x.setDayOfWeekInMonth(n, wd)
            if (d.year, d.month) == (before.year, before.month):
                ctx.check(x.isDayOfWeekInMonth(n, wd), "is-dow-in-month", "isDayOfWeekInMonth(%d,%d) false on %s" % (n, wd, d))
            o = rng.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5])
            w2 = rng.choice([wd, rng.randint(0, 6)])
            want = dow(d) == w2 and (o == 0 or nth_dow_in_month(d.year, d.month, o, w2) == d)
            ctx.eq(bool(x.isDayOfWeekInMonth(o, w2)), want, "is-dow-in-month", "isDayOfWeekInMonth(%d,%d) on %s" % (o, w2, d))
        elif op == "wdy":
            n, wd = rng.choice([1, 2, 10, 26, 52, 53, -1, -2, -20, -52, -53, rng.randint(1, 53), -rng.randint(1, 53)]), rng.randint(0, 6)
            d = nth_dow_in_year(r.year, n, wd)
            r = D.datetime(d.year, d.month, d.day, r.hour, r.minute, r.second)
            x.setDayOfWeekInYear(n, wd)
        elif op == "next":
            st, wd = rng.randint(1, 28), rng.randint(0, 6)
            d = D.date(r.year, r.month, st)
            d = d + D.timedelta((wd - dow(d)) % 7)
            r = D.datetime(d.year, d.month, d.day, r.hour, r.minute, r.second)
            x.setNextDayOfWeek(st, wd)
        elif op.startswith("rec"):
            f = op[3:]
            n = rng.choice([1, 1, 2, 3, 5, rng.randint(1, 30)])
            x.recur(FREQS[f], n)
            if f in "SMHDW" and f != "MO":
                r = r + D.timedelta(seconds=n * {"S": 1, "M": 60, "H": 3600, "D": 86400, "W": 604800}[f])
            elif f == "MO":
                y, m = r.year, r.month
                while True:
                    m += n
                    y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
                    if r.day <= mdays(y, m):
                        break
                r = r.replace(year=y, month=m)
            else:
                r = norm(r.year + n, r.month, r.day, r.hour, r.minute, r.second)
        elif op == "set":
            d = rand_date(rng, 1780, 9900)
            if rng.random() < 0.5:
                x.setYYMMDD(d.year, d.month, d.day)
            else:
                x.setYear(d.year)
                x.setMonth(d.month)
                x.setDay(d.day)
            r = D.datetime(d.year, d.month, d.day, r.hour, r.minute, r.second)
        elif op == "sett":
            h = (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
            k = rng.randint(0, 3)
            if k == 0:
                x.setHHMMSS(*h)
                r = r.replace(hour=h[0], minute=h[1], second=h[2])
            elif k == 1:
                x.setHours(h[0])
                r = r.replace(hour=h[0])
            elif k == 2:
                x.setMinutes(h[1])
                r = r.replace(minute=h[1])
            else:
                x.setSeconds(h[2])
                r = r.replace(second=h[2])
        elif op == "hms":
            x.setHHMMSS(r.hour, r.minute, r.second)
        elif op == "yset":
            # one field at a time, keeping the date valid
            y = r.year + rng.randint(-9, 9)
            if r.month == 2 and r.day == 29:
                y = r.year
            x.setYear(y)
            r = r.replace(year=y)
        elif op == "dup":
            y = x.duplicate()
            x.offsetDay(rng.randint(1, 400))
            ctx.eq(fields(y), (r.year, r.month, r.day, r.hour, r.minute, r.second), "duplicate-shares", "copy changed with the original %s" % r)
            ctx.eq(y.getPosixTime(), posix(r), "duplicate-shares", "epoch of the copy")
            x = y
        if not 1760 < r.year < 9950:
            return
        hist.append((op, str(r)))
        ctx.mark("ops", op)
        ctx.count("steps")
        # sometimes leave the derived values unread, so that stale caches can survive into later steps
        if not compare(ctx, x, r, utc, dateonly, hist, rng.random() < 0.6):
            return
    ctx.seen(tuple(hist), True, hist)


def sweep(ctx, rng, i):
    y = 1754 + (i * 7 + ctx.seed * 3) % 1200 if i % 2 == 0 else 1900 + (i * 11 + ctx.seed) % 260
    if i < 40:
        y = [1800, 1900, 2000, 2100, 2200, 2300, 2400, 1970, 1971, 1972, 1969, 1968, 1753, 1754, 1756, 1899, 1901, 1999, 2001, 2099, 2101, 2004,
             2008, 2009, 2010, 2012, 2015, 2016, 2020, 2021, 2022, 2024, 2026, 2032, 2048, 9990, 2500, 3000, 4000, 8000][i]
    last = D.date(y, 12, 31)
    d = D.date(y, 1, 1)
    # whole year in the first cases, boundaries otherwise
    full = i < 24 or ctx.tier == "thorough"
    days = []
    while d <= last:
        if full or d.month in (1, 12) and (d.day < 8 or d.day > 24) or (d.month in (2, 3) and (d.day > 26 or d.day < 3)) or rng.random() < 0.02:
            days.append(d)
        d += D.timedelta(1)
    for d in days:
        x = DateTime(d.year, d.month, d.day)
        ctx.eq(x.getDayOfWeek(), dow(d), "day-of-week", "day of week of %s" % d)
        ctx.eq(x.getYearDay(), yday(d), "year-day", "year day of %s" % d)
        ctx.eq(x.getWeekNo(), weekno(d), "week-number", "week of %s" % d)
        ctx.eq(bool(x.isWeekNo(weekno(d))), True, "week-number", "isWeekNo of %s" % d)
        ctx.eq(x.daysSince1970(), d.toordinal() - D.date(1970, 1, 1).toordinal(), "days-since-1970", "days since epoch of %s" % d)
        ctx.count("swept_days")
        z = DateTime(d.year, d.month, d.day)
        z.setYearDay(yday(d))
        ctx.eq((z.getMonth(), z.getDay()), (d.month, d.day), "year-day", "set year day of %s" % d)
        z.setYearDay(yday(d) - (367 if leap(d.year) else 366))
        ctx.eq((z.getMonth(), z.getDay()), (d.month, d.day), "year-day", "set negative year day of %s" % d)
        ctx.check(x.isMonthDay(d.day) and x.isMonthDay(d.day - 1 - mdays(d.year, d.month)), "is-month-day", "isMonthDay of %s" % d)
        ctx.check(not x.isMonthDay(d.day + 1) and not x.isMonthDay(d.day - 2 - mdays(d.year, d.month)), "is-month-day", "wrong isMonthDay of %s" % d)
    ctx.seen((y, full), True, "year %d, %d days" % (y, len(days)))


def weekset(ctx, rng, i):
    d = rand_date(rng, 1760, 9900)
    iso = d.isocalendar()
    if iso[0] != d.year:
        d = D.date(d.year, 6, d.day if d.day < 31 else 30)
        iso = d.isocalendar()
    w = rng.choice([1, 2, 26, 51, 52, weeks_in(d.year), rng.randint(1, weeks_in(d.year))])
    want = from_iso(d.year, w, iso[2])
    x = DateTime(d.year, d.month, d.day, 10, 20, 30)
    x.setWeekNo(w)
    ctx.eq((x.getYear(), x.getMonth(), x.getDay(), x.getHours()), (want.year, want.month, want.day, 10), "set-week-number", "week %d of %s" % (w, d))
    ctx.seen((d, w), True, "week %d of %s -> %s" % (w, d, want))


def textform(ctx, rng, i):
    r = rand_dt(rng)
    dateonly = rng.random() < 0.3
    utc = not dateonly and rng.random() < 0.5
    off = None
    s, xs = txt(r, utc, dateonly), xtxt(r, utc, dateonly)
    x = DateTime.parseText(s)
    y = DateTime.parseText(xs, fullISO=True)
    z = DateTime.parseText(s, fullISO=True)
    for v, src in ((x, s), (y, xs), (z, s)):
        rr = r.replace(hour=0, minute=0, second=0) if dateonly else r
        ctx.eq(fields(v), (rr.year, rr.month, rr.day, rr.hour, rr.minute, rr.second), "parse-fields", "fields parsed from %s" % src)
        ctx.eq(v.isDateOnly(), dateonly, "parse-kind", "date-only of %s" % src)
        ctx.eq(bool(v.utc()), utc, "parse-kind", "utc of %s" % src)
        ctx.eq(v.getText(), s, "text", "text of %s" % src)
        ctx.eq(v.getXMLText(), xs, "xml-text", "XML text of %s" % src)
        ctx.eq(v.getPosixTime(), posix(rr), "posix-time", "epoch of %s" % src)
        ctx.eq(v.getDayOfWeek(), dow(rr), "day-of-week", "day of week of %s" % src)
    if not dateonly:
        # basic format with a numeric UTC offset (vCard)
        o = rng.choice([0, 60, -300, 330, -210, 840, -720, 345, 5, -5])
        if o:
            t = "%s%s%02d%02d" % (txt(r), "-" if o < 0 else "+", abs(o) // 60, abs(o) % 60)
            v = DateTime.parseText(t, fullISO=True)
            ctx.eq(v.getText(), t, "offset-text", "text of %s" % t)
            ctx.eq(v.getPosixTime(), posix(r) - o * 60, "offset-posix", "epoch of %s" % t)
            u = v.duplicateAsUTC()
            ur = r - D.timedelta(minutes=o)
            ctx.eq(u.getText(), txt(ur, True), "offset-to-utc", "UTC of %s" % t)
            ctx.eq(u.getPosixTime(), posix(r) - o * 60, "offset-to-utc", "epoch of the UTC of %s" % t)
            t2 = "%s%s%02d:%02d" % (xtxt(r), "-" if o < 0 else "+", abs(o) // 60, abs(o) % 60)
            ctx.eq(DateTime.parseText(t2, fullISO=True).getText(), t, "offset-text", "text of %s" % t2)
            ctx.eq(v.getXMLText(), t2, "offset-xml-text", "XML text of %s" % t)
    # display forms
    mon = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"][r.month - 1]
    day = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"][dow(r)]
    ctx.eq(x.getLocaleDate(DateTime.FULLDATE), "%s, %s %d, %d" % (day, mon, r.day, r.year), "display", "full date of %s" % s)
    ctx.eq(x.getLocaleDate(DateTime.ABBREVDATE), "%s, %s %d, %d" % (day[:3], mon[:3], r.day, r.year), "display", "abbreviated date of %s" % s)
    ctx.eq(x.getLocaleDate(DateTime.NUMERICDATE), "%d/%d/%d" % (r.month, r.day, r.year), "display", "numeric date of %s" % s)
    if not dateonly:
        ctx.eq(x.getTime(True, False, False), "%02d:%02d:%02d" % (r.hour, r.minute, r.second), "display", "24h time of %s" % s)
        ctx.eq(x.getTime(False, True, False), "%d:%02d %s" % ((r.hour + 11) % 12 + 1, r.minute, "AM" if r.hour < 12 else "PM"), "display", "12h time of %s" % s)
    ctx.seen((s,), True, s)


def span(ctx, rng, i):
    a = rand_dt(rng)
    b = rand_dt(rng, max(1753, a.year - 250), min(9990, a.year + 250)) if rng.random() < 0.5 else a + D.timedelta(seconds=rng.choice([0, 1, -1, 86400, -86400, rng.randint(-10 ** 6, 10 ** 6)]))
    if not (1753 <= b.year < 9999):
        raise_skip()
    utc = rng.random() < 0.5
    dateonly = not utc and rng.random() < 0.3
    if dateonly:
        a, b = a.replace(hour=0, minute=0, second=0), b.replace(hour=0, minute=0, second=0)
    x, y = mk(a, utc, dateonly), mk(b, utc, dateonly)
    dur = y - x
    ctx.eq(dur.getTotalSeconds(), secs(b - a), "difference", "%s - %s" % (b, a))
    ctx.eq(fields(x + dur), fields(y), "difference-inverse", "%s + (%s - %s)" % (a, b, a))
    ctx.eq(fields(y - dur), fields(x), "difference-inverse", "%s - (%s - %s)" % (b, b, a))
    ctx.eq(fields(x), (a.year, a.month, a.day, a.hour, a.minute, a.second), "arith-mutates-operand", "operand")
    ctx.seen((a, b, utc, dateonly), a != b, "%s .. %s" % (a, b))


def raise_skip():
    from vskip import Skip
    raise Skip()
