# -*- coding: utf-8 -*-
"""C11: timezone offsets, names, onsets and conversions are those the VTIMEZONE data defines."""
import datetime as D
import time
import reftz
from refcal import posix
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.manager import CalendarManager
from vskip import Skip

RULE = ("random zone histories (1-4 eras of yearly rules, listed dates or none, northern and southern summer time, half-hour and two-hour shifts, standard-offset changes, local mean time with seconds, unnamed observances, "
        "observances written in any order), asked at instants and local times at, just before and just after onsets, inside gaps and overlaps and far away; offsets both ways, names, onset lists  between zones compared with the zone's own list of onsets; distinct by zone text and questions")
REQUIRE = {"utc_asked": 2500, "local_asked": 2500, "gaps": 100, "ambiguous": 100, "names": 800, "unnamed": 60, "conversions": 1500, "between": 400, "onset_lists": 100, "onsets_compared": 1000, "shapes": 4, "dates_converted": 300, "of_default": 600, "default_changed": 300, "onto_default": 150}
ASSUMPTIONS = ["nothing is claimed before a zone's first onset", "a skipped local time has the offset from before the gap and an ambiguous one its first meaning (RFC 5545 3.3.5)"]
PLAN = [("zones", 400, 14000), ("convert", 240, 8000), ("default", 90, 3000)]


def load(zones, rng=None):
    TimezoneDatabase.clearTimezoneDatabase()
    text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//verif//EN\r\n%sEND:VCALENDAR\r\n" % "".join(z.text(rng) for z in zones)
    return Calendar.parseText(text), text


def floating(t):
    return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=False))


def zoned(t, tzid):
    return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=False, tzid=tzid))


def utc(t):
    return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=True))


def fields(x):
    return D.datetime(x.getYear(), x.getMonth(), x.getDay(), x.getHours(), x.getMinutes(), x.getSeconds())


def pick_utc(rng, z):
    """an instant at or after the first onset"""
    k = rng.randrange(min(len(z.onsets), 120))
    u = z.onsets[k][0]
    r = rng.random()
    if r < 0.45:
        u += D.timedelta(seconds=rng.choice([0, 0, 1, -1, 30, -30, 59, -59, 60, 1799, 1800, 3599, 3600, 3601, -3600, 5400, 7199, 7200]))
    elif r < 0.6:
        u = D.datetime(u.year + rng.choice([0, 1]), rng.choice([1, 12]), rng.choice([1, 31]), rng.choice([0, 23]), rng.choice([0, 59]), rng.choice([0, 59]))
    else:
        u += D.timedelta(seconds=rng.randint(0, 86400 * 500))
    return max(u, z.first[0])


def gap_offset(z, l):
    for k in range(len(z.onsets) - 1, -1, -1):
        u, ol, f, t, n = z.onsets[k]
        if ol <= l < ol + D.timedelta(seconds=t - f):
            return f
    return None


def want_local(z, l):
    """-> offset expected for a local time, or None when nothing is claimed"""
    what, off, name = z.classify(l)
    if what == "before" or l < z.first[1]:
        return None, what, None
    if what == "gap":
        return gap_offset(z, l), what, None
    return off, what, name


def offset_name(off):
    return "%s%02d%02d" % ("-" if off < 0 else "+", abs(off) // 3600, abs(off) // 60 % 60)


def zones(ctx, rng, i):
    z = reftz.make_zone(rng, "Test/Z%d" % i) if i % 8 else rng.choice([reftz.eastern, reftz.sydney])()
    if rng.random() < 0.3:
        # observances without a TZNAME are described by their offset
        for o in z.obs:
            if rng.random() < 0.5:
                o["name"] = ""
        z = reftz.Zone(z.tzid, z.obs)
    cal, text = load([z], rng)
    vtz = cal.getTimezone(z.tzid)
    ctx.mark("shapes", "%d obs" % len(z.obs))
    asked = []
    for _n in range(rng.randint(14, 26)):
        u = pick_utc(rng, z)
        asked.append(u)
        off, name = z.at_utc(u)
        r = rng.random()
        if r < 0.5:
            got = vtz.getTimezoneOffsetSeconds(utc(u) if rng.random() < 0.5 else floating(u), True)
            ctx.eq(got, off, "offset-at-instant", "offset of %s at %sZ in\n%s" % (z.tzid, u, text))
            ctx.count("utc_asked")
        l = u + D.timedelta(seconds=off)
        if rng.random() < 0.35:
            k = rng.randrange(min(len(z.onsets), 120))
            l = z.onsets[k][1] + D.timedelta(seconds=rng.choice([0, -1, 1, 1800, -1800, 3599, 3600, -3600, -3601, 7199]))
        want, what, lname = want_local(z, l)
        if want is not None:
            d = rng.choice([floating, lambda t: zoned(t, z.tzid)])(l)
            got = vtz.getTimezoneOffsetSeconds(d) if rng.random() < 0.5 else TimezoneDatabase.getTimezoneOffsetSeconds(z.tzid, d)
            ctx.eq(got, want, "offset-at-local-" + what, "offset of %s at local %s (%s) in\n%s" % (z.tzid, l, what, text))
            ctx.count("local_asked")
            ctx.count({"gap": "gaps", "ambiguous": "ambiguous"}.get(what, "plain"))
            if rng.random() < 0.4:
                ctx.eq(zoned(l, z.tzid).getPosixTime(), posix(l) - want, "instant-of-local-" + what, "instant of %s %s (%s) in\n%s" % (l, z.tzid, what, text))
            if what != "gap" and rng.random() < 0.5:
                ctx.eq(vtz.getTimezoneDescriptor(d), ("(%s)" % lname if lname else offset_name(want)), "name-at-local-" + what, "name of %s at local %s in\n%s" % (z.tzid, l, text))
                ctx.count("names")
                ctx.count("unnamed", int(not lname))
    if rng.random() < 0.7:
        # the list of onsets up to an instant
        last = z.onsets[min(len(z.onsets) - 1, 100)][1]
        end = rng.choice(asked)
        end = rng.choice([end, D.datetime(end.year, 1, 1), D.datetime(end.year, 12, 31, 23, 59, 59)])
        end = min(end, last)
        start = None
        if rng.random() < 0.4:
            start = end - D.timedelta(days=rng.choice([1, 200, 400, 3000]))
        got = vtz.expandAll(floating(start) if start else None, floating(end), True)
        want = sorted((l, f, t, n) for u, l, f, t, n in z.onsets if l < end and (start is None or l >= start))
        have = [(fields(g[0]), g[2], g[3], g[4]) for g in got if fields(g[0]) != end]
        ctx.eq(have, want, "onsets", "onsets of %s from %s before %s in\n%s" % (z.tzid, start, end, text))
        for g in got:
            ctx.eq((fields(g[1]), bool(g[1].utc())), (fields(g[0]) - D.timedelta(seconds=g[2]), True), "onset-utc", "UTC of onset %s" % g[0].getText())
        ctx.count("onset_lists")
        ctx.count("onsets_compared", len(want))
    ctx.seen((text, tuple(asked)), True, text)


def convert(ctx, rng, i):
    zs = [reftz.make_zone(rng, "Test/A%d" % i), reftz.make_zone(rng, "Test/B%d" % i)]
    if i % 5 == 0:
        zs[0] = reftz.eastern()
    cal, text = load(zs, rng)
    asked = []
    for _n in range(rng.randint(10, 16)):
        a, b = rng.choice([(zs[0], zs[1]), (zs[1], zs[0])])
        u = max(pick_utc(rng, a), b.first[0] + D.timedelta(days=3), a.first[0] + D.timedelta(days=3))
        asked.append(u)
        oa, ob = a.at_utc(u)[0], b.at_utc(u)[0]
        x = utc(u)
        if rng.random() < 0.5:
            x.getPosixTime()
        x.adjustTimezone(Timezone(utc=False, tzid=a.tzid))
        ctx.eq((fields(x), x.getTimezoneID(), bool(x.utc())), (u + D.timedelta(seconds=oa), a.tzid, False), "utc-to-zone", "%sZ to %s in\n%s" % (u, a.tzid, text))
        ctx.count("conversions")
        what = a.classify(fields(x))
        if what[0] == "before":
            continue
        # the instant that the local reading denotes (its first meaning when ambiguous)
        inst = fields(x) - D.timedelta(seconds=what[1])
        ctx.check(what[0] == "ambiguous" or inst == u, "reference", "reference does not invert itself")
        ctx.eq(x.getPosixTime(), posix(inst), "zone-instant", "instant of %s %s" % (x.getText(), a.tzid))
        if rng.random() < 0.5:
            y = x.duplicate() if rng.random() < 0.5 else x.getAdjustedTime(Timezone(utc=False, tzid=a.tzid))
            how = rng.choice(["adjustToUTC", "duplicateAsUTC", "adjustTimezone"])
            if how == "adjustToUTC":
                y.adjustToUTC()
            elif how == "duplicateAsUTC":
                y = y.duplicateAsUTC()
            else:
                y.adjustTimezone(Timezone(utc=True))
            ctx.eq((fields(y), bool(y.utc()), y.getPosixTime()), (inst, True, posix(inst)), "zone-to-utc", "%s %s by %s in\n%s" % (x.getText(), a.tzid, how, text))
        else:
            if b.at_utc(inst) is None:
                continue
            y = x.getAdjustedTime(Timezone(utc=False, tzid=b.tzid))
            ctx.eq((fields(y), y.getTimezoneID()), (inst + D.timedelta(seconds=b.at_utc(inst)[0]), b.tzid), "zone-to-zone", "%s %s to %s in\n%s" % (x.getText(), a.tzid, b.tzid, text))
            ctx.count("between")
            w = b.classify(fields(y))
            if w[0] == "plain":
                ctx.check(x == y and hash(x) == hash(y) and not x < y and not y < x, "converted-equal", "%s %s and %s %s" % (x.getText(), a.tzid, y.getText(), b.tzid))
                off = (y - x).getTotalSeconds()
                ctx.eq(off, 0, "converted-difference", "%s %s and %s %s" % (x.getText(), a.tzid, y.getText(), b.tzid))
    # a date is the same date in every zone
    for _n in range(4):
        d = D.date(rng.randint(1960, 2035), rng.randint(1, 12), rng.choice([1, 15, 28]))
        x = DateTime(d.year, d.month, d.day, tzid=rng.choice([None, Timezone(utc=False, tzid=zs[0].tzid)]))
        if rng.random() < 0.5:
            x.getPosixTime()
        to = rng.choice([Timezone(utc=True), Timezone(utc=False, tzid=zs[1].tzid), Timezone(utc=False, tzid=rng.choice([-18000, 20700, 3600])), Timezone(utc=False)])
        how = rng.choice(["adjustTimezone", "getAdjustedTime", "adjustToUTC", "duplicateAsUTC"])
        y = getattr(x, how)(to) if how in ("adjustTimezone", "getAdjustedTime") else getattr(x, how)()
        if how.startswith("adjust"):
            y = x
        ctx.eq((y.getYear(), y.getMonth(), y.getDay(), y.isDateOnly(), y.getText()), (d.year, d.month, d.day, True, d.strftime("%Y%m%d")), "date-moved", "%s by %s to %s" % (d, how, (to.getTimezoneID(), to.getUTC())))
        ctx.count("dates_converted")
    ctx.seen((text, tuple(asked)), True, text)


def default(ctx, rng, i):
    """a time without a zone is a time of the default zone, whichever that is when it is asked"""
    zs = [reftz.make_zone(rng, "Test/A%d" % i), reftz.make_zone(rng, "Test/B%d" % i)]
    cal, text = load(zs, rng)
    mgr = CalendarManager.sICalendarManager
    try:
        asked = []
        for _n in range(6):
            z = rng.choice(zs)
            u = max(pick_utc(rng, z), max(x.first[0] for x in zs) + D.timedelta(days=3))
            l = z.local(u)
            asked.append((l, floating(l)))
        then = []
        for _k in range(rng.randint(2, 6)):
            z = rng.choice(zs + [None])
            how = rng.randrange(3)
            if how == 0:
                mgr.setDefaultTimezoneID(z.tzid if z else "UTC")
            elif how == 1:
                mgr.setDefaultTimezone(Timezone(utc=False, tzid=z.tzid) if z else Timezone(utc=True))
            else:
                mgr.setDefaultTimezone(Timezone(tzid=z.tzid if z else "UTC"))
            then.append(z.tzid if z else "UTC")
            where = lambda: "with default zones set in turn %r in\n%s" % (then, text)
            d = Timezone()
            ctx.eq((mgr.getDefaultTimezoneID(), d.getUTC(), d.getTimezoneID(), mgr.getDefaultTimezone().getUTC()), (then[-1], z is None, z and z.tzid, z is None), "default-told", repr(then))
            for l, x in asked:
                if rng.random() < 0.3:
                    continue
                off, what, name = want_local(z, l) if z else (0, "plain", "")
                if off is None:
                    continue
                ctx.count("of_default")
                ctx.count("default_changed", int(len(then) > 1 and then[-1] != then[-2]))
                y = rng.choice([x, x, x, x.duplicate(), floating(l)])
                ctx.check(y.getPosixTime() == posix(l - D.timedelta(seconds=off)), "default-instant", lambda: "%s is %r, expected %r %s" % (l, y.getPosixTime(), posix(l - D.timedelta(seconds=off)), where()))
                ctx.check(y.floating() and fields(y) == l and y.getText() == l.strftime("%Y%m%dT%H%M%S"), "default-changed-value", lambda: "%s is now %s %s" % (l, y.getText(), where()))
                if what == "plain" and z and name:
                    ctx.check(y.timeZoneDescriptor() == "(%s)" % name, "default-name", lambda: "%s has %r, expected %r %s" % (l, y.timeZoneDescriptor(), name, where()))
            for _n in range(3):
                u = max(pick_utc(rng, rng.choice(zs)), max(x.first[0] for x in zs) + D.timedelta(days=3))
                x = utc(u).getAdjustedTime(d)
                ctx.count("onto_default")
                ctx.check((fields(x), bool(x.utc()), x.getTimezoneID()) == (z.local(u) if z else u, z is None, z and z.tzid), "onto-default", lambda: "%sZ became %s %s %s" % (u, x.getText(), x.getTimezoneID(), where()))
            n0 = time.time()
            n = DateTime.getNow(None)
            n1 = time.time()
            ctx.check(bool(n.utc()) == (z is None) and n.getTimezoneID() == (z and z.tzid), "now-zone", lambda: "now is %s %s %s" % (n.getText(), n.getTimezoneID(), where()))
            ns = [D.datetime(1970, 1, 1) + D.timedelta(seconds=int(t)) for t in (n0, n1)]
            ns = [z.local(t) if z else t for t in ns]
            ctx.check(ns[0] <= fields(n) <= ns[1] or ns[1] < ns[0], "now", lambda: "now is %s, expected %s to %s %s" % (n.getText(), ns[0], ns[1], where()))
        ctx.seen((text, tuple(then), tuple(str(l) for l, x in asked)), True, "%r of %s" % (then, text))
    finally:
        mgr.setDefaultTimezoneID("UTC")
