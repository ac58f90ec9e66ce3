# -*- coding: utf-8 -*-
"""C12: what a timezone answers never depends on what it was asked before."""
import datetime as D
import reftz
from props_c11 import load, floating, zoned, utc, fields, pick_utc
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vtimezone import VTimezone

RULE = ("random histories of 8-20 questions to one live VTIMEZONE and to the timezone database holding it (offsets by local time, by instant, by date, names, onset lists with and without start, "
        "conversions), over descending, ascending and jumping years, pairs within one minute, year ends, cache overflow, edits of returned onsets, duplicates of the component; each answer compared "
        "with a freshly parsed zone that is asked only this; distinct by zone and question list")
REQUIRE = {"answers": 3000, "kinds": 9, "same_minute": 150, "edited_onsets": 50, "duplicated": 80, "backwards": 500, "overflowed": 20}
PLAN = [("history", 320, 12000)]


def ask(vtz, q):
    k = q[0]
    if k == "local":
        return vtz.getTimezoneOffsetSeconds(floating(q[1]))
    if k == "zoned":
        return vtz.getTimezoneOffsetSeconds(zoned(q[1], vtz.getID()))
    if k == "utc":
        return vtz.getTimezoneOffsetSeconds(utc(q[1]), True)
    if k == "date":
        return vtz.getTimezoneOffsetSeconds(DateTime(q[1].year, q[1].month, q[1].day))
    if k == "name":
        return vtz.getTimezoneDescriptor(floating(q[1]))
    if k == "onsets":
        r = vtz.expandAll(floating(q[1]) if q[1] else None, floating(q[2]), q[3])
        return [tuple(x.getText() if isinstance(x, DateTime) else x for x in y) for y in r]
    if k == "sortkey":
        return vtz.getUTCOffsetSortKey()
    if k == "text":
        return str(vtz)


def fresh(text, tzid):
    # a parse of its own, out of reach of the live one
    return Calendar.parseText(text.replace("Test/", "Fresh/")).getTimezone(tzid.replace("Test/", "Fresh/"))


def question(rng, z, prev):
    r = rng.random()
    u = pick_utc(rng, z)
    if prev is not None and r < 0.2:
        u = prev.replace(second=rng.choice([0, 1, 29, 30, 31, 59]))
    elif prev is not None and r < 0.35:
        u = max(z.first[0], prev - D.timedelta(days=rng.choice([1, 30, 365, 2000])))
    elif r < 0.45:
        u = D.datetime(rng.randint(z.first[0].year + 1, max(z.first[0].year + 2, min(z.onsets[-1][0].year, 2070))), rng.choice([1, 12]), rng.choice([1, 31]), rng.choice([0, 23]), 0, 0)
    k = rng.choice(["local", "local", "zoned", "utc", "utc", "date", "name", "name", "onsets", "onsets", "sortkey", "text"])
    if k == "onsets":
        end = rng.choice([u, D.datetime(u.year, 1, 1), D.datetime(u.year, 7, 1), D.datetime(u.year, 12, 31)])
        start = rng.choice([None, None, end - D.timedelta(days=rng.choice([100, 800, 4000]))])
        return (k, start, end, rng.random() < 0.5), u
    off = z.at_utc(u)
    t = u + D.timedelta(seconds=off[0]) if k in ("local", "zoned", "name") and off else u
    return (k, t), u


def history(ctx, rng, i):
    z = reftz.make_zone(rng, "Test/H%d" % i)
    cal, text = load([z], rng)
    vtz = cal.getTimezone(z.tzid)
    prev = None
    log = []
    save = VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES
    if i % 6 == 0:
        VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = rng.choice([1, 2, 3])
        ctx.count("overflowed")
    try:
        for _n in range(rng.randint(8, 20)):
            q, u = question(rng, z, prev)
            if prev is not None:
                ctx.count("same_minute", int(u != prev and u.replace(second=0) == prev.replace(second=0)))
                ctx.count("backwards", int(u < prev))
            prev = u
            log.append(" ".join(str(x) for x in q))
            want = ask(fresh(text, z.tzid), q)
            if q[0] == "text":
                want = want.replace("Fresh/", "Test/")
            r = rng.random()
            if r < 0.75 or q[0] not in ("local", "zoned", "name"):
                got = ask(vtz, q)
            elif q[0] == "name":
                got = TimezoneDatabase.getTimezoneDescriptor(z.tzid, zoned(q[1], z.tzid))
            else:
                got = TimezoneDatabase.getTimezoneOffsetSeconds(z.tzid, zoned(q[1], z.tzid))
            ctx.eq(got, want, "tz-answer-" + q[0], "%s after\n %s\nin\n%s" % (log[-1], "\n ".join(log[:-1]), text))
            ctx.count("answers")
            ctx.mark("kinds", q[0])
            r = rng.random()
            if r < 0.15:
                # the caller edits what it was given
                res = vtz.expandAll(None, floating(u), True)
                for x in res[-3:] + res[:2]:
                    x[0].offsetDay(1)
                    x[1].setYear(1999)
                    x[0].setTimezoneUTC(True)
                log.append("edit onsets before %s" % u)
                ctx.count("edited_onsets")
            elif r < 0.3:
                dup = vtz.duplicate()
                log.append("duplicate")
                ctx.count("duplicated")
                if rng.random() < 0.5:
                    vtz = dup
            elif r < 0.35:
                TimezoneDatabase.getTimezoneInCalendar(z.tzid)
                ctx.mark("kinds", "in-calendar")
    finally:
        VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = save
    ctx.seen((text, tuple(log)), True, "\n".join(log))
