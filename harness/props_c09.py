# -*- coding: utf-8 -*-
"""C09 ordering, equality and hashing of date-time, duration and period values."""
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.datetimevalue import DateTimeValue
from pycalendar.durationvalue import DurationValue
from pycalendar.multivalue import MultiValue
from pycalendar.periodvalue import PeriodValue
from pycalendar.icalendar.calendar import Calendar
from refcal import *
import reftz

RULE = ("pools of 3-7 values of one kind (dates, floating, UTC, anchored to UTC/time zones/fixed offsets away from changes of offset, durations, periods in either form), "
        "built close together or equal-but-differently-written; every ordered pair is compared with all six operators, hashed, sorted and put in sets, against the instants they denote; copies, bare or held by values, whose parts are changed")
REQUIRE = {"copies": 500, "copied": 10, "dates_from_times": 100, "history_ops": 22, "history_steps": 3000, "pairs": 5000, "equal_pairs": 500, "kinds": 6}
PLAN = [("datetimes", 1600, 60000), ("durations", 800, 30000), ("periods", 800, 30000), ("history", 960, 40000), ("copies", 900, 30000)]
ZONES = []


def setup(ctx):
    TimezoneDatabase.clearTimezoneDatabase()
    ZONES[:] = [reftz.eastern(), reftz.sydney(), reftz.fixed("Test/India", 19800), reftz.fixed("Test/Nepal", 20700), reftz.fixed("test/nepal", -12600)]
    Calendar.parseText(reftz.calendar_text(ZONES))


def compare_all(ctx, kind, vals):
    """vals: list of (value, key, description)"""
    for a, ka, da in vals:
        for b, kb, db in vals:
            ctx.count("pairs")
            if ka == kb:
                ctx.count("equal_pairs")
            c = (ka > kb) - (ka < kb)
            for op, got, want in (("==", a == b, c == 0), ("!=", a != b, c != 0), ("<", a < b, c < 0), ("<=", a <= b, c <= 0),
                                  (">", a > b, c > 0), (">=", a >= b, c >= 0)):
                if bool(got) != want:
                    ctx.viol("%s-operator-%s" % (kind, op), "%s %s %s gives %r" % (da, op, db, got))
            if c == 0:
                ctx.check(hash(a) == hash(b), "%s-hash" % kind, "equal values hash differently: %s %s" % (da, db))
    order = sorted(range(len(vals)), key=lambda n: vals[n][1])
    got = sorted([v[0] for v in vals])
    keyof = {}
    for v in vals:
        keyof[id(v[0])] = v[1]
    ctx.eq([keyof[id(g)] for g in got], [vals[n][1] for n in order], "%s-sort" % kind, "sorted %r" % ([v[2] for v in vals],))
    ctx.eq(len(set(v[0] for v in vals)), len(set(v[1] for v in vals)), "%s-set" % kind, "distinct members of %r" % ([v[2] for v in vals],))
    if vals:
        ctx.eq(keyof[id(max(v[0] for v in vals))], max(v[1] for v in vals), "%s-max" % kind, "max of %r" % ([v[2] for v in vals],))


def nearby(rng, base):
    return base + D.timedelta(seconds=rng.choice([0, 0, 1, -1, 59, 60, 3600, -3600, 86400, -86400, 86399, 2678400, 31536000, rng.randint(-400000, 400000)]))


def datetimes(ctx, rng, i):
    kind = ["date", "floating", "utc", "anchored", "anchored", "sametz"][i % 6]
    base = rand_dt(rng, 1990, 2090)
    if kind in ("anchored", "sametz"):
        while any(z.near_onset(base, 70) for z in ZONES):
            base = rand_dt(rng, 1990, 2090)
    elif rng.random() < 0.4:
        base = rand_dt(rng, 1760, 9900)
    vals = []
    zone = rng.choice(ZONES)
    for _n in range(rng.randint(3, 6)):
        t = nearby(rng, base)
        if kind == "date":
            v = DateTime(t.year, t.month, t.day)
            if rng.random() < 0.4:
                v = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=rng.random() < 0.5))
                v.setDateOnly(True)
                ctx.count("dates_from_times")
            vals.append((v, t.toordinal(), txt(t, False, True)))
        elif kind == "floating":
            v = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=False))
            vals.append((v, t, txt(t)))
        elif kind == "utc":
            v = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=True))
            vals.append((v, t, txt(t, True)))
        else:
            if kind == "anchored" and any(z.near_onset(t, 30) for z in ZONES):
                continue
            if kind == "sametz" and zone.near_onset(t, 30):
                continue
            how = rng.choice(["utc", "zone", "zone", "offset", "converted"]) if kind == "anchored" else "zone"
            z = rng.choice(ZONES) if kind == "anchored" else zone
            if how == "utc":
                v = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=True))
                d = txt(t, True)
            elif how == "zone":
                l = z.local(t)
                v = DateTime(l.year, l.month, l.day, l.hour, l.minute, l.second, tzid=Timezone(utc=False, tzid=z.tzid))
                d = txt(l) + "@" + z.tzid
            elif how == "converted":
                v = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=True))
                if rng.random() < 0.5:
                    v.getPosixTime()
                v.adjustTimezone(Timezone(utc=False, tzid=z.tzid))
                d = txt(t, True) + " converted to " + z.tzid
            else:
                o = rng.choice([60, -300, 330, -210, 840])
                l = t + D.timedelta(minutes=o)
                v = DateTime.parseText("%s%s%02d%02d" % (txt(l), "-" if o < 0 else "+", abs(o) // 60, abs(o) % 60), fullISO=True)
                d = v.getText()
            vals.append((v, t, d))
    if len(vals) < 2:
        return
    if rng.random() < 0.3:
        for v in vals:
            v[0].getPosixTime()
    compare_all(ctx, "datetime-" + kind, vals)
    ctx.mark("kinds", kind)
    for v, k, d in vals:
        ctx.check((v == v.duplicate()) and hash(v) == hash(v.duplicate()), "datetime-duplicate-equal", d)
        ctx.check(v != None, "datetime-none", d)
    # differences agree with the order
    (a, ka, da), (b, kb, db) = vals[0], vals[1]
    n = (b - a).getTotalSeconds()
    want = (kb - ka) * 86400 if kind == "date" else secs(kb - ka)
    ctx.eq(n, want, "difference-" + kind, "%s - %s" % (db, da))
    ctx.seen(tuple(v[2] for v in vals), True, " | ".join(v[2] for v in vals))


def rand_duration(rng):
    r = rng.random()
    if r < 0.15:
        n = 604800 * rng.randint(-5, 5)
    elif r < 0.4:
        n = 86400 * rng.randint(-15, 15)
    elif r < 0.6:
        n = 3600 * rng.randint(-50, 50)
    else:
        n = rng.randint(-200000, 200000)
    return n


def write_duration(rng, n):
    """one of the ways of writing a duration of n seconds"""
    a = abs(n)
    sign = "-" if n < 0 else rng.choice(["", "+", ""])
    forms = ["PT%dS" % a]
    if a % 604800 == 0:
        forms += ["P%dW" % (a // 604800)] * 2
    if a % 86400 == 0:
        forms += ["P%dD" % (a // 86400)] * 2
    if a % 3600 == 0:
        forms.append("PT%dH" % (a // 3600))
    if a % 60 == 0:
        forms.append("PT%dM" % (a // 60))
    forms.append("P%dDT%dH%dM%dS" % (a // 86400, a // 3600 % 24, a // 60 % 60, a % 60))
    return sign + rng.choice(forms)


def durations(ctx, rng, i):
    vals = []
    base = rand_duration(rng)
    for _n in range(rng.randint(3, 6)):
        n = base + rng.choice([0, 0, 1, -1, 60, 3600, 86400, -86400, -2 * base])
        how = rng.choice(["text", "text", "secs", "parts"])
        if how == "text":
            s = write_duration(rng, n)
            v = Duration.parseText(s)
        elif how == "secs":
            v = Duration(duration=n)
            s = "%ds" % n
        else:
            q = n // 604800
            v = Duration(weeks=q, days=(n - q * 604800) // 86400, seconds=(n - q * 604800) % 86400)
            s = "parts of %d" % n
        vals.append((v, n, s))
    compare_all(ctx, "duration", vals)
    ctx.mark("kinds", "duration")
    ctx.seen(tuple(v[2] for v in vals), True, " | ".join(v[2] for v in vals))


def periods(ctx, rng, i):
    vals = []
    kind = rng.choice(["utc", "floating", "date"])
    base = rand_dt(rng, 1960, 2090)
    length = abs(rand_duration(rng)) + 1
    for _n in range(rng.randint(3, 6)):
        s = nearby(rng, base) if rng.random() < 0.5 else base
        n = max(1, length + rng.choice([0, 0, 0, 1, 3600, 86400, -1]))
        if kind == "date":
            s = s.replace(hour=0, minute=0, second=0)
            n = 86400 * (n // 86400 + 1)
        e = s + D.timedelta(seconds=n)

        def mk(t):
            if kind == "date":
                return DateTime(t.year, t.month, t.day)
            return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=kind == "utc"))
        how = rng.choice(["end", "duration", "text-end", "text-duration", "switched"])
        if how == "end":
            v = Period(mk(s), end=mk(e))
        elif how == "duration":
            v = Period(mk(s), duration=Duration(duration=n))
        elif how == "switched":
            v = Period(mk(s), end=mk(e))
            v.setUseDuration(True)
        elif how == "text-end":
            v = Period.parseText("%s/%s" % (mk(s).getText(), mk(e).getText()))
        else:
            v = Period.parseText("%s/%s" % (mk(s).getText(), write_duration(rng, n).lstrip("+")))
        vals.append((v, (s, e), "%s %s" % (how, v.getText())))
    compare_all(ctx, "period", vals)
    ctx.mark("kinds", "period-" + kind)
    ctx.seen(tuple(v[2] for v in vals), True, " | ".join(v[2] for v in vals))


def fresh(v):
    w = DateTime(v.getYear(), v.getMonth(), v.getDay(), v.getHours(), v.getMinutes(), v.getSeconds(), tzid=Timezone(utc=bool(v.getTimezoneUTC()), tzid=v.getTimezoneID()))
    w.setDateOnly(v.isDateOnly())
    return w


def some_zone(rng):
    r = rng.random()
    if r < 0.25:
        return Timezone(utc=True)
    if r < 0.35:
        return Timezone(utc=False)
    if r < 0.45:
        return Timezone(utc=False, tzid=rng.choice([3600, -18000, 19800]))
    return Timezone(utc=False, tzid=rng.choice(ZONES).tzid)


def history(ctx, rng, i):
    """A value that was compared, hashed and changed answers like one built afresh from its present fields"""
    t = rand_dt(rng, 1990, 2090)
    v = DateTime(t.year, t.month, min(t.day, 28), t.hour, t.minute, t.second, tzid=some_zone(rng))
    pivots = [DateTime(t.year, t.month, min(t.day, 28), 12, 0, 0, tzid=z) for z in (Timezone(utc=True), Timezone(utc=False, tzid=ZONES[0].tzid), Timezone(utc=False, tzid=ZONES[1].tzid))]
    log = [v.getText(), str(v.getTimezoneID())]
    for _n in range(rng.randint(3, 8)):
        look = rng.choice(["", "hash", "posix", "offset", "compare", "all"])
        if look in ("hash", "all"):
            hash(v)
        if look in ("posix", "all"):
            v.getPosixTime()
        if look in ("offset", "all"):
            v.timeZoneSecondsOffset()
        if look in ("compare", "all"):
            v < pivots[0], v == pivots[1]
        z = some_zone(rng)
        op, f = rng.choice([
            ("setYear", lambda: v.setYear(rng.randint(1990, 2090))), ("setMonth", lambda: v.setMonth(rng.randint(1, 12))), ("setDay", lambda: v.setDay(rng.randint(1, 28))),
            ("setHours", lambda: v.setHours(rng.randint(0, 23))), ("setMinutes", lambda: v.setMinutes(rng.randint(0, 59))), ("setSeconds", lambda: v.setSeconds(rng.randint(0, 59))),
            ("setYYMMDD", lambda: v.setYYMMDD(rng.randint(1990, 2090), rng.choice([v.getMonth(), rng.randint(1, 12)]), rng.choice([v.getDay(), rng.randint(1, 28)]))),
            ("setHHMMSS", lambda: v.setHHMMSS(rng.choice([v.getHours(), rng.randint(0, 23)]), rng.choice([v.getMinutes(), 30]), rng.randint(0, 59))),
            ("offsetYear", lambda: v.offsetYear(rng.randint(-3, 3))), ("offsetMonth", lambda: v.offsetMonth(rng.randint(-14, 14))), ("offsetDay", lambda: v.offsetDay(rng.randint(-40, 40))),
            ("offsetHours", lambda: v.offsetHours(rng.randint(-50, 50))), ("offsetMinutes", lambda: v.offsetMinutes(rng.randint(-200, 200))), ("offsetSeconds", lambda: v.offsetSeconds(rng.randint(-90000, 90000))),
            ("setTimezoneUTC", lambda: v.setTimezoneUTC(rng.random() < 0.5)), ("setTimezoneID", lambda: v.setTimezoneID(z.getTimezoneID())), ("setTimezoneID", lambda: v.setTimezoneID(z.getTimezoneID())),
            ("setTimezone", lambda: v.setTimezone(z)), ("setDateOnly", lambda: v.setDateOnly(rng.random() < 0.3)), ("adjustToUTC", lambda: v.adjustToUTC()),
            ("adjustTimezone", lambda: v.adjustTimezone(z)), ("setYearDay", lambda: v.setYearDay(rng.choice([-1, 1, 60, 200]))), ("setMonthDay", lambda: v.setMonthDay(rng.choice([-1, 1, 15, 28]))),
            ("setDayOfWeekInMonth", lambda: v.setDayOfWeekInMonth(rng.choice([-1, 1, 2]), rng.randint(0, 6))), ("setNextDayOfWeek", lambda: v.setNextDayOfWeek(0, rng.randint(0, 6))),
            ("setWeekNo", lambda: v.setWeekNo(rng.randint(1, 52))), ("setDayOfWeekInYear", lambda: v.setDayOfWeekInYear(rng.choice([-1, 1, 20]), rng.randint(0, 6))),
            ("recur", lambda: v.recur(rng.randint(0, 6), rng.randint(1, 3))), ("parse", lambda: v.parse("%d0%d15T101112" % (rng.randint(1990, 2090), rng.randint(1, 9)))),
            ("duplicate", lambda: None)])
        if op == "duplicate":
            v = v.duplicate()
        else:
            f()
        log.append((look and look + ",") + op)
        w = fresh(v)
        now = "%s %s after %r" % (v.getText(), v.getTimezoneID(), log)
        how = rng.choice(["posix", "hash", "compare", "offset"])
        if how == "posix":
            ctx.eq(v.getPosixTime(), w.getPosixTime(), "history-instant-" + op, "instant of " + now)
        elif how == "hash":
            ctx.check(v == w and hash(v) == hash(w), "history-hash-" + op, now)
        elif how == "offset":
            ctx.eq(v.timeZoneSecondsOffset(), w.timeZoneSecondsOffset(), "history-offset-" + op, "offset of " + now)
        else:
            for p in pivots:
                ctx.eq((v < p, v == p, p <= v), (w < p, w == p, p <= w), "history-compare-" + op, "%s against %s" % (now, p.getText()))
        ctx.count("history_steps")
        ctx.mark("history_ops", op)
        if not 1800 < v.getYear() < 2200:
            break
    ctx.seen(tuple(log), True, repr(log))


def parts(v):
    """the value and the values it is made of"""
    if isinstance(v, Period):
        return [v.getStart(), v.getEnd(), v.getDuration()]
    return [v]


def alter(rng, v):
    if isinstance(v, DateTime):
        rng.choice([lambda: v.offsetDay(1), lambda: v.setYear(v.getYear() + 1), lambda: v.setYYMMDD(1999, 1, 2), lambda: v.offsetMonth(-1), lambda: v.setHHMMSS(1, 2, 3) if not v.isDateOnly() else v.offsetYear(2)])()
    else:
        v.setDuration(v.getTotalSeconds() + 60 * rng.randint(1, 99))


def copies(ctx, rng, i):
    """what is done to a copy, or to any part of it, leaves the original alone, and the other way round; the same for the value objects that hold them"""
    kind = rng.choice(["utc", "floating", "date"])
    t = rand_dt(rng, 1960, 2090)
    if kind == "date":
        t = t.replace(hour=0, minute=0, second=0)
    n = 86400 * rng.randint(1, 30) if kind == "date" else rng.choice([86400, 3600, rng.randint(1, 10 ** 6)])
    at = lambda t: DateTime(t.year, t.month, t.day) if kind == "date" else DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=kind == "utc"))
    what = rng.choice(["datetime", "duration", "period-end", "period-duration", "period-duration", "period-switched"])

    def make():
        if what == "datetime":
            return at(t)
        if what == "duration":
            return Duration(duration=n)
        if what == "period-duration":
            return Period(at(t), duration=Duration(duration=n))
        v = Period(at(t), end=at(t + D.timedelta(seconds=n)))
        if what == "period-switched":
            v.setUseDuration(True)
        return v
    form = lambda v: v.getText()
    a, want = make(), form(make())
    held = rng.random() < 0.4
    if rng.random() < 0.5:
        hash(a)
        for x in parts(a):
            form(x)
    if held:
        # through the value object of a property, alone or in a list
        cls = {"datetime": DateTimeValue, "duration": DurationValue}.get(what, PeriodValue)
        h = cls(a)
        if rng.random() < 0.5:
            m = MultiValue(h.getType())
            m.addValue(h)
            b = m.duplicate().getValues()[0].getValue()
        else:
            b = h.duplicate().getValue()
    else:
        b = a.duplicate()
    ctx.check(a == b and hash(a) == hash(b), "copy-equal", lambda: "%s %s and its copy %s" % (what, want, form(b)))
    x, y = (a, b) if rng.random() < 0.5 else (b, a)
    for p in rng.sample(parts(x), rng.randint(1, len(parts(x)))):
        alter(rng, p)
    ctx.eq(form(y), want, "copy-shares", "%s %s after the other of the two became %s" % (what, want, form(x)))
    ctx.check(y == make() and hash(y) == hash(make()), "copy-shares", lambda: "%s %s after the other of the two became %s" % (what, want, form(x)))
    if isinstance(y, Period):
        ctx.eq((form(y.getEnd()), y.getDuration().getTotalSeconds()), (form(at(t + D.timedelta(seconds=n))), n), "copy-shares", "end and duration of %s after the other of the two became %s" % (want, form(x)))
    ctx.count("copies")
    ctx.mark("copied", what + (" held" if held else ""))
    ctx.seen((what, want, held), True, "%s %s" % (what, want))
