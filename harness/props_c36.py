# -*- coding: utf-8 -*-
"""C36: what people are shown."""
import datetime as D
import pycalendar.datetime as clockuser
from pycalendar.datetime import DateTime
from pycalendar import utils
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.vcard.n import N
from pycalendar.vcard.property import Property as VProperty
import refical as R
import icalgen as G
import vcardgen as V
import reftz
from refcal import posix, txt
from props_c34 import CLOCK, set_now
from props_c11 import pick_utc, offset_name
from vskip import Skip

RULE = ("random date-times (dates, floating, UTC, offsets, zones with their changes) shown in every format and compared with the forms of a reference calendar; to-dos of every status, due, overdue and undated, and instances of events, at a "
        "clock set from long before to long after them; the present moment asked for in random zones; names of people put together from their parts; whether a rule is simple, advanced or complex, and its description; generated UIDs collected "
        "over the run; tables of months from each weekday with today in and around them; distinct by input")
REQUIRE = {"shown": 600, "descriptors": 250, "todos": 400, "states": 5, "texts": 6, "instances": 300, "now": 200, "names": 300, "rules": 400, "advanced": 20, "complex": 60, "simple": 60, "uids": 200, "tables": 200, "todays": 80}
PLAN = [("shown", 700, 30000), ("todos", 520, 20000), ("now", 220, 8000), ("names", 340, 15000), ("rules", 900, 30000), ("uids", 60, 2000), ("tables", 300, 10000)]
ASSUMPTIONS = ["the clock of the library is replaced by a settable one (the time module its date-time code uses)", "to-dos without a status are not judged (no state is stated for them), and the days in the text of a due or overdue to-do only to within a day"]

MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
UIDS = set()


def setup(ctx):
    clockuser.time = CLOCK
    DB = TimezoneDatabase
    DB.createTimezoneDatabase(None)
    STATE["zones"] = [reftz.eastern("Test/East"), reftz.sydney("Test/South"), reftz.fixed("Test/Fixed", 5 * 3600 + 2700)]
    Calendar.parseText(reftz.calendar_text(STATE["zones"]))


STATE = {}


def moment(rng):
    y = rng.choice([1970, 1999, 2000, 2011, 2024, 2099, 1900, rng.randint(1800, 2200)])
    return D.datetime(y, rng.randint(1, 12), rng.choice([1, 9, 10, 28, rng.randint(1, 28)]), rng.choice([0, 1, 11, 12, 13, 23, rng.randrange(24)]), rng.choice([0, 5, 9, 10, 59, rng.randrange(60)]), rng.choice([0, 7, 59, rng.randrange(60)]))


def shown(ctx, rng, i):
    t = moment(rng)
    kind = rng.choice(["date", "floating", "utc", "offset", "zone", "zone"])
    desc = None
    z = None
    if kind == "zone":
        z = rng.choice(STATE["zones"])
        u = pick_utc(rng, z)
        off, name = z.at_utc(u)
        t = u + D.timedelta(seconds=off)
        what = z.classify(t)[0]
        if what not in ("plain", "normal", "unique"):
            pass
        x = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(tzid=z.tzid))
        if x.getPosixTime() == posix(u):
            desc = "(%s)" % name if name else offset_name(off)
    elif kind == "date":
        x = DateTime(t.year, t.month, t.day)
    elif kind == "offset":
        off = rng.choice([60, -300, 330, -210, 840, -720, 345, -5])
        x = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=False, tzid=off * 60))
        desc = "%s%02d%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
    elif kind == "utc":
        x = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=True))
        desc = "(UTC)"
    else:
        x = DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second)
    if rng.random() < 0.3:
        x = x.duplicate()
    before = x.getText()
    s = "%s %s" % (kind, before)
    mon, day = MONTHS[t.month - 1], DAYS[t.weekday()]
    forms = {DateTime.FULLDATE: "%s, %s %d, %d" % (day, mon, t.day, t.year), DateTime.ABBREVDATE: "%s, %s %d, %d" % (day[:3], mon[:3], t.day, t.year), DateTime.NUMERICDATE: "%d/%d/%d" % (t.month, t.day, t.year),
             DateTime.FULLDATENOYEAR: "%s, %s %d" % (day, mon, t.day), DateTime.ABBREVDATENOYEAR: "%s, %s %d" % (day[:3], mon[:3], t.day), DateTime.NUMERICDATENOYEAR: "%d/%d" % (t.month, t.day)}
    for f, want in forms.items():
        ctx.eq(x.getLocaleDate(f), want, "shown-date", "date of %s" % s)
    ctx.eq(x.getMonthText(False), mon, "shown-month", s)
    ctx.eq(x.getMonthText(True), mon[:3], "shown-month", s)
    d = rng.randrange(7)
    ctx.eq(x.getDayOfWeekText(d), DAYS[d - 1][:3], "shown-weekday", "%d" % d)
    ctx.count("shown")
    if kind != "date":
        for secs in (False, True):
            for am in (False, True):
                want = ("%d:%02d" % ((t.hour + 11) % 12 + 1, t.minute) if am else "%02d:%02d" % (t.hour, t.minute)) + (":%02d" % t.second if secs else "") + ((" AM" if t.hour < 12 else " PM") if am else "")
                ctx.eq(x.getTime(secs, am, False), want, "shown-time", "time of %s" % s)
                if desc is not None:
                    ctx.eq(x.getTime(secs, am, True), want + " " + desc, "shown-time-zone", "time with zone of %s" % s)
                f = rng.choice(sorted(forms))
                ctx.eq(x.getLocaleDateTime(f, secs, am, False), forms[f] + " " + want, "shown-date-time", "date and time of %s" % s)
    if desc is not None:
        ctx.count("descriptors")
        ctx.eq(x.timeZoneDescriptor(), desc, "shown-zone", "zone of %s" % s)
    ctx.eq(x.getText(), before, "shown-changed", s)
    ctx.seen((s,), True, s)


def todos(ctx, rng, i):
    now = D.datetime(rng.choice([2000, 2012, 2023, 2024]), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 6, 23, rng.randrange(24)]), rng.randrange(60), 0)
    set_now(now)
    today = D.datetime(now.year, now.month, now.day)
    status = rng.choice(["NEEDS-ACTION", "NEEDS-ACTION", "IN-PROCESS", "IN-PROCESS", "COMPLETED", "CANCELLED"])
    days = rng.choice([0, 0, 1, -1, 2, 5, 6, 7, 8, -6, -7, -8, -14, 30, -30, 400, rng.randint(-20, 20)])
    form = rng.choice(["due", "due", "due", "time", "duration", "none"])
    ls = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//EN", "BEGIN:VTODO", "UID:1", "DTSTAMP:20000101T000000Z", "STATUS:" + status]
    due = None
    if form == "due":
        due = today + D.timedelta(days=days)
        ls.append("DUE;VALUE=DATE:" + txt(due)[:8])
    elif form == "time":
        due = now + D.timedelta(days=days, minutes=rng.choice([0, -30, 30, 600, -600]))
        ls.append("DUE:" + txt(due, True))
    elif form == "duration":
        due = today + D.timedelta(days=days)
        ls += ["DTSTART;VALUE=DATE:" + txt(due - D.timedelta(days=3))[:8], "DURATION:P3D"]
    done = None
    if status == "COMPLETED" and rng.random() < 0.7:
        done = now - D.timedelta(days=rng.randint(0, 40), minutes=rng.randint(0, 700))
        ls.append("COMPLETED:" + txt(done, True))
    text = "\r\n".join(ls + ["END:VTODO", "END:VCALENDAR", ""])
    todo = Calendar.parseText(text).getComponents()[0]
    if rng.random() < 0.2:
        todo = todo.duplicate()
    what = lambda: "at %s of\n%s" % (now, text)
    # the days are compared
    day = None if due is None else D.datetime(due.year, due.month, due.day)
    n = None if due is None else 1 if day > today else 0 if day == today else -1
    if status == "COMPLETED":
        state = VToDo.DONE
    elif status == "CANCELLED":
        state = VToDo.CANCELLED
    else:
        state = VToDo.DUE_NOW if due is None else {1: VToDo.DUE_LATER, 0: VToDo.DUE_NOW, -1: VToDo.OVERDUE}[n]
    ctx.mark("states", str(state))
    got = todo.getCompletionState()
    ctx.check(got == state, "todo-state", lambda: "state %r, expected %r %s" % (got, state, what()))
    got = todo.getStatusText()
    num = lambda t: "%d/%d/%d" % (t.month, t.day, t.year)
    words = lambda a, unit: ["%d %s" % (k, unit) for k in a]
    if status == "COMPLETED":
        want = ["Completed: " + num(done)] if done else ["Completed"]
    elif status == "CANCELLED":
        want = ["Cancelled"]
    elif due is None:
        want = ["Not Completed"]
    elif n == 0:
        want = ["Due today"]
    elif n > 0:
        d = (due - today).days
        want = (["Due: " + w for w in words([d, d + 1], "days")] if d < 7 else []) + (["Due: 7 days"] if d == 7 else []) + (["Due: " + num(due)] if d >= 7 or d < 1 else [])
    else:
        d = (today - due).days
        want = ["Overdue: " + w for w in words([d, d + 1], "days") + (words([d // 7], "weeks") if d >= 7 else [])]
    ctx.mark("texts", want[0].split(":")[0])
    ctx.check(got in want, "todo-text", lambda: "%r, expected %s %s" % (got, " or ".join(want), what()))
    ctx.check(todo.hasCompleted() == (done is not None), "todo-completed", what)
    ctx.count("todos")
    # an instance is now from its start up to its end
    s = now + D.timedelta(minutes=rng.choice([0, -60, 60, -30, 1, -1, 1440, -1440]))
    e = s + D.timedelta(minutes=rng.choice([1, 30, 60, 1440, 3000]))
    z = rng.choice([None] + STATE["zones"])
    f = (lambda n_, t: "%s:%s" % (n_, txt(t, True))) if z is None else (lambda n_, t: "%s;TZID=%s:%s" % (n_, z.tzid, txt(z.local(t))))
    if z is None or (not z.near_onset(s, 80) and not z.near_onset(e, 80)):
        cal = Calendar.parseText("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:1", "DTSTAMP:20000101T000000Z", f("DTSTART", s), f("DTEND", e), "RRULE:FREQ=DAILY;INTERVAL=30;COUNT=2", "END:VEVENT", "END:VCALENDAR", ""]))
        res = []
        cal.getVEvents(Period(DateTime(now.year - 1, 1, 1), DateTime(now.year + 2, 1, 1)), res)
        ctx.count("instances")
        if ctx.check(len(res) == 2, "instance-count", what):
            got = [x.isNow() for x in res]
            ctx.check(got == [s <= now < e, False], "instance-now", lambda: "%r for %s to %s at %s in %s" % (got, s, e, now, z and z.tzid))
    ctx.seen((status, form, str(now), days), True, text)


def now(ctx, rng, i):
    z = rng.choice(STATE["zones"])
    t = pick_utc(rng, z)
    if t.year < 1971:
        t = t.replace(year=1971 + t.year % 60, day=min(t.day, 28))
    set_now(t)
    x = DateTime.getNowUTC()
    ctx.eq(x.getText(), txt(t, True), "now", "%s" % t)
    y = DateTime(2000, 1, 1, 0, 0, 0)
    y.setNowUTC()
    ctx.check(y == x and y.getText() == x.getText(), "now", "%s" % t)
    tz = Timezone(tzid=z.tzid)
    w = DateTime.getNow(tz)
    ctx.eq(w.getText(), txt(z.local(t)), "now-zone", "%s in %s" % (t, z.tzid))
    ctx.eq(w.getTimezoneID(), z.tzid, "now-zone", "%s" % t)
    v = DateTime(2001, 2, 3, 4, 5, 6, tzid=rng.choice([tz, Timezone(utc=True)]))
    id_ = v.getTimezoneID(), v.getTimezoneUTC()
    v.setNow()
    ctx.eq(v.getText(), txt(t, True) if id_[1] else txt(z.local(t)), "now-set", "%s in %r" % (t, id_))
    d = DateTime.getToday()
    ctx.eq(d.getText(), txt(t)[:8], "today", "%s" % t)
    d = DateTime(2001, 2, 3)
    d.setToday()
    ctx.eq(d.getText(), txt(t)[:8], "today", "%s" % t)
    # made at that moment
    e = VEvent()
    e.initDTSTAMP()
    e.updateLastModified()
    for p in ("DTSTAMP", "LAST-MODIFIED"):
        ctx.eq([q.getText().strip() for q in e.getProperties(p)], ["%s:%s" % (p, txt(t, True))], "now-stamp", "%s" % t)
    a, b = DateTime(2020, 1, 1, 0, 0, 0, tzid=Timezone(utc=True)), t
    ctx.count("now")
    ctx.seen((z.tzid, str(t)), True, "%s %s" % (z.tzid, t))


def names(ctx, rng, i):
    part = lambda: rng.choice([(), (), ("Ann",), ("B\xc3\xb6b",), ("Dr.",), ("Jr.",), ("Ann", "Marie"), ("de", "la", "Cruz"), ("x,y;z",), (G.text(rng).replace("\r", "").strip() or "x",)])
    parts = [part() for _ in range(5)]
    parts = [tuple(x.encode("utf-8") if isinstance(x, unicode) else x for x in p) for p in parts]
    n = N(*[(p[0] if len(p) == 1 else p) if p else "" for p in parts])
    if rng.random() < 0.5:
        q = VProperty(name="N", value=n)
        n = VProperty.parseText(R.lines_of(q.getText())[0]).getValue().getValue()
    last, first, middle, prefix, suffix = parts
    want = " ".join(" ".join(p) for p in (prefix, first, middle, last, suffix) if p)
    ctx.eq(n.getFullName(), want, "full-name", "full name of %r" % (parts,))
    ctx.count("names")
    ctx.seen((tuple(parts),), True, repr(parts))


def rules(ctx, rng, i):
    d = dict(G.recur(rng))
    if rng.random() < 0.5:
        for k in ("BYSECOND", "BYMINUTE", "BYHOUR", "BYYEARDAY", "BYWEEKNO"):
            d.pop(k, None)
    if rng.random() < 0.3:
        for k in list(d):
            if k.startswith("BY"):
                del d[k]
    p = ("RRULE", (), "RECUR", tuple(sorted(d.items())))
    line = R.w_prop(rng, p)
    text = line.split(":", 1)[1]
    rule = Recurrence()
    rule.parse(text)
    by = [k for k in d if k.startswith("BY")]
    simple = not by
    advanced = not [k for k in by if k in ("BYSECOND", "BYMINUTE", "BYHOUR", "BYYEARDAY", "BYWEEKNO")]
    advanced = advanced and all(-7 <= x <= 31 for x in d.get("BYMONTHDAY", ()))
    nums = set(x[0] for x in d.get("BYDAY", ()))
    advanced = advanced and len(nums) < 2 and all(-2 <= x <= 4 for x in nums)
    advanced = advanced and d.get("BYSETPOS", (1,)) in ((1,), (-1,))
    ctx.count("rules")
    ctx.check(rule.isSimpleRule() == simple, "rule-simple", lambda: "%r for %s" % (rule.isSimpleRule(), text))
    ctx.check(rule.isAdvancedRule() == advanced, "rule-advanced", lambda: "%r for %s" % (rule.isAdvancedRule(), text))
    ctx.eq(R.canon_prop("RRULE:" + rule.getUIDescription()), p, "rule-description", text)
    s = RecurrenceSet()
    extra = rng.choice(["", "", "", "exdate", "rdate", "exrule", "rrule", "period", "only-date", "none"])
    if extra not in ("none", "only-date"):
        s.addRule(rule)
    x = DateTime(2020, 1, 1, 0, 0, 0)
    if 0: print repr(rule.getUIDescription())
    if extra == "exdate":
        s.subtractDT(x)
    elif extra in ("rdate", "only-date"):
        s.addDT(x)
    elif extra == "exrule":
        s.subtractRule(rule.duplicate())
    elif extra == "rrule":
        other = Recurrence()
        other.parse("FREQ=DAILY;COUNT=3")
        s.addRule(other)
    elif extra == "period":
        s.addPeriod(Period(x, DateTime(2020, 1, 2, 0, 0, 0)))
    if rng.random() < 0.3:
        s = s.duplicate()
    plain = extra in ("", "exdate")
    if extra == "none":
        want = (True, True, "No Recurrence")
    elif extra == "":
        want = (simple, advanced, None)
    elif plain:
        want = (simple, advanced, "Multiple recurrence rules, dates or exclusions")
    else:
        want = (False, False, "Multiple recurrence rules, dates or exclusions")
    ctx.count("complex" if not plain else "simple" if simple else "advanced" if advanced else "neither")
    ctx.eq(s.isSimpleUI(), want[0], "set-simple", "%s %s" % (extra, text))
    ctx.eq(s.isAdvancedUI(), want[1], "set-advanced", "%s %s" % (extra, text))
    if want[2] is None:
        ctx.eq(R.canon_prop("RRULE:" + s.getUIDescription()), p, "set-description", "%s %s" % (extra, text))
    else:
        ctx.eq(s.getUIDescription(), want[2], "set-description", "%s %s" % (extra, text))
    r = s.getUIRecurrence()
    ctx.check((r is not None) == (extra not in ("none", "only-date", "rrule")), "set-rule", "%s %s" % (extra, text))
    ctx.seen((text, extra), True, "%s %s" % (extra, text))


def uids(ctx, rng, i):
    # the clock stands still
    set_now(D.datetime(2020, 1, 1))
    cal = Calendar()
    for _ in range(rng.randint(2, 12)):
        k = rng.choice([VEvent, VToDo])
        e = k(parent=cal)
        if rng.random() < 0.3:
            e.setUID("given")
            ctx.eq([p.getText().strip() for p in e.getProperties("UID")], ["UID:given"], "uid-given", "")
        e.setUID(rng.choice([None, ""]))
        u = e.getUID()
        ctx.check(bool(u) and u not in UIDS, "uid-again", "%r" % u)
        ctx.eq([p.getText().replace("\r\n ", "").strip() for p in e.getProperties("UID")], ["UID:" + u], "uid-property", u)
        UIDS.add(u)
        ctx.count("uids")
        ctx.seen((u,), True, u)
    # keys stay what they are, and those without a UID have their own
    a, b = VEvent(), VEvent()
    ctx.check(a.getMapKey() == a.getMapKey() and a.getMapKey() != b.getMapKey(), "map-key", "%r %r" % (a.getMapKey(), b.getMapKey()))


def tables(ctx, rng, i):
    """the table of a month: every day under its weekday, the days of the adjoining months that fill its weeks as negative ones, and where today is"""
    y, m, ws = rng.randint(1800, 2200), rng.randint(1, 12), rng.randrange(7)
    first = D.date(y, m, 1)
    set_now(D.datetime(y, m, 1) + D.timedelta(days=rng.choice([0, rng.randint(-9, 40), rng.randint(0, 27)]), minutes=rng.randrange(1440)) if rng.random() < 0.8 else moment(rng))
    t = CLOCK.localtime(CLOCK.time())
    today = D.date(t.tm_year, t.tm_mon, t.tm_mday)
    d = first - D.timedelta(days=((first.weekday() + 1) % 7 - ws) % 7)
    want, at = [], [-1, -1]
    while True:
        row = []
        for c in range(7):
            row.append((d.year, d.month, d.day if d.month == m else -d.day))
            if d == today:
                at = [len(want), c]
            d += D.timedelta(days=1)
        want.append(row)
        if (d.year, d.month) != (y, m):
            break
    table, index = utils.getMonthTable(m, y, ws, [], [])
    got = []
    for row in table:
        got.append([])
        for x in row:
            one = [0, 0, 0]
            utils.unpackDate(x, one)
            ctx.eq((utils.unpackDateYear(x), utils.unpackDateMonth(x), utils.unpackDateDay(x)), tuple(one), "month-packed", "%d" % x)
            ctx.eq(utils.packDate(*one), x, "month-packed", "%d" % x)
            got[-1].append(tuple(one))
    what = "%d-%02d with weeks from weekday %d" % (y, m, ws)
    ctx.check(got == want, "month-table", lambda: "%s: %s, not %s" % (what, got, want))
    ctx.eq(list(index), at, "month-today", "%s, today %s" % (what, today))
    ctx.count("tables")
    if at != [-1, -1]:
        ctx.count("todays")
    ctx.seen((what, at[0], at[1]), True, what)
