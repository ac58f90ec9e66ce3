# -*- coding: utf-8 -*-
"""C29: editing operations."""
import datetime
import random
import reftz
from refcal import nth_dow_in_month
import refical as R
import icalgen as G
import vcardgen as V
import views
from vskip import Skip
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar import definitions as D
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.vcard.card import Card

RULE = ("random calendars (the generator of C01) and random sequences of one to six editing operations on their components: UID, sequence, stamps, summary, description and location, any property, the timing of events, to-dos, "
        "journals and free-busy components, recurrence sets, observances of time zones (changed, added, removed), whole lives of to-dos, status, completion, every edit of an alarm, name and description of the calendar, properties replaced or removed followed by finalise(). After each the canonical content "
        "must be that before it with exactly the change that was asked for; everything the calendar answers must equal what the calendar read back from its text answers, and writing it again gives the same text; changing the objects "
        "that were passed in changes nothing, and neither does any of it change a duplicate made before. Setters of the parts of vCard N, ADR likewise. Distinct by operation, component type and form of its arguments")
REQUIRE = {"edits": 800, "arguments_changed": 250, "reread": 800, "operations": 24, "duplicates": 150, "parts": 500, "zones_edited": 200, "zone_edits": 8}
PLAN = [("components", 420, 9000), ("names", 200, 3000), ("observances", 120, 4000), ("todos", 80, 2000)]
ASSUMPTIONS = ["setters that only change what is cached (setSummary, setStatus, setPriority, setName) are not edits", "start and end of components that state neither, interval of alarms that do not repeat and the unused form of a trigger are not compared",
               "all-day components last whole days, durations are positive; editTimingStartEnd is for events and free-busy components (it writes DTEND), editTimingDue for to-dos",
               "an end that is not after the start is replaced by the start of the following day (or the all-day default), as the code says"]

ZONE = ["America/New_York", "Europe/London", "X-No-Such-Zone"]
STATUS = {
    "VEVENT": [(D.eStatus_VEvent_None, None), (D.eStatus_VEvent_Tentative, "TENTATIVE"), (D.eStatus_VEvent_Confirmed, "CONFIRMED"), (D.eStatus_VEvent_Cancelled, "CANCELLED")],
    "VTODO": [(D.eStatus_VToDo_None, None), (D.eStatus_VToDo_NeedsAction, "NEEDS-ACTION"), (D.eStatus_VToDo_InProcess, "IN-PROCESS"), (D.eStatus_VToDo_Completed, "COMPLETED"), (D.eStatus_VToDo_Cancelled, "CANCELLED")],
}
OWNED = {"AUDIO": ("X-MULBERRY-SPEAK-TEXT",), "DISPLAY": ("DESCRIPTION",), "EMAIL": ("DESCRIPTION", "SUMMARY", "ATTENDEE"), "URI": ("URL",)}
RULES = ["FREQ=DAILY;COUNT=5", "FREQ=WEEKLY;BYDAY=MO,WE;UNTIL=20300101T000000Z", "FREQ=MONTHLY;BYMONTHDAY=-1;INTERVAL=2", "FREQ=YEARLY;BYMONTH=3;BYDAY=2SU", "FREQ=HOURLY;INTERVAL=6;COUNT=9"]


def mk(v, zone=None):
    """the library's date-time for a canonical value"""
    if len(v) == 3:
        return DateTime(*v)
    return DateTime(v[0], v[1], v[2], v[3], v[4], v[5], tzid=Timezone(utc=True) if v[6] == "Z" else Timezone(tzid=zone) if zone else None)


def stated(name, v, zone=None, multi=False):
    """the canonical property for it"""
    return (name, (("TZID", (zone,)),) if zone else (), "DATE" if len(v) == 3 else "DATE-TIME", (v,) if multi else v)


def moment(rng, dates=True):
    k = rng.choice(["date", "float", "utc", "zone", "zone"]) if dates else rng.choice(["float", "utc", "zone", "zone"])
    if k == "date":
        return G.date(rng), None, k
    return G.datetime(rng, "Z" if k == "utc" else ""), rng.choice(ZONE) if k == "zone" else None, k


def later(rng, v):
    return (v[0] + rng.choice([1, 1, 2]),) + v[1:]


def nextday(v, days=1):
    d = DateTime(v[0], v[1], v[2])
    d.offsetDay(days)
    r = (d.getYear(), d.getMonth(), d.getDay())
    return r if len(v) == 3 else r + (0, 0, 0, v[6])


def text(name, s):
    return (name, (), R.DEFAULT.get(name) or "UNKNOWN", s)


def words(rng):
    return rng.choice(["", "A", "two words", "a, b; c\\d", "line\nbreak", "caf\xc3\xa9", "x" * 90])


def dur(n):
    d = Duration()
    d.setDuration(n)
    return d


def spoil(x):
    """changes an object of the caller"""
    if isinstance(x, DateTime):
        x.setYear(1999)
        x.offsetDay(3)
    elif isinstance(x, Duration):
        x.setDuration(4321)
    elif isinstance(x, Period):
        spoil(x.getStart())
    elif isinstance(x, Recurrence):
        x.setInterval(77)
    elif isinstance(x, RecurrenceSet):
        for l in (x.getRules(), x.getExrules(), x.getDates(), x.getExdates(), x.getPeriods(), x.getExperiods()):
            for o in l:
                spoil(o)
            del l[:]
        x.addDT(DateTime(1999, 1, 1))
    elif isinstance(x, list):
        x.append("mailto:spoilt@example.com")
    elif isinstance(x, VAlarm.VAlarmAction):
        if isinstance(x, VAlarm.VAlarmEmail):
            x.mAttendees.append("mailto:spoilt@example.com")
        for n in ("mDescription", "mSummary", "mURI", "mSpeakText"):
            if hasattr(x, n):
                setattr(x, n, "spoilt")


def rule(t):
    r = Recurrence()
    r.parse(t)
    return r


def op_common(rng, c, typ):
    """(what, call, names removed, properties added, objects passed)"""
    k = rng.choice(["uid", "seq", "summary", "details", "property", "stamp", "modified", "finalise", "finalise"])
    if k == "uid":
        u = G.atom(rng, 9) + rng.choice(["", "@example.com", "-A,B"])
        if rng.random() < 0.2:
            return "new-uid", lambda: c.setUID(rng.choice([None, ""])), ("UID",), "new", []
        return k, lambda: c.setUID(u), ("UID",), [text("UID", u)], []
    if k == "seq":
        n = rng.choice([0, 1, 7, 123456])
        return k, lambda: c.setSeq(n), ("SEQUENCE",), [("SEQUENCE", (), "INTEGER", n)], []
    if k in ("stamp", "modified"):
        return k, c.initDTSTAMP if k == "stamp" else c.updateLastModified, ("DTSTAMP" if k == "stamp" else "LAST-MODIFIED",), "now", []
    if k == "summary" and hasattr(c, "editSummary"):
        s = words(rng)
        return k, lambda: c.editSummary(s), ("SUMMARY",), [text("SUMMARY", s)] if s else [], []
    if k == "details" and hasattr(c, "editDetails"):
        a, b = words(rng), words(rng)
        return k, lambda: c.editDetails(a, b), ("DESCRIPTION", "LOCATION"), [text(n, s) for n, s in (("DESCRIPTION", a), ("LOCATION", b)) if s], []
    if k == "property":
        n = rng.choice(["COMMENT", "CATEGORIES", "X-FOO", "URL", "CONTACT", "CLASS"])
        s = rng.choice(["", "http://example.com/a", "word", "PUBLIC"])
        if n == "CATEGORIES":
            n = "CONTACT"
        return k, lambda: c.editProperty(n, s), (n,), [text(n, s)] if s else [], []
    # properties replaced or removed, then finalised
    names = [n for n in c.getProperties().keys() if n in ("SUMMARY", "UID", "SEQUENCE", "STATUS", "DTSTART", "DTEND", "DURATION", "DUE", "RRULE", "RDATE", "EXDATE", "EXRULE", "PRIORITY", "PERCENT-COMPLETE", "COMPLETED",
                                                          "RECURRENCE-ID", "DTSTAMP", "DESCRIPTION", "LOCATION", "X-WR-CALNAME", "X-WR-CALDESC")]
    if typ == "VALARM":
        names = [n for n in c.getProperties().keys() if n in ("ACTION", "DESCRIPTION", "SUMMARY", "ATTENDEE", "REPEAT", "TRIGGER")]
    if not names:
        return None
    n = rng.choice(sorted(names))
    if typ != "VALARM" and rng.random() < 0.5:
        def call():
            c.removeProperties(n)
            c.finalise()
        return "finalise-remove", call, (n,), [], []
    if n == "TRIGGER":
        p = G.prop(rng, n, rng.choice(["DURATION", "DATE-TIME"]), ps=0)
        if p[2] == "DATE-TIME":
            p = (n, (), "DATE-TIME", p[3][:6] + ("Z",))
    elif n == "ACTION":
        p = text(n, rng.choice(["AUDIO", "DISPLAY", "X-ELSE"]))
    elif n == "DURATION":
        p = (n, (), n, 7200)
    elif n == "STATUS":
        p = text(n, rng.choice(["CANCELLED", "CONFIRMED", "NEEDS-ACTION", "IN-PROCESS", "TENTATIVE", "COMPLETED"]))
    else:
        p = G.prop(rng, n, ps=0)
    line = R.w_prop(rng, p)

    def call():
        c.removeProperties(n)
        c.addProperty(Property.parseText(line))
        c.finalise()
    return "finalise-replace", call, (n,), [R.canon_prop(line)], []


TIMING = ("DTSTART", "DTEND", "DURATION", "DUE")


def op_timing(rng, c, typ):
    names = TIMING if typ != "VFREEBUSY" else TIMING[:3]
    k = rng.choice(["none", "startend", "startend", "startduration", "startduration", "due"])
    if k == "none":
        return "timing-none", c.editTiming, names, [], []
    s, z, form = moment(rng, typ != "VFREEBUSY")
    a = mk(s, z)
    if k == "due":
        if typ != "VTODO":
            return None
        return "timing-due-" + form, lambda: c.editTimingDue(a), names, [stated("DUE", s, z)], [a]
    want = [stated("DTSTART", s, z)]
    if k == "startend":
        if typ not in ("VEVENT", "VFREEBUSY"):
            return None
        e = rng.choice(["later", "later", "day", "days", "same", "before"])
        t = later(rng, s) if e == "later" else s if e == "same" else (s[0] - 1,) + s[1:] if e == "before" else nextday(s, 1 if e == "day" else 3)
        b = mk(t, z)
        if e in ("same", "before"):
            t = nextday(s)
        if len(s) != 3 or t != nextday(s):
            want.append(stated("DTEND", t, z))
        return "timing-end-%s-%s" % (form, e), lambda: c.editTimingStartEnd(a, b), names, want, [a, b]
    n = rng.choice([86400, 172800, 604800, 1209600]) if len(s) == 3 else rng.choice([1, 60, 3600, 86400, 90061, 604800])
    d = dur(n)
    if not (typ == "VEVENT" and len(s) == 3 and n == 86400):
        want.append(("DURATION", (), "DURATION", n))
    return "timing-duration-%s-%s" % (form, n % 86400 == 0), lambda: c.editTimingStartDuration(a, d), names, want, [a, d]


def op_recurrence(rng, c, typ):
    rs = RecurrenceSet()
    want = []
    shape = []
    for n, add in (("RRULE", rs.addRule), ("EXRULE", rs.subtractRule)):
        for _ in range(rng.choice([0, 1, 1, 2]) if n == "RRULE" else rng.choice([0, 0, 1])):
            t = rng.choice(RULES)
            add(rule(t))
            want.append((n, (), "RECUR", R.c_recur(t)))
            shape.append(n)
    for n, add in (("RDATE", rs.addDT), ("EXDATE", rs.subtractDT)):
        for _ in range(rng.choice([0, 0, 1, 2])):
            v, z, form = moment(rng)
            add(mk(v, z))
            want.append(stated(n, v, z, True))
            shape.append(n + form)
    if rng.random() < 0.4:
        v, z, form = moment(rng, False)
        e = later(rng, v)
        rs.addPeriod(Period(mk(v, z), mk(e, z)))
        want.append(("RDATE", (("TZID", (z,)),) if z else (), "PERIOD", ((v, e),)))
        shape.append("PERIOD" + form)
    return "recurrence-" + "+".join(shape), lambda: c.editRecurrenceSet(rs), ("RRULE", "EXRULE", "RDATE", "EXDATE"), want, [rs]


def op_status(rng, c, typ):
    if typ == "VTODO" and rng.random() < 0.4:
        v, z, form = moment(rng, False)
        if form == "float":
            return None
        if z:
            v, z = v[:6] + ("Z",), None
        a = mk(v)
        return "completed", lambda: c.editCompleted(a), ("COMPLETED",), [stated("COMPLETED", v)], [a]
    if typ not in STATUS:
        return None
    n, t = rng.choice(STATUS[typ])
    if c.getStatus() == n:
        return None
    gone = ("STATUS", "COMPLETED") if typ == "VTODO" else ("STATUS",)
    return "status-%s" % t, lambda: c.editStatus(n), gone, "completed-now" if t == "COMPLETED" else [text("STATUS", t)] if t else [], []


def op_alarm(rng, c, typ):
    k = rng.choice(["status", "action", "action", "on", "by", "repeats"])
    if k == "status":
        n, t = rng.choice([(D.eAlarm_Status_Pending, "PENDING"), (D.eAlarm_Status_Completed, "COMPLETED"), (D.eAlarm_Status_Disabled, "DISABLED")])
        return "alarm-status", lambda: c.editStatus(n), ("X-MULBERRY-ALARM-STATUS",), [text("X-MULBERRY-ALARM-STATUS", t)], []
    if k == "action":
        old = [p.getTextValue().getValue() for p in c.getProperties("ACTION")]
        gone = ("ACTION",) + (OWNED.get(old[0], ()) if old else ("DESCRIPTION",))
        t = rng.choice(["AUDIO", "AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "PROCEDURE"])
        s, u = rng.choice(["Hello", "a, b", "x\ny"]), rng.choice(["Sum", "S; T"])
        want = [text("ACTION", t)]
        if t == "AUDIO":
            s = rng.choice([s, None])
            data, n = VAlarm.VAlarmAudio(s), D.eAction_VAlarm_Audio
            if s is not None:
                want.append(text("X-MULBERRY-SPEAK-TEXT", R.entext(s)))
        elif t == "DISPLAY":
            data, n = VAlarm.VAlarmDisplay(s), D.eAction_VAlarm_Display
            want.append(text("DESCRIPTION", s))
        elif t == "EMAIL":
            who = ["mailto:%s@example.com" % G.atom(rng) for _ in range(rng.randint(1, 3))]
            data, n = VAlarm.VAlarmEmail(s, u, list(who)), D.eAction_VAlarm_Email
            want += [text("DESCRIPTION", s), text("SUMMARY", u)] + [text("ATTENDEE", w) for w in who]
        elif t == "URI":
            data, n = VAlarm.VAlarmURI("http://example.com/x"), D.eAction_VAlarm_URI
            want.append(text("URL", "http://example.com/x"))
        elif t == "NONE":
            data, n = VAlarm.VAlarmNone(), D.eAction_VAlarm_None
        else:
            data, n = VAlarm.VAlarmUnknown(), D.eAction_VAlarm_Procedure
        return "alarm-" + t, lambda: c.editAction(n, data), gone + OWNED.get(t, ()), want, [data]
    if k == "on":
        v = G.datetime(rng, "Z")
        a = mk(v)
        return "alarm-on", lambda: c.editTriggerOn(a), ("TRIGGER",), [stated("TRIGGER", v)], [a]
    if k == "by":
        n, start = rng.choice([0, 60, -900, 86400, -604800]), rng.random() < 0.5
        a = dur(n)
        return "alarm-by", lambda: c.editTriggerBy(a, start), ("TRIGGER",), [("TRIGGER", (("RELATED", ("START" if start else "END",)),), "DURATION", n)], [a]
    n, i = rng.choice([0, 1, 3]), rng.choice([60, 300, 86400])
    a = dur(i)
    return "alarm-repeats", lambda: c.editRepeats(n, a), ("REPEAT", "DURATION"), [("REPEAT", (), "INTEGER", n), ("DURATION", (), "DURATION", i)] if n else [], [a]


def op_calendar(rng, c, typ):
    k = rng.choice(["name", "description", "common"])
    if k == "common":
        return None
    n = "X-WR-CALNAME" if k == "name" else "X-WR-CALDESC"
    s = words(rng)
    if s == (c.getName() if k == "name" else c.getDescription()):
        return None
    return "calendar-" + k, lambda: (c.editName if k == "name" else c.editDescription)(s), (n,), [text(n, s)] if s else [], []


def all_components(c):
    res = [c]
    for s in c.getComponents():
        res += all_components(s)
    return res


class Here(dict):
    def get(self, k, d=None):
        return "here"


NOT = frozenset(("getOriginalSeq", "getChanged", "getSpanPeriod", "getBusyTime", "getNextTrigger"))


def told(c):
    """what a calendar and its components answer, whatever the order of the components"""
    out = []
    drop = set(NOT)
    a = dict(views.answers(c, Here()))
    if a.get("hasStart") is False:
        drop.add("getStart")
        if not any(c.hasProperty(n) for n in ("DTEND", "DUE")):
            drop.add("getEnd")
    if c.getType() == "VALARM":
        drop |= set(("getTriggerDuration", "isTriggerOnStart") if a["isTriggerAbsolute"] else ("getTriggerOn",))
        if not c.getRepeats():
            drop.add("getInterval")
    if a.get("hasCompleted") is False:
        drop.add("getCompleted")
    if a.get("hasStamp") is False:
        drop.add("getStamp")
    props = sorted((n, sorted(str(p) for p in ps)) for n, ps in c.getProperties().items())
    subs = sorted((told(s) for s in c.getComponents()), key=repr)
    return (c.getType(), props, [(n, a[n]) for n in sorted(a) if n not in drop], subs)


def written(cal):
    return cal.getText(includeTimezones=Calendar.NO_TIMEZONES)


def tree(c):
    t = written(c) if c.getType() == "VCALENDAR" else c.getText()
    return R.canon(t)[0]


def replaced(t, old, new):
    """the tree with one subtree replaced"""
    if t == old:
        return new, True
    kids = list(t[2])
    for n, k in enumerate(kids):
        r, ok = replaced(k, old, new)
        if ok:
            kids[n] = r
            return R.comp(t[0], t[1], kids), True
    return t, False


def near(v):
    now = DateTime.getNowUTC()
    return len(v) == 7 and v[6] == "Z" and abs((now - mk(v)).getTotalSeconds()) < 300


def components(ctx, rng, i):
    model = G.calendar(rng, rng.choice([1, 1, 2, 3]))
    cal = Calendar.parseText(R.write(rng, model))
    if cal is None:
        raise Skip()
    edits(ctx, rng, cal, rng.randint(1, 6))


def todos(ctx, rng, i):
    """the status and the completion of a to-do through its whole life, in an order of their own"""
    extra = [x for x in ("STATUS:" + rng.choice(["NEEDS-ACTION", "IN-PROCESS", "COMPLETED", "CANCELLED"]), "COMPLETED:20200%d%02dT000000Z" % (rng.randint(1, 9), rng.randint(1, 28)), "PERCENT-COMPLETE:%d" % rng.randint(0, 100)) if rng.random() < 0.5]
    cal = Calendar.parseText("\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VTODO", "UID:u", "DTSTAMP:20200101T000000Z"] + extra + ["END:VTODO", "END:VCALENDAR", ""]))
    edits(ctx, rng, cal, rng.randint(3, 8), [op_status, op_status, op_status, op_timing])


def edits(ctx, rng, cal, count, only=None):
    for n in range(count):
        comps = [c for c in all_components(cal) if c.getType() in ("VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VALARM")]
        alarms = [c for c in comps if c.getType() == "VALARM"]
        c = rng.choice(alarms) if alarms and rng.random() < 0.4 else rng.choice(comps)
        typ = c.getType()
        if typ == "VCALENDAR":
            ops = [op_calendar]
        elif typ == "VALARM":
            ops = [op_alarm, op_alarm, op_alarm, op_common]
        elif typ == "VFREEBUSY":
            ops = [op_timing, op_common]
        else:
            ops = [op_timing, op_timing, op_recurrence, op_status, op_common, op_common]
        if only:
            c = cal.getComponents()[0]
            typ = c.getType()
            ops = only
        op = rng.choice(ops)(rng, c, typ)
        if op is None or op[0] in ("seq", "stamp", "modified", "uid", "new-uid") and typ == "VALARM":
            continue
        what, call, gone, want, given = op
        key = what.split("-")[0] if not what.startswith(("timing", "alarm", "finalise", "status")) else "-".join(what.split("-")[:2])
        before, own = tree(cal), tree(c)
        dup = cal.duplicate() if rng.random() < 0.3 else None
        was = (written(dup), told(dup)) if dup is not None else None
        call()
        ctx.count("edits")
        ctx.mark("operations", key)
        after = tree(cal)
        mine = tree(c)
        if want == "now":
            new = [p for p in mine[1] if p[0] == gone[0]]
            ctx.check(len(new) == 1 and near(new[0][3]), key, lambda: "%s: %r" % (what, new))
            want = new
        elif want == "new":
            new = [p for p in mine[1] if p[0] == "UID"]
            ctx.check(len(new) == 1 and len(new[0][3]) > 20 and new[0][3] not in MADE, key, lambda: "%s: %r" % (what, new))
            MADE.update(p[3] for p in new)
            want = new
        elif want == "completed-now":
            new = [p for p in mine[1] if p[0] == "COMPLETED"]
            ctx.check(len(new) == 1 and near(new[0][3]), key, lambda: "%s: %r" % (what, new))
            want = new + [text("STATUS", "COMPLETED")]
        expect = R.comp(own[0], [p for p in own[1] if p[0] not in gone] + list(want), own[2])
        whole, ok = replaced(before, own, expect)
        assert ok
        ctx.check(after == whole, key, lambda: "%s of a %s: %s" % (what, typ, R.diff(whole, after)))
        ctx.seen((what, typ), True, "%s: %s" % (typ, what))
        t = written(cal)
        live = told(cal)
        again = Calendar.parseText(t)
        d = views.difference(live, told(again))
        ctx.count("reread")
        ctx.check(d is None, key + "-answers", lambda: "%s of a %s: edited / re-read differ: %s in %s" % (what, typ, d, t))
        ctx.eq(written(again), t, key + "-text", "%s of a %s: text of the re-read" % (what, typ))
        if given:
            for g in given:
                spoil(g)
            ctx.count("arguments_changed")
            d = views.difference(live, told(cal))
            ctx.check(d is None and written(cal) == t, key + "-argument", lambda: "%s of a %s: changed with the object passed in: %s" % (what, typ, d))
        if dup is not None:
            ctx.count("duplicates")
            ctx.check((written(dup), told(dup)) == was, key + "-duplicate", lambda: "%s of a %s changed a duplicate" % (what, typ))



MADE = set()
PARTS = {"N": ("Last", "First", "Middle", "Prefix", "Suffix"), "ADR": ("Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country")}


def names(ctx, rng, i):
    n = rng.choice(["N", "ADR"])
    part = lambda: rng.choice(["", "one", "a, b", "c; d", "caf\xc3\xa9", "x\\y", ("p", "q"), ("p, q", "r; s")])
    want = [part() for _ in PARTS[n]]
    enc = lambda v: ",".join(R.entext(x) for x in ((v,) if isinstance(v, str) else v))
    card = Card.parseText("BEGIN:VCARD\nVERSION:3.0\nFN:x\nUID:u\n%s:%s\nEND:VCARD\n" % (n, ";".join(enc(v) for v in want)))
    dup = card.duplicate()
    kept = dup.getText()
    o = card.getProperties(n)[0].getValue().getValue()
    # the reader may give an empty or single part as it likes; equal to what a re-read gives
    for _ in range(rng.randint(1, 5)):
        k = rng.randrange(len(PARTS[n]))
        v = part()
        want[k] = v
        getattr(o, "set" + PARTS[n][k])(v)
        ctx.count("parts")
        ctx.seen((n, k, isinstance(v, tuple)), True, "%s %s" % (n, PARTS[n][k]))
        line = [l for l in R.lines_of(card.getText()) if l.split(":")[0].split(";")[0] == n]
        ctx.eq([R.split_line(l)[2] for l in line], [";".join(enc(x) for x in want)], "part", "%s after set%s(%r)" % (n, PARTS[n][k], v))
        ctx.eq(getattr(o, "get" + PARTS[n][k])(), v, "part-value", "%s.get%s()" % (n, PARTS[n][k]))
        for m, w in zip(PARTS[n], want):
            g = getattr(o, "get" + m)()
            ctx.check(g == w or (g,) == w or g == (w,), "part-others", lambda: "%s.get%s() is %r not %r after set%s" % (n, m, g, w, PARTS[n][k]))
        again = Card.parseText(card.getText())
        ctx.check(again == card, "part-reread", lambda: "re-read %s not equal: %s" % (n, card.getText()))
    ctx.eq(dup.getText(), kept, "part-duplicate", "duplicate of the card")


def zone_edit(rng, obs, other):
    """change one observance description; -> what was changed"""
    o = rng.choice(obs)
    src = rng.choice(other)
    what = rng.choice(["rule", "rule", "name", "offset", "dates", "start", "no-name"])
    if what == "rule":
        if o["rule"] is None or rng.random() < 0.3:
            month, n, wd = rng.randint(1, 12), rng.choice([1, 2, 3, -1, -2]), rng.randrange(7)
            o["rule"] = (month, n, wd, None if rng.random() < 0.7 else o["start"].year + rng.randint(2, 30))
            o["rdates"] = []
            d = nth_dow_in_month(o["start"].year, month, n, wd)
            o["start"] = o["start"].replace(month=d.month, day=d.day)
        elif rng.random() < 0.5:
            month, n, wd, until = o["rule"]
            o["rule"] = (month, n, wd, o["start"].year + rng.randint(1, 30) if until is None else None)
        else:
            o["rule"] = None
            o["rdates"] = []
    elif what == "name":
        o["name"] = "N%d" % rng.randint(1, 99)
    elif what == "no-name":
        o["name"] = ""
    elif what == "offset":
        d = rng.choice([900, -900, 1800, 3600])
        o["to"] += d
    elif what == "dates":
        if o["rule"]:
            return zone_edit(rng, obs, other)
        o["rdates"] = sorted(set(o["start"] + datetime.timedelta(days=rng.randint(30, 6000)) for _ in range(rng.randint(0, 4))))
    elif what == "start":
        if o["rule"]:
            y = o["start"].year + rng.randint(1, 3)
            d = nth_dow_in_month(y, *o["rule"][:3])
            o["start"] = o["start"].replace(year=y, month=d.month, day=d.day)
            if o["rule"][3] is not None and o["rule"][3] < y:
                o["rule"] = o["rule"][:3] + (y,)
        else:
            o["start"] += datetime.timedelta(days=rng.randint(1, 300))
            o["rdates"] = [r for r in o["rdates"] if r > o["start"]]
    return what, o


def zone_told(rng_seed, vtz, span):
    """what a time zone answers"""
    rng = random.Random(rng_seed)
    lo, hi = span
    out = [str(vtz.getTimezoneOffsetSeconds(DateTime(lo - 1, 1, 1, 0, 0, 0)))]
    for _ in range(8):
        d = DateTime(rng.randint(lo, hi), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.choice([0, 59]), 0)
        out.append((d.getText(), vtz.getTimezoneOffsetSeconds(d), vtz.getTimezoneOffsetSeconds(d, True), vtz.getTimezoneDescriptor(d)))
    a, b = sorted((rng.randint(lo, hi), rng.randint(lo, hi) + 1))
    for s in (None, DateTime(a, 1, 1, 0, 0, 0)):
        out.append([(x[0].getText(), x[1].getText()) + tuple(x[2:5]) for x in vtz.expandAll(s, DateTime(b, 1, 1, 0, 0, 0), True)])
    out.append(sorted((c.getType(), c.getStart().getText(), c.getUTCOffset(), c.getTZName(), c.getUTCOffsetFrom()) for c in vtz.getComponents()))
    return out


def observances(ctx, rng, i):
    z = reftz.make_zone(rng, "Test/E%d" % i)
    other = reftz.make_zone(rng, "Test/O%d" % i).obs
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText(reftz.calendar_text([z]))
    vtz = [c for c in cal.getComponents() if c.getType() == "VTIMEZONE"][0]
    obs = [dict(o) for o in z.obs]
    comps = list(vtz.getComponents())
    by = dict(((c.getType(), c.getStart().getText(), c.getTZName()), c) for c in comps)
    pairs = [(o, by[(o["kind"], o["start"].strftime("%Y%m%dT%H%M%S"), o["name"])]) for o in obs]
    assert len(set(id(c) for o, c in pairs)) == len(comps)
    done = []
    for n in range(rng.randint(1, 4)):
        if rng.random() < 0.75:
            zone_told(rng.randrange(10 ** 9), vtz, (1950, rng.choice([1990, 2030])))
        r = rng.random()
        dup = cal.duplicate() if rng.random() < 0.3 else None
        was = dup.getText() if dup is not None else None
        if r < 0.12 and len(pairs) > 2:
            o, c = pairs.pop(rng.randrange(1, len(pairs)))
            vtz.removeComponent(c)
            what = "remove"
        elif r < 0.24:
            o = dict(rng.choice(other))
            c = [x for x in Calendar.parseText(reftz.calendar_text([reftz.Zone("Test/N", [o])])).getComponents()[0].getComponents()][0].duplicate(vtz)
            vtz.addComponent(c)
            pairs.append((o, c))
            what = "add"
        else:
            what, o = zone_edit(rng, [o for o, c in pairs], other)
            c = [c for x, c in pairs if x is o][0]
            want = [x.split(":", 1) for x in reftz.Zone("Test/N", [o]).text().split("\r\n")[3:-3]]
            for name in ("RRULE", "RDATE", "TZNAME", "TZOFFSETTO", "TZOFFSETFROM", "DTSTART"):
                had = [str(p).replace("\r\n ", "").strip().split(":", 1) for p in c.getProperties(name)]
                new = [w for w in want if w[0] == name]
                if had != new:
                    c.removeProperties(name)
                    for w in new:
                        c.addProperty(Property.parseText(":".join(w)))
            c.finalise()
        vtz.finalise()
        done.append(what)
        ctx.count("zones_edited")
        ctx.mark("zone_edits", what)
        text = cal.getText(includeTimezones=Calendar.NO_TIMEZONES)
        TimezoneDatabase.clearTimezoneDatabase()
        again = Calendar.parseText(text)
        fresh = [c for c in again.getComponents() if c.getType() == "VTIMEZONE"][0]
        flat = lambda lines: "|".join(sorted(";".join(sorted(l.replace(":", ";").split(";"))) for l in lines))
        ctx.eq(sorted(flat(reftz.Zone("Test/N", [o]).text().split("\r\n")[2:-2]) for o, c in pairs), sorted(flat(x.getText().strip().replace("\r\n ", "").split("\r\n")) for x in fresh.getComponents()), "zone-text", "after %s" % done)
        seed = rng.randrange(10 ** 9)
        d = views.difference(zone_told(seed, vtz, (1950, 2040)), zone_told(seed, fresh, (1950, 2040)))
        ctx.check(d is None, "zone-answers", lambda: "after %s: edited / re-read differ: %s in %s" % (done, d, text))
        if dup is not None:
            ctx.count("duplicates")
            ctx.check(dup.getText() == was, "zone-duplicate", lambda: "%s changed a duplicate" % done)
    ctx.seen(tuple(done), True, " ".join(done))
