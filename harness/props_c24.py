# -*- coding: utf-8 -*-
"""C24: an instance derived from a recurring component is that instance, and only that."""
import datetime as D
import props_c13 as P
import props_c16 as C16
import refical as R
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from refcal import *
from vskip import Skip

RULE = ("random calendars of recurring events, to-dos and journals (all-day, floating, UTC, zoned; DTEND or DUE, DURATION or neither; EXDATE, EXRULE, overrides, alarms, attendees), instances of the first master derived from their time in UTC, in its timezone "
        "or in another, added to the calendar and then changed; compared with a model, with the expansion before and with the calendar read again; distinct by master and instance")
REQUIRE = {"derived": 700, "utc-rid": 100, "other-rid": 60, "dtend": 150, "due": 40, "exrule": 60, "duration": 200, "neither": 60, "alarms": 150, "expanded": 400, "instances": 2000, "moved": 200, "none": 40, "allday": 100, "allday-timed": 30}
PLAN = [("derive", 1600, 10000)]
ASSUMPTIONS = ["the time given is one of an instance; instances next to a change of offset, and calendars with RANGE overrides, are not generated", "where the end is given by DTEND or DUE its timezone form is the start's"]

setup = P.setup
MORE = ["LOCATION:Room 1", "ATTENDEE;CN=\"x, y\":mailto:a@example.com", "ATTENDEE:mailto:b@example.com", "X-FOO;X-P=1:bar", "CLASS:PRIVATE", "SEQUENCE:3", "DESCRIPTION:a\\nb\\,c", "CATEGORIES:a,b", "STATUS:CONFIRMED", "CREATED:20200101T000000Z"]
DROP = ("RRULE", "RDATE", "EXRULE", "EXDATE", "RECURRENCE-ID", "DTSTART", "DTEND", "DUE")


def val(kind, t):
    if kind == "date":
        return (t.year, t.month, t.day)
    return (t.year, t.month, t.day, t.hour, t.minute, t.second, "Z" if kind == "utc" else "")


def mprop(name, kind, zone, t):
    return (name, (("TZID", (zone.tzid,)),) if kind == "zone" else (), "DATE" if kind == "date" else "DATE-TIME", val(kind, t))


def derive(ctx, rng, i):
    clock = rng.choice([("utc", None), ("floating", None), ("zone", P.ZONES[0]), ("zone", P.ZONES[1])])
    anchor = D.datetime(rng.randint(1995, 2045), rng.randint(1, 12), rng.randint(1, 28), 9, 0, 0)
    comps, fixed, rec = C16.gen_event(ctx, rng, "u0", clock, anchor)
    if rec is None:
        raise Skip()
    kind, zone, uid, s, d, occ, ex, ov, st = rec
    if any(o[5] for o in ov):
        raise Skip()
    typ = rng.choice(["VEVENT", "VEVENT", "VEVENT", "VTODO", "VJOURNAL"])
    master = comps[0]
    at = len(master) - 1
    for l in rng.sample(MORE, rng.choice([0, 2, 5])):
        if typ != "VEVENT" and l.startswith("STATUS"):
            continue
        master.insert(rng.randint(2, at), l)
        at += 1
    first = None
    if rng.random() < 0.2:
        master.insert(rng.randint(2, at), "EXRULE:FREQ=YEARLY;COUNT=1")
        first = s
        ctx.count("exrule")
    if typ != "VJOURNAL":
        for n in range(rng.choice([0, 0, 1, 2])):
            master[-1:-1] = ["BEGIN:VALARM", "ACTION:DISPLAY", "TRIGGER:-PT%dM" % (5 + n), "DESCRIPTION:x", "END:VALARM"]
            ctx.count("alarms")
    if typ != "VEVENT":
        comps = [[l.replace("VEVENT", typ) for l in c if typ != "VJOURNAL" or not l.startswith(("DTEND", "DURATION"))] for c in comps]
        comps = [[("DUE" + l[5:] if l.startswith("DTEND") else l) if typ == "VTODO" else l for l in c] for c in comps]
    master = comps[0]
    how = "dtend" if any(l.startswith("DTEND") for l in master) else "due" if any(l.startswith("DUE") for l in master) else "duration" if any(l.startswith("DURATION") for l in master) else "neither"
    order = list(comps)
    rng.shuffle(order)
    if rng.random() < 0.4:
        o, _f, _r = C16.gen_event(ctx, rng, "u1", clock, anchor)
        order += o
    head = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\n"
    tz = clock[1].text() if clock[1] is not None and rng.random() < 0.3 else ""
    src = head + tz + "".join("".join(l + "\r\n" for l in c) for c in order) + "END:VCALENDAR\r\n"
    cal = Calendar.parseText(src)
    free = [t for t in occ if t not in ex and t != first and t not in [o[0] for o in ov]]
    if zone is not None:
        free = [t for t in free if zone.classify(t)[0] == "plain" and zone.classify(t + d)[0] == "plain" and zone.classify(t)[1] == zone.classify(t + d)[1]]
    if not free:
        raise Skip()
    mm = R.canon(head + "".join(l + "\r\n" for l in master) + "END:VCALENDAR\r\n")[0][2][0]
    win = Period(DateTime(anchor.year - 1, 1, 1, 0, 0, 0), DateTime(anchor.year + 2, 1, 1, 0, 0, 0)) if kind == "date" else Period(P.mk(clock[0], clock[1], anchor - D.timedelta(40)), P.mk(clock[0], clock[1], anchor + D.timedelta(160)))

    def shown(c):
        got = []
        c.getVEvents(win, got)
        return sorted((x.getOwner().getUID(), x.getInstanceStart().getText(), x.getInstanceEnd().getText()) for x in got)
    was = shown(cal)
    now = R.canon(src)[0]
    for t in rng.sample(free, min(len(free), rng.choice([1, 1, 2, 3]))):
        where = lambda: "(%s at %s) of %s" % (typ, t, src[:2500])
        # the instance in UTC, in its own timezone, or in another
        form = "own"
        if kind == "date":
            rid = P.mk("date", None, t)
            ctx.count("allday")
            if rng.random() < 0.3:
                # a time of that day
                form = rng.choice(["floating", "utc"])
                rid = P.mk(form, None, t + D.timedelta(seconds=rng.choice([0, 0, 3600, 86399, rng.randrange(86400)])))
                ctx.count("allday-timed")
        elif kind == "floating":
            rid = P.mk("floating", None, t)
        else:
            form = rng.choice(["own", "utc", "other"])
            u = t if kind == "utc" else t - D.timedelta(seconds=zone.classify(t)[1])
            if form == "other":
                oz = [z for z in P.ZONES if z is not zone][0]
                l = oz.local(u) if hasattr(oz, "local") else None
                if l is None or oz.classify(l)[0] != "plain":
                    form = "utc"
                else:
                    rid = P.mk("zone", oz, l)
                    ctx.count("other-rid")
            if form == "utc":
                rid = P.mk("utc", None, u)
                ctx.count("utc-rid")
            if form == "own":
                rid = P.mk(kind, zone, t)
        asked = rid.getText()
        before = str(cal)
        try:
            got = cal.deriveComponent(rid)
        except Exception as e:
            ctx.viol("fails-" + e.__class__.__name__, "deriveComponent(%s) raised %r %s" % (asked, e, where()))
            return
        ctx.count("derived")
        ctx.count(how)
        ctx.seen((kind, how, typ, form, repr(mm), t), True, "%s of %s" % (t, src[:300]))
        ctx.check(rid.getText() == asked, "argument", lambda: "deriveComponent changed its argument to %s %s" % (rid.getText(), where()))
        ctx.check(str(cal) == before, "changed", lambda: "deriveComponent changed the calendar to %s %s" % (str(cal)[:2000], where()))
        if not ctx.check(got is not None, "nothing", lambda: "nothing was derived %s" % where()):
            return
        ps = [p for p in mm[1] if p[0] not in DROP] + [mprop("DTSTART", kind, zone, t), mprop("RECURRENCE-ID", kind, zone, t)]
        if how in ("dtend", "due"):
            ps.append(mprop("DTEND" if how == "dtend" else "DUE", kind, zone, t + d))
        want = R.comp(typ, ps, mm[2])
        g = R.canon(head + got.getText() + "END:VCALENDAR\r\n")[0][2][0]
        ctx.check(g == want, "derived", lambda: "derived: %s %s" % (R.diff(want, g), where()))
        # in the calendar it stands for the instance it is
        cal.addComponent(got)
        now = R.comp(now[0], now[1], list(now[2]) + [want])
        c = R.canon(str(cal))[0]
        ctx.check(c == now, "added", lambda: "with it the calendar is: %s %s" % (R.diff(now, c), where()))
        if typ == "VEVENT":
            a = shown(cal)
            ctx.count("expanded")
            ctx.count("instances", len(was))
            ctx.check(a == was, "expansion", lambda: "with the instance added the calendar shows %r, not %r %s" % ([x for x in a if x not in was], [x for x in was if x not in a], where()))
            b = shown(Calendar.parseText(str(cal)))
            ctx.check(a == b, "read-again", lambda: "it shows %r, and read again %r %s" % ([x for x in a if x not in b], [x for x in b if x not in a], where()))
        # what is done to it is done to nothing else
        if rng.random() < 0.5:
            ctx.count("moved")
            dt = got.findFirstProperty("DTSTART").getDateTimeValue().getValue()
            if kind == "date":
                dt.offsetDay(3)
            else:
                dt.offsetHours(5)
            for p in sum(got.getProperties().values(), []):
                if p.getName() == "SUMMARY":
                    p.getTextValue().setValue("changed")
                if p.getName() == "CATEGORIES":
                    p.getMultiValue().getValues()[0].setValue("changed")
            for k in got.getComponents():
                k.removeProperties("DESCRIPTION")
            r = R.canon_prop([l for l in R.lines_of(got.getText()) if l.startswith("RECURRENCE-ID")][0])
            ctx.check(r == mprop("RECURRENCE-ID", kind, zone, t), "shared-id", lambda: "moving its DTSTART moved its RECURRENCE-ID to %r %s" % (r, where()))
            cal.removeComponent(got)
            now = R.comp(now[0], now[1], [k for k in now[2] if k != want])
            c = R.canon(str(cal))[0]
            ctx.check(c == now, "shared", lambda: "changing the derived instance changed the calendar: %s %s" % (R.diff(now, c), where()))
            a = shown(cal)
            ctx.check(a == was, "removed", lambda: "with the instance removed again the calendar shows %r, not %r %s" % ([x for x in a if x not in was], [x for x in was if x not in a], where()))
    if rng.random() < 0.2:
        ctx.count("none")
        c = Calendar.parseText(head + "BEGIN:VEVENT\r\nUID:u0\r\nDTSTAMP:20200101T000000Z\r\nRECURRENCE-ID:20200101T000000Z\r\nDTSTART:20200101T000000Z\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")
        ctx.check(c.deriveComponent(P.mk("utc", None, anchor)) is None and c.masterComponent() is None, "no-master", "something is derived without a master")
