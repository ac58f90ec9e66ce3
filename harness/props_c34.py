# -*- coding: utf-8 -*-
"""C34: when alarms ring."""
import datetime as D
import pycalendar.datetime as clockuser
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.timezone import Timezone
from pycalendar.icalendar import definitions as I
from pycalendar.icalendar.calendar import Calendar
from refcal import *
import refical as T
import props_c13 as P
from vskip import Skip
import time as realtime
import calendar as stdcal

RULE = ("random alarms (absolute, related to the start or end, before, at or after it; 0 to 5 repeats from a minute to days apart) of events and to-dos (UTC, zoned; DTEND, DUE, DURATION or none), at a clock set anywhere from long "
        "before the first to long after the last time, with a last trigger recorded or not. The first and the next time, and the whole series of times and states as the clock goes on and each is acknowledged, are compared with a "
        "reference; the calendar is saved and re-read at random in between, or a duplicate is used, and that must not make an alarm ring twice or be lost. Distinct by form of trigger, owner, repeats and place of the clock")
REQUIRE = {"alarms": 700, "rings": 900, "reread": 250, "completed": 300, "late": 60, "skipped": 60, "related_end": 100, "absolute": 100, "edited": 80, "duplicates": 60, "recorded": 60}
PLAN = [("alarms", 900, 25000)]
ASSUMPTIONS = ["the clock of the library is replaced by a settable one (the time module its date-time code uses)", "all-day and floating owners are left out (the time zone of an alarm's midnight is the user's)",
               "series of zoned alarms that touch a change of offset are left out", "times are asked for with getNextTrigger before alarmTriggered is called, as a notifier does; a time more than a day past counts as missed, as the code says"]


class Clock(object):
    now = 0

    def time(self):
        return self.now

    def __getattr__(self, n):
        return getattr(realtime, n)


CLOCK = Clock()


def setup(ctx):
    P.setup(ctx)
    clockuser.time = CLOCK


def set_now(t):
    CLOCK.now = stdcal.timegm(t.timetuple())


def moment(t, kind, zone):
    return P.mk(kind, zone, t)


def dtext(kind, zone, name, t):
    return "%s;TZID=%s:%s" % (name, zone.tzid, txt(t)) if kind == "zone" else "%s:%s" % (name, txt(t, True))


def dur_text(n):
    s = "-" if n < 0 else ""
    n = abs(n)
    d, r = divmod(n, 86400)
    return s + "P" + ("%dD" % d if d else "") + ("T%dH%dM%dS" % (r // 3600, r // 60 % 60, r % 60) if r or not d else "")


def dur(n):
    d = Duration()
    d.setDuration(n)
    return d


def utc(kind, zone, t):
    if kind == "utc":
        return t
    c = zone.classify(t)
    if c[0] != "plain":
        raise Skip()
    return t - D.timedelta(seconds=c[1])


def asked(alarm):
    """(next time in UTC or None, status)"""
    dt = DateTime()
    alarm.getNextTrigger(dt)
    if alarm.getAlarmStatus() == I.eAlarm_Status_Completed:
        return None, "completed"
    u = dt.duplicateAsUTC()
    return P.to_ref(u), {I.eAlarm_Status_Pending: "pending", I.eAlarm_Status_Disabled: "disabled"}[alarm.getAlarmStatus()]


def reference(series, now, last):
    """index of the next time, or None"""
    k = 0
    for n, t in enumerate(series):
        if t <= now:
            k = n
    if series[k] == last or now - series[k] > D.timedelta(1):
        return k + 1 if k + 1 < len(series) else None
    return k


def alarms(ctx, rng, i):
    kind = rng.choice(["utc", "zone"])
    zone = rng.choice(P.ZONES) if kind == "zone" else None
    s = rand_dt(rng, 1995, 2035)
    span = rng.choice([600, 3600, 5400, 86400, 90000, 3 * 86400])
    typ = rng.choice(["VEVENT", "VEVENT", "VTODO"])
    form = rng.choice(["end", "duration", "none"] if typ == "VEVENT" else ["end", "duration", "dueonly"])
    e = s + D.timedelta(seconds=span)
    lines = [] if form == "dueonly" else [dtext(kind, zone, "DTSTART", s)]
    if form in ("end", "dueonly"):
        lines.append(dtext(kind, zone, "DTEND" if typ == "VEVENT" else "DUE", e))
    elif form == "duration":
        lines.append("DURATION:" + dur_text(span))
    else:
        e = s
    off = rng.choice([0, -60, -900, -900, -3600, -86400, -604800, 300, 86400, rng.randint(-100000, 100000)])
    rep = rng.choice([0, 0, 1, 2, 3, 5])
    gap = rng.choice([60, 300, 3600, 43200, 86400, 90000, 172800])
    how = rng.choice(["absolute", "start", "start", "default", "end", "end"])
    if form == "dueonly" and how in ("start", "default"):
        how = "end"
    base = {"absolute": s, "end": e}.get(how, s)
    first = base + D.timedelta(seconds=off)
    if kind == "zone" and how != "absolute":
        offs = set(zone.classify(first + D.timedelta(seconds=k * gap))[1:2] if zone.classify(first + D.timedelta(seconds=k * gap))[0] == "plain" else "x" for k in range(rep + 1))
        offs |= set(zone.classify(t)[1:2] if zone.classify(t)[0] == "plain" else "x" for t in (s, e))
        if len(offs) != 1 or "x" in offs:
            raise Skip()
    u0 = first if how == "absolute" else utc(kind, zone, first)
    series = [u0 + D.timedelta(seconds=k * gap) for k in range(rep + 1)]
    trig = {"absolute": "TRIGGER;VALUE=DATE-TIME:" + txt(first, True), "start": "TRIGGER;RELATED=START:" + dur_text(off), "default": "TRIGGER:" + dur_text(off), "end": "TRIGGER;RELATED=END:" + dur_text(off)}[how]
    al = ["ACTION:" + rng.choice(["DISPLAY", "AUDIO"]), trig, "DESCRIPTION:x"]
    edit = rng.random() < 0.2
    if rep and not edit:
        al += ["REPEAT:%d" % rep, "DURATION:" + dur_text(gap)]
    # where the clock stands
    where = rng.choice(["before", "before", "at", "between", "late", "old"])
    j = rng.randrange(len(series))
    now = {"before": series[0] - D.timedelta(seconds=rng.choice([1, 60, 86400, 10 ** 7])), "at": series[j], "between": series[j] + D.timedelta(seconds=rng.choice([1, gap // 2, gap - 1])),
           "late": series[-1] + D.timedelta(seconds=rng.choice([1, 3600, 86399, 86400])), "old": series[-1] + D.timedelta(seconds=rng.choice([86401, 10 ** 6]))}[where]
    last = None
    status = None
    if rng.random() < 0.25 and not edit:
        # an earlier run acknowledged one
        past = [t for t in series if t <= now]
        if past:
            last = past[-1]
            al.append("X-MULBERRY-LAST-TRIGGER:" + txt(last, True))
            ctx.count("recorded")
            if last == series[-1]:
                last = None
                al.pop()
            elif rng.random() < 0.5:
                al.append("X-MULBERRY-ALARM-STATUS:PENDING")
    rng.shuffle(al)
    text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:%s\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\n%sBEGIN:VALARM\r\n%sEND:VALARM\r\nEND:%s\r\nEND:VCALENDAR\r\n" % (
        typ, "".join(l + "\r\n" for l in lines), "".join(l + "\r\n" for l in al), typ)
    get = lambda c: [a for a in c.getComponents(typ)[0].getComponents() if a.getType() == "VALARM"][0]
    cal = Calendar.parseText(text)
    alarm = get(cal)
    set_now(now)
    label = "%s %s trigger %s%+d of %s..%s (%s), %d repeats every %d s, at %s%s" % (typ, kind, how, off, s, e, form, rep, gap, now, ", last %s" % last if last else "")
    if edit:
        ctx.count("edited")
        if rng.random() < 0.5:
            asked(alarm)
        alarm.editRepeats(rep, dur(gap))
        if rng.random() < 0.6:
            if how == "absolute":
                alarm.editTriggerBy(dur(60), True)
                alarm.editTriggerOn(P.mk("utc", None, first))
            else:
                alarm.editTriggerOn(P.mk("utc", None, first + D.timedelta(2)))
                alarm.editTriggerBy(dur(off), how != "end")
        alarm.editStatus(I.eAlarm_Status_Pending)
    ctx.count("alarms")
    if how in ("absolute", "end"):
        ctx.count("absolute" if how == "absolute" else "related_end")
    dt = DateTime()
    alarm.getFirstTrigger(dt)
    ctx.eq(P.to_ref(dt.duplicateAsUTC()), series[0], "first", label + ": first time")
    k = reference(series, now, last)
    if k is not None and series[k] <= now:
        ctx.count("late")
    if k is None or k > 0 and where in ("late", "old"):
        ctx.count("skipped")
    ctx.seen((typ, kind, how, form, rep, where, last is not None, off > 0, edit), True, label)
    rung = []
    for step in range(8):
        r = rng.random()
        form2 = "live"
        if r < 0.35:
            cal = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
            alarm = get(cal)
            form2 = "re-read"
            ctx.count("reread")
        elif r < 0.45:
            cal = cal.duplicate()
            alarm = get(cal)
            form2 = "duplicate"
            ctx.count("duplicates")
        want = (None, "completed") if k is None else (series[k], "pending")
        got = asked(alarm)
        if got != want:
            ctx.viol("next", "%s: after %d: next is %s not %s (%s)" % (label, len(rung), got, want, form2))
            return
        if k is None:
            ctx.count("completed")
            break
        # it rings when its time comes (or now, if that is past)
        now = max(now, series[k]) + D.timedelta(seconds=rng.choice([0, 0, 1, min(30, gap - 1)]) if k < len(series) - 1 else rng.choice([0, 1, 1000]))
        if k < len(series) - 1 and now >= series[k + 1]:
            now = max(series[k], min(now, series[k + 1] - D.timedelta(seconds=1)))
        set_now(now)
        t = P.mk("utc", None, series[k])
        more = alarm.alarmTriggered(t)
        rung.append(series[k])
        ctx.count("rings")
        last = series[k]
        k = k + 1 if k + 1 < len(series) else None
        ctx.eq(bool(more), k is not None, "more", label + ": alarmTriggered(%s) says there is more" % last)
        if k is not None:
            ctx.eq(P.to_ref(t.duplicateAsUTC()), series[k], "triggered", label + ": next time alarmTriggered(%s) gives" % last)
        tree = [c for c in T.canon(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))[0][2] if c[0] == typ][0][2][0]
        st = [p[3] for p in tree[1] if p[0] == "X-MULBERRY-ALARM-STATUS"]
        lt = [p[3] for p in tree[1] if p[0] == "X-MULBERRY-LAST-TRIGGER"]
        ctx.check(st == ["PENDING" if k is not None else "COMPLETED"], "recorded-status", lambda: "%s: recorded status %r" % (label, st))
        ctx.check(len(lt) == 1 and str(lt[0]).replace("T", "").find("") == 0 and (lt[0] == txt(last, True) or lt[0] == T.c_dt(txt(last, True))), "recorded-time", lambda: "%s: recorded last time %r not %s" % (label, lt, last))
