# -*- coding: utf-8 -*-
"""C13 recurrence rules expand to exactly the RFC 5545 set."""
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from refcal import *
import refrrule as R
import reftz
from vskip import Skip

RULE = ("random RFC 5545 rules over every frequency and the BYxxx combinations the library supports (positive and negative positions, COUNT/UNTIL in each form, WKST, INTERVAL, BYSETPOS), "
        "starts synchronised with the rule or not, as DATE, floating, UTC and zoned; the expansion of a window is compared member by member with a reference that filters the days of each period; "
        "non-trivial when the window holds at least 2 occurrences or provably none")
REQUIRE = {"nonempty": 350, "instances": 2000, "freqs": 7, "parts": 11, "bounded_by_count": 100, "bounded_by_until": 100}
ASSUMPTIONS = ["BYxxx combinations outside the RFC 5545 table, BYMONTHDAY without BYMONTH in YEARLY rules, BYWEEKNO without BYDAY or with another week start, and BYYEARDAY in sub-daily rules are not generated",
               "zoned rules are compared on the local clock, with times of day outside changes of offset"]
PLAN = [("rules", 1500, 60000), ("sub_daily", 500, 30000), ("examples", 16, 16)]
ZONES = []
SPAN = {"YEARLY": 366 * 12, "MONTHLY": 31 * 40, "WEEKLY": 7 * 60, "DAILY": 120, "HOURLY": 6, "MINUTELY": 0.3, "SECONDLY": 0.006}


def setup(ctx):
    TimezoneDatabase.clearTimezoneDatabase()
    ZONES[:] = [reftz.eastern(), reftz.sydney(), reftz.fixed("Test/India", 19800)]
    Calendar.parseText(reftz.calendar_text(ZONES))


def gen_case(rng, kinds=("date", "floating", "utc", "zone"), freqs=None):
    """-> kind, zone, rule, start, text of the rule"""
    kind = rng.choice(kinds)
    dateonly = kind == "date"
    zone = rng.choice(ZONES) if kind == "zone" else None
    if kind == "zone" and freqs is None:
        freqs = ["YEARLY"] * 2 + ["MONTHLY"] * 2 + ["WEEKLY"] * 2 + ["DAILY"]
    r = R.gen_rule(rng, freqs, dateonly)
    s = rand_dt(rng, 1971, 2090) if kind != "zone" else rand_dt(rng, 1990, 2060)
    if rng.random() < 0.15:
        s = s.replace(day=1).replace(month=1, day=31) + D.timedelta(rng.choice([0, 0, 28, 59]))
    if dateonly:
        s = s.replace(hour=0, minute=0, second=0)
    if kind == "zone":
        s = s.replace(hour=rng.randint(9, 20))
        for k, v in (("byhour", range(9, 21)),):
            if r.get(k):
                r[k] = R.some(rng, v, 1, 3)
    # a start at the edge of a year only leaves no doubt about its week year when every year counts
    edge = r["freq"] == "YEARLY" and r["interval"] == 1 and not r.get("bysetpos")
    if r.get("byweekno") and edge and rng.random() < 0.4:
        s = s.replace(month=rng.choice([1, 12]), day=rng.choice([1, 2, 3, 4, 28, 29, 30, 31]))
    if r.get("byweekno") and not edge:
        if not (D.date(s.year, 1, 8) <= s.date() <= D.date(s.year, 12, 24)):
            s = s.replace(month=6, day=min(s.day, 30))
    if rng.random() < 0.7:
        m = R.first_match(r, s)
        if m is None:
            sync = False
        else:
            if edge or not (r.get("byweekno") and not (D.date(m.year, 1, 8) <= m.date() <= D.date(m.year, 12, 24))):
                s = m
    return kind, zone, r, s


def tzinfo(kind, zone):
    return Timezone(utc=True) if kind == "utc" else Timezone(utc=False, tzid=zone.tzid) if kind == "zone" else Timezone(utc=False)


def mk(kind, zone, t):
    if kind == "date":
        return DateTime(t.year, t.month, t.day)
    return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=tzinfo(kind, zone))


def to_ref(x):
    return D.datetime(x.getYear(), x.getMonth(), x.getDay(), x.getHours(), x.getMinutes(), x.getSeconds())


def until_text(rng, kind, zone, t):
    """a textual UNTIL meaning exactly 't' on the start's clock (and its reference value)"""
    if kind == "date":
        return txt(t, False, True), t
    if kind == "utc":
        return txt(t, True), t
    if kind == "zone":
        c = zone.classify(t)
        if c[0] != "plain":
            raise Skip()
        return txt(t - D.timedelta(seconds=c[1]), True), t
    if rng.random() < 0.3:
        # date form: inclusive of the whole day
        return txt(t, False, True), t.replace(hour=23, minute=59, second=59)
    return txt(t), t


def bound(rng, kind, zone, r, s, span):
    ut = None
    x = rng.random()
    if x < 0.35:
        r["count"] = rng.choice([1, 2, 3, 4, 7, 10, rng.randint(1, 40)])
    elif x < 0.65:
        occ = R.expand(r, s, s + D.timedelta(days=span))
        t = rng.choice(occ[-12:]) if occ and rng.random() < 0.6 else s + D.timedelta(days=span * rng.random())
        t = t.replace(microsecond=0) + D.timedelta(seconds=rng.choice([0, 0, 0, 1, -1, 3600, -86400]))
        if kind == "date":
            t = t.replace(hour=0, minute=0, second=0)
        if t < s:
            t = s
        ut, r["until"] = until_text(rng, kind, zone, t)
    return ut


def component(kind, zone, s, lines):
    p = "DTSTART"
    if kind == "date":
        st = "DTSTART;VALUE=DATE:%s" % txt(s, False, True)
    elif kind == "zone":
        st = "DTSTART;TZID=%s:%s" % (zone.tzid, txt(s))
    else:
        st = "DTSTART:%s" % txt(s, kind == "utc")
    return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\n%s\r\n%sEND:VEVENT\r\nEND:VCALENDAR\r\n" % (
        st, "".join(l + "\r\n" for l in lines))


def window(rng, kind, zone, s, span):
    a = s - D.timedelta(days=rng.choice([0, 0, 1, 30])) if rng.random() < 0.5 else s + D.timedelta(days=span * rng.random() * 0.8)
    b = a + D.timedelta(days=span * (0.05 + rng.random() * 0.95))
    a, b = a.replace(microsecond=0), b.replace(microsecond=0)
    if kind == "date":
        a = a.replace(hour=0, minute=0, second=0)
        b = b.replace(hour=0, minute=0, second=0)
    return a, b


def sub_daily(ctx, rng, i):
    """rules below a day with several parts that limit each other, around the edges of those parts"""
    f = rng.choice(["HOURLY", "MINUTELY", "MINUTELY", "SECONDLY"])
    s = rand_dt(rng, 1971, 2090)
    if rng.random() < 0.4:
        s = s.replace(minute=rng.choice([0, 50, 59]))
    if rng.random() < 0.3:
        s = s.replace(hour=rng.choice([0, 22, 23]))
    if rng.random() < 0.2:
        s = s.replace(day=28, month=2)
    r = {"freq": f, "interval": rng.choice([1, 1, 1, 2, 3, 5, 7, rng.choice([15, 25, 30, 45])])}
    step = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[f] * r["interval"]
    span = step * rng.choice([60, 200, 500, 1500]) / 86400.0
    if step * 1500 > 86400 * 40:
        span = min(span, 40.0)
    near = lambda v, m, n: sorted(set((v + rng.choice([0, 1, 2, -1, rng.randrange(m)])) % m for _ in range(n)))
    few = {"HOURLY": 8, "MINUTELY": 4, "SECONDLY": 2}[f]
    if rng.random() < 0.5:
        r["byhour"] = near(s.hour, 24, rng.randint(1, few))
    if rng.random() < 0.5:
        r["byminute"] = near(s.minute, 60, rng.randint(1, 3 if f == "HOURLY" else 25))
    if rng.random() < 0.4:
        r["bysecond"] = near(s.second, 60, rng.randint(1, 3 if f != "SECONDLY" else 30))
    if rng.random() < 0.25:
        r["byday"] = [(0, w) for w in near(s.weekday(), 7, rng.randint(1, 4))]
    if rng.random() < 0.25:
        r["bymonthday"] = sorted(set([s.day, (s + D.timedelta(1)).day, rng.choice([-1, -2, 1, 31])][:rng.randint(1, 3)]))
    if rng.random() < 0.2:
        r["bymonth"] = sorted(set([s.month, (s + D.timedelta(30)).month][:rng.randint(1, 2)]))
    if rng.random() < 0.2 and len(r) > 2:
        r["bysetpos"] = R.some(rng, [1, 2, -1, -2, 3], 1, 2)
    kind = rng.choice(["floating", "utc"])
    compare(ctx, rng, kind, None, r, s, span)


def rules(ctx, rng, i):
    kind, zone, r, s = gen_case(rng)
    span = SPAN[r["freq"]] * max(1, r["interval"] * (0.4 if r["freq"] == "YEARLY" else 0.7))
    if s.year + span / 365 > 2115:
        span = 365 * 10
    mult = 1
    for k in ("byhour", "byminute", "bysecond"):
        mult *= max(1, len(r.get(k, ())))
    if r["freq"] in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY"):
        span /= max(1.0, mult / 3.0)
    else:
        span /= max(1.0, r["interval"] / 4.0)
    compare(ctx, rng, kind, zone, r, s, span)


def compare(ctx, rng, kind, zone, r, s, span):
    ut = bound(rng, kind, zone, r, s, span)
    a, b = window(rng, kind, zone, s, span)
    if b <= a:
        b = a + D.timedelta(1)
    text = R.to_text(r, ut, rng)
    want = [t for t in R.expand(r, s, b) if t >= a]
    if zone is not None and any(zone.classify(t)[0] != "plain" for t in want):
        raise Skip()
    # the window in the start's own clock, or (for fixed points) in UTC
    if kind == "zone" and rng.random() < 0.5:
        ca, cb = zone.classify(a), zone.classify(b)
        if ca[0] != "plain" or cb[0] != "plain":
            raise Skip()
        per = Period(mk("utc", None, a - D.timedelta(seconds=ca[1])), mk("utc", None, b - D.timedelta(seconds=cb[1])))
    else:
        if zone is not None and (zone.classify(a)[0] != "plain" or zone.classify(b)[0] != "plain"):
            raise Skip()
        per = Period(mk(kind, zone, a), mk(kind, zone, b))
    cal = Calendar.parseText(component(kind, zone, s, ["RRULE:" + text]))
    ev = cal.getComponents("VEVENT")[0]
    items = []
    ev.getRecurrenceSet().expand(ev.getStart(), per, items)
    got = [to_ref(x) for x in items]
    label = "%s %s%s in [%s,%s)" % (text, txt(s, kind == "utc", kind == "date"), "@" + zone.tzid if zone else "", a, b)
    shape = "+".join(sorted(k for k in r if k.startswith("by")))
    if got != want:
        miss = [str(t) for t in want if t not in got][:4]
        extra = [str(t) for t in got if t not in want][:4]
        ctx.viol("rrule-%s-%s" % (r["freq"].lower(), shape or "plain"), "%s: missing %s, extra %s (%d vs %d expected%s)" % (
            label, miss, extra, len(got), len(want), "" if miss or extra else ", order/duplicates"))
    else:
        for x in items:
            if x.isDateOnly() != (kind == "date") or bool(x.utc()) != (kind == "utc") or (x.getTimezoneID() or None) != (zone.tzid if zone else None):
                ctx.viol("rrule-instance-kind", "%s: instance %s has another kind" % (label, x.getText()))
                break
    ctx.mark("freqs", r["freq"])
    for k in r:
        ctx.mark("parts", k)
    if r.get("count"):
        ctx.count("bounded_by_count")
    if ut:
        ctx.count("bounded_by_until")
    ctx.count("instances", len(want))
    if want:
        ctx.count("nonempty")
    ctx.seen(label, len(want) != 1, "%s -> %d" % (label, len(want)))


# (rule, start, window end, expected) written out from the examples of RFC 5545 section 3.8.5.3
EX = [
    ("FREQ=YEARLY;INTERVAL=3;COUNT=10;BYYEARDAY=1,100,200", "19970101T090000", "20100101T000000",
     "19970101 19970410 19970719 20000101 20000409 20000718 20030101 20030410 20030719 20060101"),
    ("FREQ=YEARLY;BYDAY=20MO", "19970519T090000", "20000101T000000", "19970519 19980518 19990517"),
    ("FREQ=YEARLY;BYWEEKNO=20;BYDAY=MO", "19970512T090000", "20000101T000000", "19970512 19980511 19990517"),
    ("FREQ=MONTHLY;INTERVAL=18;COUNT=10;BYMONTHDAY=10,11,12,13,14,15", "19970910T090000", "20100101T000000",
     "19970910 19970911 19970912 19970913 19970914 19970915 19990310 19990311 19990312 19990313"),
    ("FREQ=MONTHLY;BYDAY=FR;BYMONTHDAY=13", "19970902T090000", "20001231T000000", "19970902 19980213 19980313 19981113 19990813 20001013"),
    ("FREQ=YEARLY;INTERVAL=4;BYMONTH=11;BYDAY=TU;BYMONTHDAY=2,3,4,5,6,7,8", "19961105T090000", "20050101T000000", "19961105 20001107 20041102"),
    ("FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-2", "19970929T090000", "19980401T000000", "19970929 19971030 19971127 19971230 19980129 19980226 19980330"),
    ("FREQ=WEEKLY;INTERVAL=2;COUNT=4;BYDAY=TU,SU;WKST=MO", "19970805T090000", "19980101T000000", "19970805 19970810 19970819 19970824"),
    ("FREQ=WEEKLY;INTERVAL=2;COUNT=4;BYDAY=TU,SU;WKST=SU", "19970805T090000", "19980101T000000", "19970805 19970817 19970819 19970831"),
    ("FREQ=MONTHLY;BYMONTHDAY=15,30;COUNT=5", "20070115T090000", "20080101T000000", "20070115 20070130 20070215 20070315 20070330"),
    ("FREQ=MONTHLY;COUNT=6;BYDAY=-2MO", "19970922T090000", "19990101T000000", "19970922 19971020 19971117 19971222 19980119 19980216"),
    ("FREQ=YEARLY;BYMONTH=3;BYDAY=TH", "19970313T090000", "19980401T000000", "19970313 19970320 19970327 19980305 19980312 19980319 19980326"),
    ("FREQ=MONTHLY;BYMONTHDAY=-3", "19970928T090000", "19980301T000000", "19970928 19971029 19971128 19971229 19980129 19980226"),
    ("FREQ=DAILY;INTERVAL=10;COUNT=5", "19970902T090000", "19980101T000000", "19970902 19970912 19970922 19971002 19971012"),
    ("FREQ=YEARLY;INTERVAL=2;COUNT=10;BYMONTH=1,2,3", "19970310T090000", "20040101T000000", "19970310 19990110 19990210 19990310 20010110 20010210 20010310 20030110 20030210 20030310"),
    ("FREQ=WEEKLY;UNTIL=19971007T000000Z;WKST=SU;BYDAY=TU,TH", "19970902T090000", "19980101T000000", "19970902 19970904 19970909 19970911 19970916 19970918 19970923 19970925 19970930 19971002"),
]


def examples(ctx, rng, i):
    rule, start, end, want = EX[i]
    cal = Calendar.parseText(component("floating", None, D.datetime.strptime(start, "%Y%m%dT%H%M%S"), ["RRULE:" + rule]))
    ev = cal.getComponents("VEVENT")[0]
    items = []
    ev.getRecurrenceSet().expand(ev.getStart(), Period(DateTime.parseText(start), DateTime.parseText(end)), items)
    ctx.eq(" ".join(x.getText()[:8] for x in items), want, "rrule-rfc-example", "%s from %s" % (rule, start))
    ctx.seen((rule, start), True, rule)
