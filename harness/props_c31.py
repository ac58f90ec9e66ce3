# -*- coding: utf-8 -*-
"""C31 expansion of any accepted rule ends, stays in its window, and a window shows exactly its part of a larger one."""
import sys
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.recurrence import Recurrence
from refcal import *
import refrrule as R
import reftz
from vskip import Skip

RULE = ("any rule text the parser accepts - every frequency with every mix of BYxxx parts, including the mixes RFC 5545 gives no meaning, positions at their extremes, huge INTERVAL and COUNT, UNTIL of "
        "another kind than the start - over DATE, floating, UTC and zoned starts at month ends, leap days and year edges, expanded over windows before, around and after the start, in a component "
        "and on its own; calls are counted while it runs and must stay within a budget set by the number of periods up to the window's end; instances must be ascending, distinct, of the start's "
        "kind, inside the window, within COUNT and UNTIL, and each smaller window must show exactly its part of the larger one; timezones with any accepted rule must answer too; distinct by rule, start and window")
REQUIRE = {"expansions": 1500, "instances": 3000, "nonempty": 400, "odd_mixes": 300, "huge": 100, "date_subdaily": 30, "freqs": 7, "parts": 12, "subwindows": 1200, "zone_answers": 300, "big_durations": 100, "limits": 60, "limits_rdates": 30, "edges": 400, "edges_refused": 50}
ASSUMPTIONS = ["the number of periods between the start and the window's end is kept to about a thousand: the work of an expansion grows with it",
               "zoned windows and starts keep clear of changes of offset, where two local times can be one moment"]
PLAN = [("rules", 1300, 60000), ("zones", 120, 5000), ("durations", 300, 6000), ("limits", 160, 6000), ("edges", 600, 12000)]
ZONES = []
STEP = {"YEARLY": 366 * 86400, "MONTHLY": 31 * 86400, "WEEKLY": 7 * 86400, "DAILY": 86400, "HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}
HUGE = [10 ** 6, 10 ** 9, 10 ** 12, 10 ** 15, 2 ** 31, 2 ** 63, 10 ** 30, 99999, 40000]


class Budget(BaseException):
    pass


def counted(f, budget):
    """the result of f(), or Budget when it made more than 'budget' calls"""
    n = [0]

    def tracer(frame, event, arg):
        n[0] += 1
        if n[0] > budget:
            sys.settrace(None)
            raise Budget()
        return None
    sys.settrace(tracer)
    try:
        return f(), n[0]
    finally:
        sys.settrace(None)


def setup(ctx):
    TimezoneDatabase.clearTimezoneDatabase()
    ZONES[:] = [reftz.eastern(), reftz.sydney(), reftz.fixed("Test/India", 19800)]
    Calendar.parseText(reftz.calendar_text(ZONES))


def lst(rng, lo, hi, neg=False, n=3):
    res = []
    for _ in range(rng.choice([1, 1, 2, n])):
        v = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
        res.append(-v if neg and v and rng.random() < 0.4 else v)
    return ",".join(str(v) for v in res), len(res)


def gen(rng, dateonly, parts=None):
    """-> list of (name, text), frequency, interval, size of the largest set of one period"""
    f = rng.choice(["YEARLY", "YEARLY", "MONTHLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"])
    res = [("FREQ", f)]
    iv = 1
    x = rng.random()
    if x < 0.35:
        iv = rng.choice([1, 2, 3, 4, 7, 12, 53, 100, rng.randint(1, 400)])
        res.append(("INTERVAL", str(iv)))
    elif x < 0.45:
        iv = rng.choice(HUGE)
        res.append(("INTERVAL", str(iv)))
    size = 1
    pool = [("BYMONTH", 1, 12, False), ("BYWEEKNO", 1, 53, True), ("BYYEARDAY", 1, 366, True), ("BYMONTHDAY", 1, 31, True), ("BYHOUR", 0, 23, False), ("BYMINUTE", 0, 59, False), ("BYSECOND", 0, 60, False), ("BYDAY",)]
    for p in rng.sample(pool, rng.choice([0, 0, 1, 1, 1, 2, 2, 3]) if parts is None else parts):
        if p[0] == "BYDAY":
            ds = [(rng.choice([1, -1, 2, -2, 5, -5, 6, 20, 53, -53, rng.randint(1, 53)]) if rng.random() < 0.4 else 0, rng.choice(["SU", "MO", "TU", "WE", "TH", "FR", "SA"])) for _ in range(rng.choice([1, 1, 2, 4]))]
            res.append(("BYDAY", ",".join("%s%s" % (a or "", b) for a, b in ds)))
            size *= 53 * len(ds) if f == "YEARLY" else 6 * len(ds)
        else:
            v, n = lst(rng, *p[1:])
            res.append((p[0], v))
            size *= n
    if len(res) > 1 and res[-1][0].startswith("BY") and rng.random() < 0.25:
        v, n = lst(rng, 1, rng.choice([3, 366]), True)
        res.append(("BYSETPOS", v))
    if rng.random() < 0.15:
        res.append(("WKST", rng.choice(["SU", "MO", "WE", "SA"])))
    return res, f, iv, size


def start(rng, kind):
    s = rand_dt(rng, 1996, 2030)
    x = rng.random()
    if x < 0.3:
        s = s.replace(day=1).replace(month=1, day=31) + D.timedelta(rng.choice([0, 0, 28, 29, 59, -31, -30, -32, 334]))
    elif x < 0.4:
        s = s.replace(day=1).replace(year=rng.choice([1996, 2000, 2024]), month=2, day=29)
    elif x < 0.5:
        s = s.replace(month=12, day=rng.randint(25, 31))
    if kind == "date":
        s = s.replace(hour=0, minute=0, second=0)
    if kind == "zone":
        s = s.replace(hour=rng.randint(9, 20))
    return s


def tzinfo(kind, zone):
    return Timezone(utc=True) if kind == "utc" else Timezone(utc=False, tzid=zone.tzid) if kind == "zone" else Timezone(utc=False)


def mk(kind, zone, t):
    if kind == "date":
        return DateTime(t.year, t.month, t.day)
    return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=tzinfo(kind, zone))


def key(x):
    return (x.getYear(), x.getMonth(), x.getDay(), x.getHours(), x.getMinutes(), x.getSeconds())


def text_of(kind, zone, s, rule, comp):
    if kind == "date":
        st = "DTSTART;VALUE=DATE:%s" % txt(s, False, True)
    elif kind == "zone":
        st = "DTSTART;TZID=%s:%s" % (zone.tzid, txt(s))
    else:
        st = "DTSTART:%s" % txt(s, kind == "utc")
    return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:%s\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\n%s\r\nRRULE:%s\r\nEND:%s\r\nEND:VCALENDAR\r\n" % (comp, st, rule, comp)


def until(rng, kind, s, span):
    t = s + D.timedelta(seconds=int(span * rng.choice([0, 0.3, 0.7, 1.5])) - rng.choice([0, 0, 86400 * 3]))
    k = rng.choice([kind, kind, "date", "floating", "utc"])
    if k == "date":
        t = t.replace(hour=0, minute=0, second=0)
    return k, t, txt(t, k == "utc", k == "date")


def rules(ctx, rng, i):
    kind = rng.choice(["date", "date", "floating", "utc", "zone"])
    zone = rng.choice(ZONES) if kind == "zone" else None
    parts, f, iv, size = gen(rng, kind == "date")
    per = STEP[f] * iv
    if kind == "zone" and per < 1800:
        kind, zone = "utc", None
    s = start(rng, kind)
    # about this many periods up to the end of the window
    if kind == "date" and f in ("HOURLY", "MINUTELY", "SECONDLY"):
        ctx.count("date_subdaily")
    n = rng.choice([1, 3, 10, 40, 300, 1000]) / max(1, size // 30)
    span = max(1, min(per * max(1, n), 366 * 86400 * 60))
    if kind == "date":
        span = max(span, 86400 * 2)
    x = rng.random()
    ut = cnt = None
    if x < 0.3:
        cnt = rng.choice([1, 2, 3, 5, 10, 100, 10 ** 9, 10 ** 20])
        parts.append(("COUNT", str(cnt)))
    elif x < 0.55:
        ut = until(rng, kind if kind != "zone" else "utc", s, span)
        parts.append(("UNTIL", ut[2]))
    head, tail = parts[:1], parts[1:]
    rng.shuffle(tail)
    rule = ";".join("%s=%s" % p for p in head + tail)
    # windows: a large one that starts at or before the start, and parts of it
    a = s - D.timedelta(rng.choice([0, 0, 1, 40]))
    b = s + D.timedelta(seconds=int(span))
    if kind == "date":
        b = b.replace(hour=0, minute=0, second=0)
    if kind == "zone":
        a, b = a.replace(hour=12, minute=0, second=0) - D.timedelta(1), b.replace(hour=12, minute=0, second=0) + D.timedelta(1)
    label = "%s from %s%s in [%s, %s)" % (rule, txt(s, kind == "utc", kind == "date"), "@" + zone.tzid if zone else "", a, b)
    wkind = kind
    comp = rng.choice(["VEVENT", "VEVENT", "VTODO", "VJOURNAL"])
    alone = rng.random() < 0.4
    steps = int(span // per) + 4
    if kind == "date":
        steps = min(steps, 2000)
    budget = (60000 if zone is None else 3000000) + steps * (400 + 60 * size)
    txt_ = text_of(kind, zone, s, rule, comp)

    def fresh():
        """a function that gives the instances of a window"""
        if alone:
            r = Recurrence()
            r.parse(rule)
            st = mk(kind, zone, s)
            return lambda w, items: r.expand(st, w, items)
        c = Calendar.parseText(txt_).getComponents(comp)[0]
        return lambda w, items: c.getRecurrenceSet().expand(c.getStart(), w, items)

    def ask(g, lo, hi):
        items = []
        w = Period(mk(wkind, zone, lo), mk(wkind, zone, hi))
        try:
            _r, calls = counted(lambda: g(w, items), budget)
        except Budget:
            ctx.viol("no-end-%s" % f.lower(), "%s did not end within %d calls for about %d periods" % (label, budget, steps))
            return None
        ctx.count("expansions")
        ctx.obs["max_calls_per_budget_pct"] = max(ctx.obs.get("max_calls_per_budget_pct", 0), calls * 100 // budget)
        return items
    big = ask(fresh(), a, b)
    if big is None:
        return
    keys = [key(x) for x in big]
    for x in big:
        if not judge_kind(ctx, x, kind, zone, label):
            return
    ctx.check(all(p < q for p, q in zip(keys, keys[1:])), "order", "%s: instances not ascending and distinct: %s" % (label, [x.getText() for x in big][:12]))
    bad = [x.getText() for x in big if not (max(a, s) <= D.datetime(*key(x)[:5]) + D.timedelta(seconds=key(x)[5]) < b)]
    ctx.check(not bad, "window", "%s: instances outside the window or before the start: %s" % (label, bad[:6]))
    if cnt is not None:
        ctx.check(len(big) <= cnt, "count", "%s: %d instances" % (label, len(big)))
        if cnt == 1 and not alone:
            ctx.check(keys == [key(mk(kind, zone, s))] * (a <= s < b), "count", "%s: instances %s" % (label, keys[:4]))
    if ut is not None and (ut[0] == kind):
        later = [k for k in keys if D.datetime(*k[:5]) + D.timedelta(seconds=k[5]) > ut[1] and D.datetime(*k[:5]) != s.replace(second=0)]
        ctx.check(not later, "until", "%s: instances after UNTIL: %s" % (label, later[:4]))
    if not alone and a <= s < b:
        ctx.check(key(mk(kind, zone, s)) in keys, "start-missing", "%s: the start itself is not an instance: %s" % (label, keys[:4]))
    # parts of the window: fresh and on the same object, in any order
    g = fresh()
    pts = set([a, b])
    for k in keys[:200]:
        if (rng.random() < 0.1 or (k[1:3] > (12, 27) or k[1:3] < (1, 5)) and rng.random() < 0.6) and k[5] < 60:
            t = D.datetime(*k)
            pts.update([t, t + (D.timedelta(1) if kind == "date" else D.timedelta(seconds=1))])
    for _ in range(4):
        t = (a + D.timedelta(seconds=int(rng.random() * (b - a).total_seconds()))).replace(microsecond=0)
        if kind in ("date",):
            t = t.replace(hour=0, minute=0, second=0)
        pts.add(t)
    pts = sorted(p for p in pts if a <= p <= b and (zone is None or zone.classify(p)[0] == "plain"))
    if zone is not None and any(zone.classify(D.datetime(*k[:5]))[0] != "plain" for k in keys):
        raise Skip()
    for _ in range(rng.choice([1, 2, 3])):
        lo, hi = rng.choice(pts), rng.choice(pts)
        if lo > hi:
            lo, hi = hi, lo
        h = g if rng.random() < 0.5 else fresh()
        items = ask(h, lo, hi)
        if items is None:
            return
        want = [k for k in keys if lo <= D.datetime(*k[:5]) + D.timedelta(seconds=k[5]) < hi]
        got = [key(x) for x in items]
        if got != want:
            ctx.viol("window-part-%s" % f.lower(), "%s: the part [%s, %s) gives extra %s, lacks %s (%d of %d)" % (
                label, lo, hi, [k for k in got if k not in want][:4], [k for k in want if k not in got][:4], len(got), len(want)))
            return
        ctx.count("subwindows")
    ctx.mark("freqs", f)
    for k, _v in parts:
        ctx.mark("parts", k)
    if len(parts) > 2:
        ctx.count("odd_mixes")
    if iv >= 40000 or (cnt or 0) >= 10 ** 9:
        ctx.count("huge")
    if keys:
        ctx.count("nonempty")
    ctx.count("instances", len(keys))
    ctx.seen(label, True, "%s -> %d" % (label, len(keys)))


def judge_kind(ctx, x, kind, zone, label):
    ok = x.isDateOnly() == (kind == "date") and bool(x.utc()) == (kind == "utc") and (x.getTimezoneID() or None) == (zone.tzid if zone else None)
    ctx.check(ok, "instance-kind", "%s: instance %s has another kind" % (label, x.getText()))
    k = key(x)
    valid = 1 <= k[1] <= 12 and 1 <= k[2] <= mdays(k[0], k[1]) and 0 <= k[3] < 24 and 0 <= k[4] < 60 and 0 <= k[5] <= 60
    ctx.check(valid and not x.invalid(), "instance-invalid", "%s: instance %s does not exist" % (label, k))
    return ok and valid


def limits(ctx, rng, i):
    """a limit on the number of instances is enforced, and otherwise changes nothing"""
    from pycalendar.icalendar.exceptions import TooManyInstancesError
    kind = rng.choice(["date", "floating", "utc"])
    parts, f, iv, size = gen(rng, kind == "date", rng.choice([0, 1]))
    if iv >= 40000:
        parts = [p for p in parts if p[0] != "INTERVAL"]
        iv = 1
    s = start(rng, kind)
    if kind == "date" and f in ("HOURLY", "MINUTELY", "SECONDLY"):
        raise Skip()
    if rng.random() < 0.4:
        parts.append(("COUNT", str(rng.choice([1, 2, 5, 20]))))
    extra = ""
    if rng.random() < 0.5:
        # instances that do not come from the rule count too
        b0 = s + D.timedelta(seconds=STEP[f] * iv * 3 + 86400)
        ts = [s + (b0 - s) * k // 12 for k in range(rng.choice([1, 3, 8]))]
        if kind == "date":
            extra = "RDATE;VALUE=DATE:" + ",".join(txt(t, False, True) for t in ts)
        elif rng.random() < 0.5:
            extra = "RDATE:" + ",".join(txt(t.replace(microsecond=0), kind == "utc") for t in ts)
        else:
            extra = "RDATE;VALUE=PERIOD:" + ",".join(txt(t.replace(microsecond=0), kind == "utc") + "/PT1H" for t in ts)
        extra += "\r\n"
        ctx.count("limits_rdates")
    rule = ";".join("%s=%s" % p for p in parts)
    b = s + D.timedelta(seconds=STEP[f] * iv * rng.choice([3, 10, 30]))
    if kind == "date":
        b = b.replace(hour=0, minute=0, second=0) + D.timedelta(1)
    text = text_of(kind, None, s, rule, "VEVENT").replace("END:VEVENT", extra + "END:VEVENT")
    w = lambda: Period(mk(kind, None, s), mk(kind, None, b))

    def run(limit, c=None):
        c = c or Calendar.parseText(text).getComponents("VEVENT")[0]
        items = []
        try:
            c.getRecurrenceSet().expand(c.getStart(), w(), items, maxInstances=limit)
        except TooManyInstancesError:
            return "too many", c
        return [key(x) for x in items], c
    full, _c = run(None)
    n = len(full)
    label = "%s from %s to %s %s, %d instances" % (rule, s, b, extra.strip(), n)
    same = Calendar.parseText(text).getComponents("VEVENT")[0]
    for lim in [n + 2, n + 1, max(1, n), max(1, n - 1), max(1, n // 2), 1, n + 5]:
        c = same if rng.random() < 0.5 else None
        got, c = run(lim, c)
        if lim >= n:
            ctx.check(got == full, "limit-changes", "%s: with a limit of %d gives %s" % (label, lim, got if got == "too many" else len(got)))
        else:
            ctx.check(got == "too many", "limit-ignored", "%s: a limit of %d gives %s" % (label, lim, got if got == "too many" else len(got)))
    ctx.count("limits")
    ctx.seen(label, n > 1, label)


def zones(ctx, rng, i):
    """a timezone whose observances follow any accepted rule still answers"""
    TimezoneDatabase.clearTimezoneDatabase()
    try:
        comps, offs, all_ = [], set(), []
        big = rng.random() < 0.05
        y0 = rng.choice([1970, 2000, 1900, rng.randint(1960, 2020)])
        for name in ("STANDARD", "DAYLIGHT")[:rng.choice([1, 2, 2])]:
            parts, f, iv, size = gen(rng, False, rng.choice([0, 1, 2]))
            if f in ("HOURLY", "MINUTELY", "SECONDLY", "DAILY") or size > 100 or big:
                parts = [("FREQ", "YEARLY")] + [p for p in parts if p[0] in ("BYMONTH", "INTERVAL", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO") or p[0] == "BYDAY" and not big]
            x = rng.random()
            if x < 0.2:
                parts.append(("COUNT", str(rng.choice([1, 2, 10, 10 ** 9]))))
            elif x < 0.5:
                parts.append(("UNTIL", rng.choice(["20101231T235959Z", "20101231", "20101231T235959", "19500101T000000Z"])))
            st = D.datetime(y0, rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 2, 3, 23]), 0, 0)
            o1, o2 = rng.choice([(-18000, -14400), (-14400, -18000), (3600, 7200), (7200, 3600), (0, 0), (50400, -43200), (-36000, 50400)])
            offs.update([o1, o2])
            rule = ";".join("%s=%s" % p for p in parts)
            all_.append(rule)
            comps.append("BEGIN:%s\r\nDTSTART:%s\r\nTZOFFSETFROM:%s\r\nTZOFFSETTO:%s\r\nRRULE:%s\r\nEND:%s\r\n" % (name, txt(st), offt(o1), offt(o2), rule, name))
        text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\nBEGIN:VTIMEZONE\r\nTZID:Odd\r\n%sEND:VTIMEZONE\r\nEND:VCALENDAR\r\n" % "".join(comps)
        cal = Calendar.parseText(text)
        tz = cal.getComponents("VTIMEZONE")[0]
        qs = [D.datetime(rng.choice([y0 - 1, y0, y0 + 1, 2011, 2025, 2040, rng.randint(1900, 2060)]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 0, 0) for _ in range(4)]
        for q in qs:
            dt = DateTime(q.year, q.month, q.day, q.hour, q.minute, q.second, tzid=Timezone(tzid="Odd"))
            if big:
                dt.setYear(rng.choice([9999, 99999, 10 ** 7, 10 ** 12, 2 ** 40]))
            rel = rng.random() < 0.4
            budget = 10 ** 7
            try:
                got, calls = counted(lambda: tz.getTimezoneOffsetSeconds(dt, relative_to_utc=rel), budget)
                got2 = dt.timeZoneSecondsOffset(rel)
            except Budget:
                ctx.viol("zone-no-end", "offset at %s with rules %s did not end within %d calls" % (dt.getText(), all_, budget))
                return
            ctx.check(got in offs | set([0]), "zone-offset", "offset %r at %s is none of the declared ones %s, rules %s" % (got, dt.getText(), sorted(offs), all_))
            ctx.check(got == got2 or rel, "zone-offset", "offset at %s is %r or %r" % (dt.getText(), got, got2))
            ctx.count("zone_answers")
        ctx.seen((text, tuple(qs)), True, all_)
    finally:
        setup(ctx)


LIMITS = ["INTERVAL=0", "INTERVAL=-1", "INTERVAL=00", "INTERVAL=+1", "INTERVAL=1.5", "INTERVAL=", "INTERVAL=1,2", "COUNT=0", "COUNT=-1", "BYMONTH=0", "BYMONTH=13", "BYMONTH=-1", "BYMONTHDAY=0", "BYMONTHDAY=32",
          "BYMONTHDAY=-32", "BYYEARDAY=0", "BYYEARDAY=367", "BYYEARDAY=-367", "BYWEEKNO=0", "BYWEEKNO=54", "BYWEEKNO=-54", "BYDAY=0MO", "BYDAY=54MO", "BYDAY=-54MO", "BYHOUR=24", "BYHOUR=-1", "BYMINUTE=60", "BYMINUTE=-1",
          "BYSECOND=61", "BYSECOND=-1", "BYSETPOS=0", "BYSETPOS=367;BYDAY=MO", "BYSETPOS=1", "UNTIL=00010101", "UNTIL=99991231T235959Z", "UNTIL=19000101T000000", "BYMONTH=2;BYMONTHDAY=30,31", "BYMONTH=2;BYMONTHDAY=-30",
          "BYMONTHDAY=31;BYMONTH=4,6,9,11", "BYYEARDAY=366;BYMONTH=1", "BYWEEKNO=53;BYMONTH=6", "BYDAY=53MO;BYMONTH=1", "BYSETPOS=300;BYDAY=MO", "BYHOUR=5;BYMINUTE=5;BYSECOND=5", "COUNT=1", "BYMONTH=2", "BYDAY=5MO", "INTERVAL=2"]


def edges(ctx, rng, i):
    """rules at the edges of the grammar: refused, or their expansion ends - also from a start that needs normalising"""
    f = rng.choice(sorted(STEP))
    rule = "FREQ=%s;%s" % (f, rng.choice(LIMITS))
    kind = rng.choice(["date", "floating", "utc"])
    y = rng.choice([2000, 2023, 2024])
    mo, d, h, mi, se = rng.choice([(2, 31, 10, 0, 0), (2, 30, 0, 0, 0), (4, 31, 1, 2, 3), (13, 1, 0, 0, 0), (0, 5, 0, 0, 0), (1, 0, 0, 0, 0), (6, 15, 24, 0, 0), (6, 15, 23, 60, 0), (2, 29, 12, 0, 0), (1, 31, 23, 59, 60), (12, 32, 25, 0, 0), (2, 28, 5, 5, 5)])
    start_ = DateTime(y, mo, d) if kind == "date" else DateTime(y, mo, d, h, mi, se, tzid=tzinfo(kind, None))
    if kind == "date":
        h = mi = se = 0
    n = D.datetime(y + (mo - 1) // 12, (mo - 1) % 12 + 1, 1) + D.timedelta(days=d - 1, hours=h, minutes=mi, seconds=se)
    hi = n + D.timedelta(seconds=STEP[f] * 30)
    if kind == "date":
        hi = hi.replace(hour=0, minute=0, second=0) + D.timedelta(1)
    label = "%s from %s %s to %s" % (rule, kind, (y, mo, d, h, mi, se), hi)

    def run():
        r = Recurrence()
        try:
            r.parse(rule)
        except ValueError:
            return None
        items = []
        r.expand(start_, Period(mk(kind, None, n - D.timedelta(400)), mk(kind, None, hi)), items)
        return items
    try:
        items, _calls = counted(run, 3000000)
    except Budget:
        ctx.viol("no-end-%s" % f.lower(), "%s did not end" % label)
        return
    ctx.count("edges")
    if items is None:
        ctx.count("edges_refused")
    else:
        ks = [key(x) for x in items]
        for x in items:
            if not judge_kind(ctx, x, kind, None, label):
                return
        ctx.check(all(p < q for p, q in zip(ks, ks[1:])), "order", "%s: instances not ascending and distinct: %s" % (label, ks[:8]))
        ctx.check(all(n <= D.datetime(*k[:5]) + D.timedelta(seconds=k[5]) < hi for k in ks), "window", "%s: instances %s" % (label, ks[:8]))
    ctx.seen(label, True, label)


def offt(o):
    return "%s%02d%02d" % ("-" if o < 0 else "+", abs(o) // 3600, abs(o) // 60 % 60)


def civil(days):
    """days since 1970-01-01 -> (year, month, day), for any size"""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + (m <= 2), m, d)


def durations(ctx, rng, i):
    """durations of any size: the end of the event is exact and found in bounded work"""
    kind = rng.choice(["date", "floating", "utc", "zone"])
    zone = rng.choice(ZONES) if kind == "zone" else None
    s = start(rng, kind)
    unit, mult = rng.choice([("W", 604800), ("D", 86400), ("H", 3600), ("M", 60), ("S", 1)])
    if kind == "date":
        unit, mult = rng.choice([("W", 604800), ("D", 86400)])
    n = rng.choice([rng.randint(1, 1000), rng.randint(1, 10 ** 6), 10 ** 9, 10 ** 12, 99999999999, 10 ** 18])
    d = ("P%d%s" if unit in "WD" else "PT%d%s") % (n, unit)
    text = text_of(kind, zone, s, "FREQ=DAILY", "VEVENT").replace("RRULE:FREQ=DAILY", "DURATION:" + d)
    want = None
    if kind != "zone":
        total = secs(s - D.datetime(1970, 1, 1)) + n * mult
        want = civil(total // 86400) + (total % 86400 // 3600, total % 3600 // 60, total % 60)

    def f():
        ev = Calendar.parseText(text).getComponents("VEVENT")[0]
        e = ev.getEnd()
        return key(e), (e - Duration(duration=n * mult)), ev.getText()
    try:
        (got, back, out), calls = counted(f, 400000 if kind != "zone" else 4000000)
    except Budget:
        ctx.viol("duration-no-end", "an event at %s (%s) with DURATION %s is never read" % (s, kind, d))
        return
    if want is not None:
        ctx.eq(got, want, "duration-end", "end of %s + %s" % (s, d))
        ctx.eq(key(back), key(mk(kind, zone, s)), "duration-inverse", "end of %s + %s, minus the duration" % (s, d))
    if n > 10 ** 6:
        ctx.count("big_durations")
    ctx.seen((kind, s, d), True, "%s %s" % (s, d))
