# -*- coding: utf-8 -*-
"""C10 durations and periods: exact text grammar, exact arithmetic, interval algebra."""
import re
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.parser import ParserContext
from pycalendar.icalendar.calendar import Calendar
from refcal import *
import reftz
from props_c09 import write_duration, rand_duration

RULE = ("durations written in every form of the grammar and as mutated near-misses (acceptance compared with a regular expression of the grammar, in strict mode), "
        "durations built from seconds and from parts; pairs of periods in both forms at touching, nested, disjoint and equal positions compared with interval arithmetic on instants")
REQUIRE = {"accepted": 500, "rejected": 500, "overlap_true": 100, "overlap_false": 100, "touching": 50}
PLAN = [("texts", 3200, 100000), ("mutants", 4800, 160000), ("numbers", 1600, 50000), ("pairs", 2400, 80000), ("zoned", 400, 10000)]
GRAMMAR = re.compile(r"^[+-]?P(?:\d+W|\d+D(?:T(?:\d+H(?:\d+M)?(?:\d+S)?|\d+M(?:\d+S)?|\d+S))?|T(?:\d+H(?:\d+M)?(?:\d+S)?|\d+M(?:\d+S)?|\d+S))$")
ZONES = []


def setup(ctx):
    TimezoneDatabase.clearTimezoneDatabase()
    ZONES[:] = [reftz.eastern(), reftz.sydney(), reftz.fixed("Test/India", 19800)]
    Calendar.parseText(reftz.calendar_text(ZONES))


def value_of(s):
    sign = -1 if s[0] == "-" else 1
    n = 0
    for num, unit in re.findall(r"(\d+)([WDHMS])", s):
        n += int(num) * {"W": 604800, "D": 86400, "H": 3600, "M": 60, "S": 1}[unit]
    return sign * n


def check_duration(ctx, d, n, src):
    ctx.eq(d.getTotalSeconds(), n, "duration-seconds", "seconds of %s" % src)
    parts = ((d.getWeeks() * 7 + d.getDays()) * 24 + d.getHours()) * 3600 + d.getMinutes() * 60 + d.getSeconds()
    ctx.eq(parts, abs(n), "duration-parts", "parts of %s" % src)
    if n:
        ctx.eq(bool(d.getForward()), n > 0, "duration-sign", "direction of %s" % src)
    t = d.getText()
    ctx.check(bool(GRAMMAR.match(t)), "duration-text-grammar", "%s written as %s" % (src, t))
    if GRAMMAR.match(t):
        ctx.eq(value_of(t), n, "duration-text", "value of the text %s of %s" % (t, src))
    d2 = Duration.parseText(t)
    ctx.eq(d2.getTotalSeconds(), n, "duration-roundtrip", "reparse of %s (from %s)" % (t, src))
    ctx.eq(d2.getText(), t, "duration-fixpoint", "second text of %s" % src)
    c = d.duplicate()
    ctx.eq((c.getTotalSeconds(), c.getText()), (n, t), "duration-duplicate", "copy of %s" % src)
    c.setDuration(n + 7)
    ctx.eq((d.getTotalSeconds(), d.getText()), (n, t), "duration-duplicate-shares", "original after changing the copy of %s" % src)
    ctx.eq(c.getTotalSeconds(), n + 7, "duration-set", "setDuration on a copy of %s" % src)
    j = []
    d.writeJSON(j)
    ctx.eq(j, [t], "duration-json", "JSON of %s" % src)
    d3 = Duration()
    d3.parseJSON(j[0])
    ctx.eq(d3.getTotalSeconds(), n, "duration-json", "reparsed JSON of %s" % src)


def gen_text(rng):
    r = rng.random()
    num = lambda: rng.choice([0, 1, 2, 7, 9, 10, 23, 24, 59, 60, 61, 99, 100, rng.randint(0, 5000)])
    sign = rng.choice(["", "", "+", "-"])
    if r < 0.2:
        return "%sP%dW" % (sign, num())
    day = "%dD" % num() if rng.random() < 0.5 else ""
    time = rng.choice(["", "%dH" % num(), "%dM" % num(), "%dS" % num(), "%dH%dM" % (num(), num()), "%dM%dS" % (num(), num()),
                       "%dH%dM%dS" % (num(), num(), num()), "%dH%dS" % (num(), num())])
    if not day and not time:
        time = "%dS" % num()
    return sign + "P" + day + ("T" + time if time else "")


def texts(ctx, rng, i):
    s = gen_text(rng)
    check_duration(ctx, Duration.parseText(s), value_of(s), s)
    ctx.seen(s, True, s)


def numbers(ctx, rng, i):
    n = rng.choice([rand_duration(rng), rng.randint(-10 ** 9, 10 ** 9), 604800 * rng.randint(-60, 60), 86400 * rng.randint(-60, 60), rng.randint(-5, 5)])
    check_duration(ctx, Duration(duration=n), n, "%d seconds" % n)
    w, d, h, m, s = rng.randint(0, 3), rng.randint(0, 9), rng.randint(0, 30), rng.randint(0, 70), rng.randint(0, 70)
    check_duration(ctx, Duration(weeks=w, days=d, hours=h, minutes=m, seconds=s), (((w * 7 + d) * 24 + h) * 60 + m) * 60 + s, "parts %r" % ((w, d, h, m, s),))
    ctx.seen((n, w, d, h, m, s), True, n)


def mutants(ctx, rng, i):
    s = gen_text(rng)
    for _k in range(rng.randint(1, 2)):
        p = rng.randint(0, len(s))
        r = rng.random()
        if r < 0.4:
            s = s[:p] + rng.choice("PTWDHMS0159+- .,/x") + s[p:]
        elif r < 0.7:
            s = s[:p] + s[p + 1:]
        elif r < 0.85:
            s = s[:p] + rng.choice("PTWDHMS09+-x") + s[p + 1:]
        else:
            s = s[:p]
    want = bool(GRAMMAR.match(s))
    saved = ParserContext.INVALID_DURATION_VALUE
    ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_RAISE
    try:
        try:
            d = Duration.parseText(s)
            got = True
        except ValueError:
            got = False
    finally:
        ParserContext.INVALID_DURATION_VALUE = saved
    ctx.count("accepted" if got else "rejected")
    if got != want:
        ctx.viol("duration-accepts-malformed" if got else "duration-rejects-wellformed", "%r accepted=%s" % (s, got))
    elif got:
        check_duration(ctx, d, value_of(s), s)
    ctx.seen(s, True, s)


def mk(kind, t):
    if kind == "date":
        return DateTime(t.year, t.month, t.day)
    return DateTime(t.year, t.month, t.day, t.hour, t.minute, t.second, tzid=Timezone(utc=kind == "utc"))


def period(rng, kind, s, e):
    how = rng.choice(["end", "duration", "text-end", "text-duration", "switch-dur", "switch-end", "copy"])
    n = secs(e - s)
    if how == "end":
        p = Period(mk(kind, s), end=mk(kind, e))
    elif how == "duration":
        p = Period(mk(kind, s), duration=Duration(duration=n))
    elif how == "text-end":
        p = Period.parseText("%s/%s" % (mk(kind, s).getText(), mk(kind, e).getText()))
    elif how == "text-duration":
        p = Period.parseText("%s/%s" % (mk(kind, s).getText(), write_duration(rng, n).lstrip("+")))
    elif how == "switch-dur":
        p = Period(mk(kind, s), end=mk(kind, e))
        p.setUseDuration(True)
    elif how == "switch-end":
        p = Period(mk(kind, s), duration=Duration(duration=n))
        p.setUseDuration(False)
    else:
        p = Period(mk(kind, s), duration=Duration(duration=n)).duplicate()
    return p, how


def check_period(ctx, p, kind, s, e, what):
    dateonly = kind == "date"
    t = p.getText()
    a = txt(s, kind == "utc", dateonly)
    b = txt(e, kind == "utc", dateonly)
    ctx.eq(p.getStart().getText(), a, "period-start", what)
    ctx.eq(p.getEnd().getText(), b, "period-end", what)
    ctx.eq(p.getDuration().getTotalSeconds(), secs(e - s), "period-duration", what)
    if p.getUseDuration():
        l, r = t.split("/")
        ctx.check(l == a and r[0] == "P" and value_of(r) == secs(e - s), "period-text", "%s: %s" % (what, t))
    else:
        ctx.eq(t, "%s/%s" % (a, b), "period-text", what)
    q = Period.parseText(t)
    ctx.check(q == p and not (q != p) and hash(p) == hash(q), "period-roundtrip", "%s reparsed from %s" % (what, t))
    ctx.eq(q.getText(), t, "period-fixpoint", what)
    j = []
    p.writeJSON(j)
    q = Period()
    q.parseJSON(j[0])
    ctx.check(q == p and q.getText() == t, "period-json", "%s: %r -> %s" % (what, j, q.getText()))


def pairs(ctx, rng, i):
    kind = rng.choice(["utc", "floating", "date"])
    base = rand_dt(rng, 1900, 2190)
    unit = 86400 if kind == "date" else rng.choice([1, 60, 3600, 86400, 604800])
    if kind == "date":
        base = base.replace(hour=0, minute=0, second=0)
    pos = [rng.randint(0, 6) for _ in range(4)]
    s1, e1 = sorted(pos[:2])
    s2, e2 = sorted(pos[2:])
    if s1 == e1:
        e1 += 1
    if s2 == e2:
        e2 += 1
    at = lambda k: base + D.timedelta(seconds=k * unit)
    p, h1 = period(rng, kind, at(s1), at(e1))
    q, h2 = period(rng, kind, at(s2), at(e2))
    what = "%s[%d,%d) %s[%d,%d) x%ds from %s %s" % (h1, s1, e1, h2, s2, e2, unit, base, kind)
    want = s1 < e2 and s2 < e1
    ctx.count("overlap_true" if want else "overlap_false")
    if e1 == s2 or e2 == s1:
        ctx.count("touching")
    first = rng.random() < 0.5
    if first:
        check_period(ctx, p, kind, at(s1), at(e1), what)
    ctx.eq(bool(p.isPeriodOverlap(q)), want, "overlap", what)
    ctx.eq(bool(q.isPeriodOverlap(p)), want, "overlap-symmetric", what)
    for k in range(-1, 9):
        t = mk(kind, at(k))
        got = (bool(p.isDateBeforePeriod(t)), bool(p.isDateWithinPeriod(t)), bool(p.isDateAfterPeriod(t)))
        ctx.eq(got, (k < s1, s1 <= k < e1, k >= e1), "date-vs-period", "%s at %d" % (what, k))
        if kind != "date" and unit > 1:
            t = mk(kind, at(k) + D.timedelta(seconds=-1))
            kk = k - 1.0 / unit
            got = (bool(p.isDateBeforePeriod(t)), bool(p.isDateWithinPeriod(t)), bool(p.isDateAfterPeriod(t)))
            ctx.eq(got, (kk < s1, s1 <= kk < e1, kk >= e1), "date-vs-period", "%s just below %d" % (what, k))
    if not first:
        check_period(ctx, p, kind, at(s1), at(e1), what)
    # copies are independent
    c = p.duplicate()
    t0 = p.getText()
    c.getStart().offsetDay(3)
    c.getEnd().offsetDay(30)
    ctx.eq(p.getText(), t0, "period-duplicate-shares", what)
    check_period(ctx, p, kind, at(s1), at(e1), what + " after copy")
    u = not p.getUseDuration()
    p.setUseDuration(u)
    ctx.eq(bool(p.getUseDuration()), u, "period-switch", what)
    check_period(ctx, p, kind, at(s1), at(e1), what + " switched")
    ctx.seen(what, True, what)


def zoned(ctx, rng, i):
    """periods whose bounds are local times: the UTC form covers the same instants"""
    z = rng.choice(ZONES)
    s = rand_dt(rng, 1990, 2100)
    e = s + D.timedelta(seconds=rng.randint(1, 10 ** 6))
    if z.near_onset(s) or z.near_onset(e):
        from vskip import Skip
        raise Skip()
    tz = Timezone(utc=False, tzid=z.tzid)
    l1, l2 = z.local(s), z.local(e)
    f = lambda l: DateTime(l.year, l.month, l.day, l.hour, l.minute, l.second, tzid=tz)
    p = Period(f(l1), end=f(l2))
    if rng.random() < 0.5:
        p.getDuration()
    q = p.duplicate()
    q.adjustToUTC()
    ctx.eq(q.getText(), "%s/%s" % (txt(s, True), txt(e, True)), "period-to-utc", "%s of %s" % (z.tzid, p.getText()))
    ctx.check(q == p, "period-to-utc", "UTC form differs from %s" % p.getText())
    ctx.eq(p.getDuration().getTotalSeconds(), secs(e - s), "period-duration", "elapsed time of %s in %s" % (p.getText(), z.tzid))
    ctx.seen((z.tzid, s, e), True, "%s %s" % (z.tzid, p.getText()))
