# -*- coding: utf-8 -*-
"""C14 expansion of a recurrence depends only on its current definition, start and window, never on history."""
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.exceptions import TooManyInstancesError
from pycalendar.icalendar import definitions
from refcal import *
import refrrule as R
import props_c13 as P
from vskip import Skip

RULE = ("random histories over one live rule, one live recurrence set or one live event: expansions of varied windows (growing, shrinking, disjoint, repeated, past the last instance), "
        "instance limits that abort an expansion part-way, changes of the start in value and in kind, every rule setter, changes made by the caller to the start and to returned instances, "
        "duplication; after each expansion the answer is compared with a freshly parsed object given the same question; a case is distinct by its rule and operation list")
REQUIRE = {"expansions": 1500, "setters": 10, "aborted": 40, "mutated_results": 60, "mutated_start": 60, "duplicated": 60, "windows_split": 300, "restarted": 60}
PLAN = [("rule_history", 640, 24000), ("set_history", 400, 16000), ("windows", 640, 24000), ("event_history", 240, 8000)]

setup = P.setup
FREQS = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY"]


def shot(items):
    return [(x.getText(), x.getTimezoneID(), bool(x.utc()), x.isDateOnly()) for x in items]


def expand(obj, start, per, limit=None):
    out = []
    try:
        obj.expand(start, per, out, maxInstances=limit)
    except TooManyInstancesError:
        return "too many"
    return shot(out)


def clone_start(kind, zone, s):
    return P.mk(kind, zone, s)


def rand_window(rng, kind, zone, s, span):
    a, b = P.window(rng, kind, zone, s, span)
    if rng.random() < 0.2:
        a = s
    if rng.random() < 0.1:
        a = s + D.timedelta(days=span * 3)
        b = a + D.timedelta(days=span)
    if kind == "date":
        a = a.replace(hour=0, minute=0, second=0)
        b = b.replace(hour=0, minute=0, second=0)
    if b <= a:
        b = a + D.timedelta(1)
    return Period(P.mk(kind, zone, a), P.mk(kind, zone, b))


def gen(rng, freqs=FREQS):
    kind, zone, r, s = P.gen_case(rng, freqs=freqs)
    span = {"YEARLY": 366 * 6, "MONTHLY": 31 * 18, "WEEKLY": 7 * 26, "DAILY": 60}[r["freq"]] * max(1, r["interval"] * 0.6)
    for k in ("byhour", "byminute", "bysecond"):
        if r.get(k):
            r[k] = r[k][:2]
    if s.year + span * 5 / 365 > 2120:
        s = s.replace(year=2010, day=min(s.day, 28))
    ut = P.bound(rng, kind, zone, r, s, span)
    return kind, zone, r, s, span, R.to_text(r, ut, rng)


def set_some(ctx, rng, rec, kind, zone, s, ops):
    """call one setter of the rule, in a way that keeps the rule in the supported domain"""
    byday_ok = rec.getFreq() in (definitions.eRecurrence_DAILY, definitions.eRecurrence_WEEKLY, definitions.eRecurrence_MONTHLY)
    k = rng.choice(["count", "until", "until-kind", "interval", "freq", "bymonth", "byday", "bysetpos", "nobound", "bymonthday", "inplace", "flag", "flag", "byyearday", "bounds"])
    if k == "count":
        rec.setUseUntil(False)
        rec.setUseCount(True)
        rec.setCount(rng.randint(1, 12))
    elif k in ("until", "until-kind"):
        t = s + D.timedelta(days=rng.randint(1, 400))
        rec.setUseCount(False)
        rec.setUseUntil(True)
        # (an UNTIL with a timezone cannot be written)
        u = P.mk("floating" if kind == "zone" else kind, None, t)
        if k == "until-kind" and kind == "floating":
            u = P.mk("date", None, t)
            rec.setUntil(P.mk(kind, None, t))
        rec.setUntil(u)
    elif k == "nobound":
        rec.setUseCount(False)
        rec.setUseUntil(False)
    elif k == "interval":
        rec.setInterval(rng.randint(1, 5))
    elif k == "freq":
        if rec.hasBy():
            return
        rec.setFreq(rng.choice([definitions.eRecurrence_DAILY, definitions.eRecurrence_WEEKLY, definitions.eRecurrence_MONTHLY, definitions.eRecurrence_YEARLY]))
    elif k == "bymonth":
        rec.setByMonth(R.some(rng, range(1, 13), 1, 5))
    elif k == "byday" and byday_ok:
        rec.setByDay([(0, w) for w in R.some(rng, range(7), 1, 4)])
    elif k == "bymonthday" and byday_ok and rec.getFreq() != definitions.eRecurrence_WEEKLY:
        rec.setByMonthDay(R.some(rng, range(1, 29), 1, 5))
    elif k == "byyearday" and rec.getFreq() == definitions.eRecurrence_YEARLY and not rec.getByDay() and not rec.getByMonth() and not rec.getByMonthDay():
        rec.setByYearDay(R.some(rng, range(1, 366), 1, 4))
    elif k == "flag":
        # one of the two alone: the other may stay in use, or its value stay behind
        n, v = rng.choice(["Count", "Until"]), rng.random() < 0.6
        if v and not (rec.getCount() if n == "Count" else rec.getUntil()):
            return
        getattr(rec, "setUse" + n)(v)
    elif k == "bounds":
        # both in use
        rec.setUseCount(True)
        rec.setCount(rng.randint(1, 12))
        rec.setUseUntil(True)
        rec.setUntil(P.mk("floating" if kind == "zone" else kind, None, s + D.timedelta(days=rng.randint(1, 400))))
    elif k == "bysetpos" and rec.hasBy():
        rec.setBySetPos([rng.choice([1, -1, 2])])
    else:
        return
    ops.append("set-" + k)
    ctx.mark("setters", k)


def rule_history(ctx, rng, i):
    kind, zone, r, s, span, text = gen(rng)
    rec = Recurrence.parseText(text)
    start = clone_start(kind, zone, s)
    ops = []
    for step in range(rng.randint(4, 9)):
        x = rng.random()
        if x < 0.17:
            set_some(ctx, rng, rec, kind, zone, s, ops)
        elif x < 0.23:
            rec = rec.duplicate()
            ops.append("dup")
            ctx.count("duplicated")
        elif x < 0.31:
            # the caller moves its own start, in place
            d = rng.choice([1, 7, -1, 30])
            start.offsetDay(d)
            s = s + D.timedelta(d)
            ops.append("start-moved-in-place")
            ctx.count("mutated_start")
        elif x < 0.37 and kind != "date":
            # another start with equal instant but other kind
            nk = rng.choice(["utc", "floating", "zone"])
            if nk == "zone":
                zone = P.ZONES[2] if rng.random() < 0.5 else P.ZONES[0]
                if zone.classify(s)[0] != "plain":
                    continue
            else:
                zone = None
            kind = nk
            start = clone_start(kind, zone, s)
            ops.append("start-kind-" + nk)
            ctx.count("restarted")
        per = rand_window(rng, kind, zone, s, span)
        limit = rng.choice([None, None, None, 1, 2, 5, 20])
        fresh = Recurrence.parseText(rec.getText())
        want = expand(fresh, start.duplicate(), per, limit)
        got = []
        try:
            rec.expand(start, per, got, maxInstances=limit)
            res = shot(got)
        except TooManyInstancesError:
            res = "too many"
            ctx.count("aborted")
        ops.append("expand%s" % ("/%s" % limit if limit else ""))
        ctx.count("expansions")
        if res != want:
            ctx.viol("rule-history-dependent", "%s from %s in %s limit %s after %s: got %r, a fresh rule gives %r" % (
                rec.getText(), start.getText(), per.getText(), limit, ops, [y[0] for y in res][:6] if res != "too many" else res,
                [y[0] for y in want][:6] if want != "too many" else want))
            return
        if res != "too many" and len(got) > 1 and rng.random() < 0.4:
            # the caller owns the result
            j = rng.randrange(len(got))
            got[j].offsetDay(400)
            got[0].setHHMMSS(1, 2, 3)
            del got[1:]
            ops.append("mutate-result")
            ctx.count("mutated_results")
    ctx.seen((text, tuple(ops)), len(ops) > 2, "%s: %s" % (text, " ".join(ops)))


def gen_event_lines(rng, kind, zone, r, s, span, text):
    lines = ["RRULE:" + text] if rng.random() < 0.9 else []
    par = ";VALUE=DATE" if kind == "date" else ";TZID=%s" % zone.tzid if kind == "zone" else ""
    occ = R.expand(r, s, s + D.timedelta(days=span))
    for name in ("RDATE", "EXDATE"):
        if rng.random() < 0.5:
            ts = [rng.choice(occ) if rng.random() < 0.6 else s + D.timedelta(days=rng.randint(0, int(span))) for _ in range(rng.randint(1, 3))]
            lines.append("%s%s:%s" % (name, par, ",".join(txt(t, kind == "utc", kind == "date") for t in ts)))
    return lines


def set_history(ctx, rng, i):
    kind, zone, r, s, span, text = gen(rng)
    lines = gen_event_lines(rng, kind, zone, r, s, span, text) or ["RRULE:" + text]
    src = P.component(kind, zone, s, lines)
    cal = Calendar.parseText(src)
    ev = cal.getComponents("VEVENT")[0]
    rs = ev.getRecurrenceSet()
    start = ev.getStart()
    ops = []
    for step in range(rng.randint(3, 7)):
        x = rng.random()
        if x < 0.15:
            rs = rs.duplicate()
            ops.append("dup-set")
            ctx.count("duplicated")
        elif x < 0.25:
            cal = cal.duplicate()
            ev = cal.getComponents("VEVENT")[0]
            rs = ev.getRecurrenceSet()
            start = ev.getStart()
            ops.append("dup-calendar")
            ctx.count("duplicated")
        elif x < 0.35:
            rs.changed()
            ops.append("changed")
        per = rand_window(rng, kind, zone, s, span)
        limit = rng.choice([None, None, 1, 3, 50])
        fev = Calendar.parseText(src).getComponents("VEVENT")[0]
        want = expand(fev.getRecurrenceSet(), fev.getStart(), per, limit)
        got = []
        try:
            rs.expand(start, per, got, maxInstances=limit)
            res = shot(got)
        except TooManyInstancesError:
            res = "too many"
            ctx.count("aborted")
        ops.append("expand%s" % ("/%s" % limit if limit else ""))
        ctx.count("expansions")
        if res != want:
            ctx.viol("set-history-dependent", "%s %s in %s limit %s after %s: got %r, fresh gives %r" % (
                txt(s), lines, per.getText(), limit, ops, [y[0] for y in res][:8] if res != "too many" else res, [y[0] for y in want][:8] if want != "too many" else want))
            return
        if res != "too many" and got and rng.random() < 0.4:
            for y in got:
                y.offsetDay(3)
            ops.append("mutate-result")
            ctx.count("mutated_results")
            ctx.eq(start.getText(), fev.getStart().getText(), "start-aliased", "DTSTART after the instances were changed")
    # the source is as it was
    ctx.eq(str(cal).replace("\r\n", "|"), str(Calendar.parseText(src)).replace("\r\n", "|"), "expansion-changes-calendar", "serialised calendar after %s" % ops)
    ctx.seen((tuple(lines), tuple(ops)), True, "%s: %s" % (lines, " ".join(ops)))


def windows(ctx, rng, i):
    """consistency of windows: pieces add up to the whole, and every answer lies inside its window in order"""
    kind, zone, r, s, span, text = gen(rng)
    lines = gen_event_lines(rng, kind, zone, r, s, span, text) or ["RRULE:" + text]
    ev = Calendar.parseText(P.component(kind, zone, s, lines)).getComponents("VEVENT")[0]
    shared = rng.random() < 0.5
    cuts = sorted(set([s - D.timedelta(days=rng.choice([0, 1, 5]))] + [s + D.timedelta(days=span * rng.random()) for _ in range(rng.randint(2, 4))]))
    cuts = [c.replace(microsecond=0) for c in cuts]
    if kind == "date":
        cuts = [c.replace(hour=0, minute=0, second=0) for c in cuts]
    occ = R.expand(r, s, s + D.timedelta(days=span))
    # cut exactly on instances too
    cuts = sorted(set(cuts + [rng.choice(occ)]))
    if zone is not None and any(zone.classify(c)[0] != "plain" for c in cuts):
        raise Skip()
    if len(cuts) < 3:
        raise Skip()

    def ex(a, b):
        e = ev if shared else Calendar.parseText(P.component(kind, zone, s, lines)).getComponents("VEVENT")[0]
        out = []
        e.getRecurrenceSet().expand(e.getStart(), Period(P.mk(kind, zone, a), P.mk(kind, zone, b)), out)
        for x in out:
            ctx.check(P.mk(kind, zone, a) <= x and x < P.mk(kind, zone, b), "outside-window", "%s outside [%s,%s)" % (x.getText(), a, b))
        for x, y in zip(out, out[1:]):
            ctx.check(x < y, "not-in-order", "%s then %s from %s" % (x.getText(), y.getText(), lines))
        return shot(out)
    order = list(range(len(cuts) - 1))
    rng.shuffle(order)
    parts = {}
    for j in order:
        parts[j] = ex(cuts[j], cuts[j + 1])
    whole = ex(cuts[0], cuts[-1])
    ctx.eq(sum([parts[j] for j in sorted(parts)], []), whole, "windows-do-not-add-up", "%s %s cut at %s" % (txt(s), lines, cuts))
    ctx.count("windows_split", len(cuts) - 1)
    ctx.seen((tuple(lines), tuple(cuts)), bool(whole), "%s cut %d times -> %d" % (lines, len(cuts) - 2, len(whole)))


def event_history(ctx, rng, i):
    """same through a calendar: asking for the instances of one window never changes the next answers"""
    kind, zone, r, s, span, text = gen(rng)
    lines = gen_event_lines(rng, kind, zone, r, s, span, text) or ["RRULE:" + text]
    if rng.random() < 0.5:
        lines.append("DURATION:P%dD" % rng.randint(1, 3) if kind == "date" else "DURATION:PT%dM" % rng.randint(1, 200))
    src = P.component(kind, zone, s, lines)
    cal = Calendar.parseText(src)
    n = 0
    for step in range(rng.randint(3, 6)):
        per = rand_window(rng, kind, zone, s, span)
        a, b = [], []
        cal.getVEvents(per, a)
        Calendar.parseText(src).getVEvents(per, b)
        key = lambda l: [(x.getInstanceStart().getText(), x.getInstanceEnd().getText()) for x in l]
        if not ctx.eq(key(a), key(b), "event-history-dependent", "%s in %s, question %d" % (lines, per.getText(), step + 1)):
            return
        n += len(a)
        ctx.count("expansions")
        for x in a:
            x.getInstanceStart().offsetHours(5)
            x.getInstanceEnd().offsetDay(1)
        ctx.count("mutated_results", len(a))
    ctx.eq(str(cal).replace("\r\n", "|"), str(Calendar.parseText(src)).replace("\r\n", "|"), "expansion-changes-calendar", "serialised calendar")
    ctx.seen((tuple(lines), src), n > 0, "%s -> %d" % (lines, n))
