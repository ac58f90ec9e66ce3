# -*- coding: utf-8 -*-
"""C15 the recurrence set of a component is exactly (DTSTART + RRULEs + RDATEs) minus (EXRULEs + EXDATEs)."""
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.exceptions import TooManyInstancesError
from refcal import *
import refrrule as R
import props_c13 as P
from vskip import Skip

RULE = ("random recurrence sets: 0-3 RRULEs, RDATE lists (date-times and periods), EXDATE lists (also given in UTC against zoned starts, and on RDATEs and on DTSTART), 0-2 EXRULEs, in DATE, floating, "
        "UTC and zoned kinds; the expansion of a window and of whole-span windows is compared with reference set algebra over the reference rule expansions; instance limits are checked to abort or "
        "to change nothing; distinct by component text and window")
REQUIRE = {"instances": 1500, "excluded": 150, "rdates": 150, "periods": 30, "exrules": 60, "multi_rule": 60, "exdate_utc_for_zoned": 15, "limit_raised": 40, "limit_kept": 30, "dtstart_excluded": 15, "api_values": 300, "api_instances": 500, "api_periods_out": 50}
ASSUMPTIONS = ["EXRULEs are generated without COUNT", "period RDATEs that begin before the window and reach into it count as inside it, as the library defines"]
PLAN = [("algebra", 960, 40000), ("limits", 240, 10000), ("api", 480, 16000)]

setup = P.setup
FREQS = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY"]
SPAN = {"YEARLY": 366 * 5, "MONTHLY": 31 * 14, "WEEKLY": 7 * 20, "DAILY": 50}


def bare(r, s, end):
    occ = R.expand(r, s, end)
    m = R.first_match(r, s)
    return [t for t in occ if t != s or m == s]


def gen_set(ctx, rng):
    kind, zone, r, s = P.gen_case(rng, freqs=FREQS)
    for k in ("byhour", "byminute", "bysecond"):
        if r.get(k):
            r[k] = r[k][:2]
    span = SPAN[r["freq"]] * max(1, r["interval"] * 0.5)
    if s.year + span / 365 > 2110:
        s = s.replace(year=2001, day=min(s.day, 28))
    end = s + D.timedelta(days=span)
    coarser = FREQS[:FREQS.index(r["freq"]) + 1]
    lines, inc, exc = [], set([s]), set()
    info = {"periods": [], "rules": []}
    par = ";VALUE=DATE" if kind == "date" else ";TZID=%s" % zone.tzid if kind == "zone" else ""
    tx = lambda t: txt(t, kind == "utc", kind == "date")
    nr = rng.choice([0, 1, 1, 1, 2, 3])
    for j in range(nr):
        if j:
            r = R.gen_rule(rng, coarser, kind == "date")
            for k in ("byminute", "bysecond", "byweekno"):
                r.pop(k, None)
            if not any(k.startswith("by") and k != "bysetpos" for k in r):
                r.pop("bysetpos", None)
            if r.get("byhour"):
                r["byhour"] = [rng.randint(9, 20)]
        ut = P.bound(rng, kind, zone, r, s, span)
        lines.append("RRULE:" + R.to_text(r, ut, rng))
        got = R.expand(r, s, end)
        info["rules"].append(len([t for t in got]))
        inc |= set(got)
    base = sorted(inc)
    near = lambda: rng.choice(base) + D.timedelta(seconds=rng.choice([0, 0, 3600, -3600, 60, 86400]) if kind != "date" else 86400 * rng.choice([0, 1, -1]))
    day = lambda t: t.replace(hour=0, minute=0, second=0) if kind == "date" else t
    extra = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        ts = [day(near() if rng.random() < 0.5 else s + D.timedelta(days=rng.randint(-20, int(span)), seconds=rng.randint(0, 3600))) for _ in range(rng.randint(1, 4))]
        if zone is not None:
            ts = [t.replace(hour=rng.randint(9, 20)) for t in ts]
        if kind in ("utc", "floating", "zone") and rng.random() < 0.3:
            pers = []
            for t in ts:
                d = D.timedelta(minutes=rng.randint(1, 500))
                info["periods"].append((t, t + d))
                if rng.random() < 0.5:
                    pers.append("%s/%s" % (tx(t), R_dur(d)))
                else:
                    pers.append("%s/%s" % (tx(t), tx(t + d)))
            lines.append("RDATE;VALUE=PERIOD%s:%s" % (par, ",".join(pers)))
            ctx.count("periods", len(pers))
        else:
            lines.append("RDATE%s:%s" % (par, ",".join(tx(t) for t in ts)))
            inc |= set(ts)
            extra += ts
            ctx.count("rdates", len(ts))
    pool = sorted(inc)
    for _ in range(rng.choice([0, 1, 1, 2])):
        ts = [day(rng.choice(pool)) if rng.random() < 0.8 else day(near()) for _ in range(rng.randint(1, 4))]
        if extra and rng.random() < 0.4:
            ts.append(rng.choice(extra))
        if rng.random() < 0.1:
            ts.append(s)
        if zone is not None and rng.random() < 0.4 and all(zone.classify(t)[0] == "plain" for t in ts):
            lines.append("EXDATE:%s" % ",".join(txt(t - D.timedelta(seconds=zone.classify(t)[1]), True) for t in ts))
            ctx.count("exdate_utc_for_zoned")
        else:
            lines.append("EXDATE%s:%s" % (par, ",".join(tx(t) for t in ts)))
        exc |= set(ts)
        if s in ts:
            ctx.count("dtstart_excluded")
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        q = R.gen_rule(rng, coarser, kind == "date")
        for k in ("byminute", "bysecond", "byweekno", "byhour"):
            q.pop(k, None)
        if not any(k.startswith("by") and k != "bysetpos" for k in q):
            q.pop("bysetpos", None)
        ut = None
        if rng.random() < 0.4:
            t = day(s + D.timedelta(days=rng.randint(0, int(span))))
            if zone is not None and zone.classify(t)[0] != "plain":
                raise Skip()
            ut, q["until"] = P.until_text(rng, kind, zone, t)
        lines.append("EXRULE:" + R.to_text(q, ut, rng))
        exc |= set(bare(q, s, end))
        ctx.count("exrules")
    if nr > 1:
        ctx.count("multi_rule")
    rng.shuffle(lines)
    return kind, zone, s, lines, inc, exc, info, span


def R_dur(d):
    m = int(d.total_seconds()) // 60
    return "PT%dH%dM" % (m // 60, m % 60) if m >= 60 and m % 60 else "PT%dM" % m if m < 60 else "PT%dH" % (m // 60)


def reference(inc, exc, periods, a, b):
    out = set(t for t in inc if a <= t < b) | set(p for p, q in periods if not (p >= b or q <= a))
    return sorted(t for t in out if t not in exc)


def algebra(ctx, rng, i):
    kind, zone, s, lines, inc, exc, info, span = gen_set(ctx, rng)
    if not lines:
        raise Skip()
    a, b = P.window(rng, kind, zone, s, span)
    b = min(b, s + D.timedelta(days=span))
    if rng.random() < 0.4:
        a, b = s - D.timedelta(30), s + D.timedelta(days=int(span))
    if kind == "date":
        b = b.replace(hour=0, minute=0, second=0)
    b = b.replace(microsecond=0)
    if b <= a:
        b = a + D.timedelta(1)
    if zone is not None and any(zone.classify(t)[0] != "plain" for t in list(inc) + list(exc) + [a, b]):
        raise Skip()
    # excluded instants compare by time; the EXRULE of a zoned start is on the same clock
    want = reference(inc, exc, info["periods"], a, b)
    ev = Calendar.parseText(P.component(kind, zone, s, lines)).getComponents("VEVENT")[0]
    got = []
    ev.getRecurrenceSet().expand(ev.getStart(), Period(P.mk(kind, zone, a), P.mk(kind, zone, b)), got)
    g = [P.to_ref(x) for x in got]
    label = "DTSTART %s%s %s in [%s,%s)" % (txt(s, kind == "utc", kind == "date"), "@" + zone.tzid if zone else "", lines, a, b)
    if g != want:
        ctx.viol("recurrence-set-%s" % "+".join(sorted(set(l.split(":")[0].split(";")[0] for l in lines))).lower(), "%s: missing %s extra %s (%d vs %d)%s" % (
            label, [str(t) for t in want if t not in g][:3], [str(t) for t in g if t not in want][:3], len(g), len(want), " order/duplicates" if sorted(set(g)) == want else ""))
    ctx.count("instances", len(want))
    ctx.count("excluded", len([t for t in inc if a <= t < b and t in exc]))
    ctx.seen(label, len(lines) > 1 or len(want) > 1, "%s -> %d" % (label, len(want)))


def limits(ctx, rng, i):
    """an instance limit either aborts the expansion or leaves the answer unchanged; the bound is respected"""
    kind, zone, s, lines, inc, exc, info, span = gen_set(ctx, rng)
    if not lines:
        raise Skip()
    a, b = s, s + D.timedelta(days=int(span))
    if zone is not None and any(zone.classify(t)[0] != "plain" for t in list(inc) + list(exc) + [a, b]):
        raise Skip()
    src = P.component(kind, zone, s, lines)
    per = lambda: Period(P.mk(kind, zone, a), P.mk(kind, zone, b))
    ev = Calendar.parseText(src).getComponents("VEVENT")[0]
    full = []
    ev.getRecurrenceSet().expand(ev.getStart(), per(), full)
    for limit in sorted(set([1, rng.randint(1, 10), len(full), len(full) + 1, max(1, len(full) - 1)])):
        if limit < 1:
            continue
        if rng.random() < 0.5:
            ev = Calendar.parseText(src).getComponents("VEVENT")[0]
        got = []
        label = "DTSTART %s %s limit %d" % (txt(s), lines, limit)
        try:
            ev.getRecurrenceSet().expand(ev.getStart(), per(), got, maxInstances=limit)
            ctx.eq([x.getText() for x in got], [x.getText() for x in full], "limit-changes-answer", label)
            longest = max([len([t for t in inc if t < b])] if len(info["rules"]) == 1 and not any(l.startswith("RDATE") for l in lines) else [0])
            # one rule only: DTSTART counts once, so more than limit + 1 members must abort
            ctx.check(longest <= limit + 1, "limit-not-applied", "%s: %d members" % (label, longest))
            ctx.count("limit_kept")
        except TooManyInstancesError:
            total = 1 + sum(info["rules"]) + len(info["periods"]) + sum(len(l.split(":")[1].split(",")) for l in lines if l.startswith("RDATE"))
            ctx.check(total > limit, "limit-aborts-too-early", "%s: only %d candidates" % (label, total))
            ctx.count("limit_raised")
    ctx.seen((tuple(lines), s), True, "%s" % lines)


def built_property(name, rng, par, values, single):
    """one property of the recurrence set made with the API: a single value alone, or a list"""
    if single and len(values) == 1:
        return [Property(name, values[0])]
    if rng.random() < 0.3:
        return [Property(name, v if rng.random() < 0.5 else [v]) for v in values]
    return [Property(name, values)]


def api(ctx, rng, i):
    """the same set of a component that was put together with the API, never read from text"""
    kind, zone, s, lines, inc, exc, info, span = gen_set(ctx, rng)
    if not lines:
        raise Skip()
    a, b = s - D.timedelta(30), s + D.timedelta(days=int(span))
    b = b.replace(microsecond=0, hour=0, minute=0, second=0) if kind == "date" else b.replace(microsecond=0)
    a = a.replace(hour=0, minute=0, second=0) if kind == "date" else a
    if b <= a or zone is not None and any(zone.classify(t)[0] != "plain" for t in list(inc) + list(exc) + [a, b]):
        raise Skip()
    want = reference(inc, exc, info["periods"], a, b)
    cal = Calendar.parseText(P.component(kind, zone, s, []))
    cal.removeAllComponents("VEVENT") if hasattr(cal, "removeAllComponents") else [cal.removeComponent(c) for c in list(cal.getComponents("VEVENT"))]
    ev = VEvent(parent=cal)
    ev.addProperty(Property("UID", "made"))
    ev.addProperty(Property("DTSTART", P.mk(kind, zone, s)))

    def at(t):
        if t.endswith("Z"):
            return DateTime.parseText(t)
        f = "%Y%m%dT%H%M%S" if "T" in t else "%Y%m%d"
        return P.mk(kind, zone, D.datetime.strptime(t, f))

    for l in lines:
        head, value = l.split(":", 1)
        name = head.split(";")[0]
        if name in ("RRULE", "EXRULE"):
            r = Recurrence()
            r.parse(value)
            made = [Property(name, r)]
        else:
            vals = []
            for v in value.split(","):
                if "/" in v:
                    p, q = v.split("/")
                    vals.append(Period(at(p), duration=Duration.parseText(q)) if q.startswith("P") else Period(at(p), at(q)))
                else:
                    vals.append(at(v))
            made = built_property(name, rng, None, vals, rng.random() < 0.5)
            ctx.count("api_values", len(vals))
        for p in made:
            ev.addProperty(p)
    ev.finalise()
    cal.addComponent(ev)
    label = "made with the API: DTSTART %s%s %s in [%s,%s)" % (txt(s, kind == "utc", kind == "date"), "@" + zone.tzid if zone else "", lines, a, b)
    for who in ("made", "copied", "expanded"):
        got = []
        if who == "expanded":
            cal.getVEvents(Period(P.mk(kind, zone, a), P.mk(kind, zone, b)), got)
            g = sorted(P.to_ref(x.getInstanceStart()) for x in got)
            # items overlap the window: only those that begin in it are compared
            g = [t for t in g if a <= t < b]
            w = [t for t in want if a <= t < b]
        else:
            e = ev if who == "made" else cal.duplicate().getComponents("VEVENT")[0]
            e.getRecurrenceSet().expand(e.getStart(), Period(P.mk(kind, zone, a), P.mk(kind, zone, b)), got)
            g, w = [P.to_ref(x) for x in got], want
        ctx.check(g == w, "api-set-%s" % who, lambda: "%s: missing %s extra %s (%d vs %d)" % (
            label, [str(t) for t in w if t not in g][:3], [str(t) for t in g if t not in w][:3], len(g), len(w)))
    # periods can be left out too
    rs = ev.getRecurrenceSet()
    if kind != "date" and want and rng.random() < 0.5:
        out = []
        for t in rng.sample(want, min(len(want), rng.randint(1, 3))):
            e = t + D.timedelta(seconds=rng.choice([60, 3600, 86400 * 9, 86400 * 400]))
            if zone is None or zone.classify(e)[0] == "plain":
                out.append(t)
                rs.subtractPeriod(Period(P.mk(kind, zone, t), P.mk(kind, zone, e)))
        got = []
        rs.expand(ev.getStart(), Period(P.mk(kind, zone, a), P.mk(kind, zone, b)), got)
        g, w = [P.to_ref(x) for x in got], [t for t in want if t not in out]
        ctx.count("api_periods_out", len(out))
        ctx.check(g == w, "api-set-periods-out", lambda: "%s without periods from %s: missing %s extra %s" % (
            label, map(str, out), [str(t) for t in w if t not in g][:3], [str(t) for t in g if t not in w][:3]))
    ctx.count("api_instances", len(want))
    ctx.seen(("api", label), True, label)
