# -*- coding: utf-8 -*-
"""C28: busy time is exactly the time of the events and FREEBUSY periods that make it busy."""
import datetime as D
import props_c13 as P
import props_c16 as C16
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vfreebusy import VFreeBusy
from refcal import *
from vskip import Skip

RULE = ("random calendars of single and recurring events with overrides, every TRANSP and STATUS, all-day and empty events, and VFREEBUSY components of every FBTYPE; the busy items and the merged FREEBUSY properties of a window are compared with a reference "
        "that works from the model; distinct by calendar and window")
REQUIRE = {"items": 1500, "tentative": 150, "ignored": 300, "fb-items": 800, "fb-free": 100, "fb-default": 100, "fb-unknown": 50, "fb-outside": 150, "merged": 150, "touching": 30, "properties": 500, "listed": 200, "unlisted": 100, "requeried": 300, "copies": 300}
PLAN = [("busy", 1600, 12000), ("stored", 3000, 30000)]
ASSUMPTIONS = ["FREEBUSY periods are in UTC, and no VFREEBUSY goes with floating events, whose times cannot be compared with it", "events next to a change of offset are not generated", "to-dos, journals and availability do not make time busy",
               "TRANSP and STATUS values are in upper case"]

setup = P.setup
TYPES = {"BUSY": FreeBusy.BUSY, "BUSY-UNAVAILABLE": FreeBusy.BUSYUNAVAILABLE, "BUSY-TENTATIVE": FreeBusy.BUSYTENTATIVE, "FREE": None, None: FreeBusy.BUSY, "X-OUT": FreeBusy.BUSY}
STATUS = [None, None, None, "CONFIRMED", "TENTATIVE", "TENTATIVE", "CANCELLED"]
TRANSP = [None, None, None, "OPAQUE", "TRANSPARENT"]


def case(rng, s):
    return s if rng.random() < 0.8 else "".join(rng.choice([c, c.lower()]) for c in s)


def dur(rng, d):
    m = int(d.total_seconds() // 60)
    return rng.choice(["PT%dM" % m, "PT%dH%dM" % (m // 60, m % 60)])


def gen_freebusy(ctx, rng, uid, anchor):
    """-> lines, [(start, end, type or None)], span or None"""
    busy, lines = [], []
    for _n in range(rng.choice([0, 1, 1, 2, 3, 5])):
        typ = rng.choice([None, "BUSY", "BUSY", "BUSY-TENTATIVE", "BUSY-UNAVAILABLE", "FREE", "X-OUT"])
        vals = []
        for _m in range(rng.choice([1, 1, 2, 4])):
            s = anchor + D.timedelta(days=rng.randint(-12, 12), minutes=15 * rng.randint(0, 90))
            d = D.timedelta(minutes=rng.choice([15, 30, 60, 240, 60 * 24, 60 * 50]))
            vals.append(txt(s, True) + "/" + (txt(s + d, True) if rng.random() < 0.5 else dur(rng, d)))
            if TYPES[typ] is not None:
                busy.append((s, s + d, TYPES[typ]))
        ctx.count("fb-free" if typ == "FREE" else "fb-default" if typ is None else "fb-unknown" if typ == "X-OUT" else "fb-typed")
        lines.append("FREEBUSY%s:%s" % ("" if typ is None else ";FBTYPE=" + case(rng, typ), ",".join(vals)))
    span = None
    if busy:
        lo, hi = min(x[0] for x in busy), max(x[1] for x in busy)
        form = rng.choice(["", "", "START", "END", "BOTH", "BOTH", "DUR"])
        a, b = lo - D.timedelta(hours=rng.randint(0, 100)), hi + D.timedelta(hours=rng.randint(0, 100))
        if form in ("START", "BOTH", "DUR"):
            lines.append("DTSTART:" + txt(a, True))
            lo = a
        if form in ("END", "BOTH"):
            lines.append("DTEND:" + txt(b, True))
            hi = b
        if form == "DUR":
            lines.append("DURATION:" + dur(rng, b - a))
            hi = b
        span = (lo, hi)
    rng.shuffle(lines)
    lines = ["BEGIN:VFREEBUSY", "UID:" + uid, C16.stamp(rng)] + lines + ["END:VFREEBUSY"]
    return lines, busy, span


def utc(x):
    y = x.duplicate()
    y.adjustToUTC()
    return P.to_ref(y)


def shown(l):
    return sorted((utc(x.getPeriod().getStart()), utc(x.getPeriod().getEnd()), x.getType()) for x in l)


def merged(spans):
    out = []
    for s, e in sorted(spans):
        if out and s <= out[-1][1]:
            out[-1] = (out[-1][0], max(e, out[-1][1]))
        else:
            out.append((s, e))
    return out


def fmt(l):
    return ["%s..%s%s" % (x[0], x[1], "" if len(x) < 3 else " %d" % x[2]) for x in l[:5]]


def compare(ctx, got, want, key, label):
    extra, miss = list(got), []
    for x in want:
        if x in extra:
            extra.remove(x)
        else:
            miss.append(x)
    if extra or miss:
        ctx.viol(key + ("-missing" if miss else "") + ("-extra" if extra else ""), "%s: missing %s extra %s" % (label, fmt(miss), fmt(extra)))
        return False
    return True


def busy(ctx, rng, i):
    clock = rng.choice([("utc", None), ("floating", None), ("zone", P.ZONES[0]), ("zone", P.ZONES[1])])
    anchor = D.datetime(rng.randint(1995, 2045), rng.randint(1, 12), rng.randint(1, 28), 9, 0, 0)
    comps, fixed, recs, how = [], [], [], {}
    zone = clock[1]
    for n in range(rng.randint(1, 4)):
        c, f, r = C16.gen_event(ctx, rng, "u%d" % n, clock, anchor)
        if rng.random() < 0.6:
            # several on the same days, that touch and overlap
            for m in range(rng.randint(2, 6)):
                t = anchor + D.timedelta(days=rng.choice([0, 0, 1]), minutes=15 * rng.randint(0, 24))
                d = D.timedelta(minutes=rng.choice([0, 15, 30, 60, 120]))
                c = c + [["BEGIN:VEVENT", "UID:u%d-%d" % (n, m), C16.stamp(rng), C16.prop("DTSTART", clock[0], zone, t)] + ([C16.prop("DTEND", clock[0], zone, t + d)] if d else []) + ["SUMMARY:u%d day %d" % (n, m), "END:VEVENT"]]
                f = f + [("single", clock[0], zone, "u%d-%d" % (n, m), "u%d day %d" % (n, m), t, t + d, "")]
        for body in c:
            sm = [l for l in body if l.startswith("SUMMARY:")][0][8:]
            st, tr = rng.choice(STATUS), rng.choice(TRANSP)
            how[sm] = (st, tr)
            for l in (["STATUS:" + st] if st else []) + (["TRANSP:" + tr] if tr else []):
                body.insert(rng.randint(1, len(body) - 1), l)
        comps += c
        fixed += f
        if r:
            recs.append(r)
    fbs = []
    if clock[0] != "floating":
        for n in range(rng.choice([0, 1, 1, 2])):
            fbs.append(gen_freebusy(ctx, rng, "f%d" % n, anchor))
            comps.append(fbs[-1][0])
    rng.shuffle(comps)
    a = (anchor + D.timedelta(days=rng.choice([0, 0, 1, -3, rng.randint(-20, 20)]))).replace(hour=rng.choice([0, 0, 9, 12]))
    b = a + D.timedelta(days=rng.choice([1, 7, 7, 31]))
    win, a, b, hasdate, inst, maybe = C16.expected(ctx, clock, a, b, fixed, recs)
    if maybe:
        raise Skip()
    at = lambda t: t if zone is None else t - D.timedelta(seconds=zone.classify(t)[1])
    want = []
    for u, sm, s, e, k, _st in inst:
        st, tr = how[sm]
        if k == "date" or s == e or st == "CANCELLED" or tr == "TRANSPARENT":
            ctx.count("ignored")
            continue
        if k == "zone" and (zone.classify(s)[0] != "plain" or zone.classify(e)[0] != "plain"):
            raise Skip()
        want.append((at(s), at(e), FreeBusy.BUSYTENTATIVE if st == "TENTATIVE" else FreeBusy.BUSY))
        ctx.count("tentative" if st == "TENTATIVE" else "items")
    src = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\n" + "".join("".join(l + "\r\n" for l in c) for c in comps) + "END:VCALENDAR\r\n"
    label = "%s window [%s,%s)" % (src.replace("\r\n", "|")[60:], a, b)
    cal = Calendar.parseText(src)
    before = cal.getText()
    if rng.random() < 0.4:
        cal = cal.duplicate()
        ctx.count("copies")

    # the merged properties
    fb = VFreeBusy(parent=cal)
    if rng.random() < 0.3:
        fb.addProperty(Property("COMMENT", "kept"))
    rest = fb.getText()
    cal.getVFreeBusyFB(win, fb)
    props = fb.getProperties("FREEBUSY")
    got = []
    for p in props:
        multi = p.getMultiValue()
        vals = [multi] if multi is None else multi.getValues()
        for v in ([p.getValue()] if multi is None else vals):
            per = v.getValue()
            got.append((utc(per.getStart()), utc(per.getEnd())))
            if clock[0] != "floating":
                ctx.check(per.getStart().utc() and per.getEnd().utc(), "property-not-utc", lambda: "%s: %s" % (label, per))
    exp = merged([w[:2] for w in want])
    ctx.count("properties", len(exp))
    ctx.count("merged", len(want) - len(exp))
    ctx.count("touching", len([1 for x in want for y in want if x[1] == y[0]]))
    if compare(ctx, got, exp, "properties", label):
        ctx.check(got == sorted(got), "properties-order", lambda: "%s: %s" % (label, fmt(got)))
    if props:
        again = Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\n%sEND:VCALENDAR\r\n" % fb.getText())
        l = []
        again.getFreeBusy(Period(DateTime(1, 1, 1, 0, 0, 0, tzid=win.getStart().getTimezone()), DateTime(4000, 1, 1, 0, 0, 0, tzid=win.getStart().getTimezone())), l)
        if clock[0] != "floating":
            ctx.eq([(x[0], x[1], x[2]) for x in shown(l)], [(s, e, FreeBusy.BUSY) for s, e in exp], "written-properties", label)
    if clock[0] != "floating":
        fb.finalise()
        l = []
        fb.expandPeriodFB(Period(P.mk("utc", None, D.datetime(1901, 1, 1)), P.mk("utc", None, D.datetime(2300, 1, 1))), l)
        ctx.eq(shown(l), [(s, e, FreeBusy.BUSY) for s, e in exp], "properties-as-busy-time", label)
    for p in list(props):
        fb.removeProperty(p)
    ctx.eq(fb.getText(), rest, "other-properties-of-the-free-busy", label)

    # the busy items, the stored ones included
    ua, ub = at(a), at(b)
    listed = []
    for n, (lines, items, span) in enumerate(fbs):
        on = span is not None and not (span[1] <= ua or span[0] >= ub)
        ctx.count("listed" if on else "unlisted")
        if on:
            listed.append("f%d" % n)
        for s, e, t in items:
            if on and not (e <= ua or s >= ub):
                want.append((s, e, t))
                ctx.count("fb-items")
            else:
                ctx.count("fb-outside")
    comps2 = []
    cal.getVFreeBusyList(win, comps2)
    ctx.eq(sorted(x.getUID() for x in comps2), listed, "listed", label)
    for turn in range(2):
        l = []
        cal.getFreeBusy(win, l)
        if not compare(ctx, shown(l), sorted(want), "items" if not turn else "items-again", label):
            break
        # what was given out is the caller's
        for x in l:
            x.getPeriod().getStart().offsetDay(1)
            x.getPeriod().getEnd().offsetHours(3)
            x.setType(FreeBusy.FREE)
        ctx.count("requeried")
    ctx.eq(cal.getText(), before, "calendar-changed", label)
    ctx.seen(src + str(a), len(want) > 0, label[-400:])


def stored(ctx, rng, i):
    """one VFREEBUSY: its busy time in any window, its span, and after a change"""
    anchor = D.datetime(rng.randint(1975, 2060), rng.randint(1, 12), rng.randint(1, 28), 9, 0, 0)
    lines, items, span = gen_freebusy(ctx, rng, "f", anchor)
    src = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\n%sEND:VCALENDAR\r\n" % "".join(l + "\r\n" for l in lines)
    cal = Calendar.parseText(src)
    vfb = cal.getComponents("VFREEBUSY")[0]
    label = "|".join(lines)
    more = []

    def look():
        edges = sorted(set([x for s, e, _t in items for x in (s, e)] + list(span or ()) + [anchor]))
        a = rng.choice(edges) + D.timedelta(minutes=rng.choice([0, 0, -15, 15, -1000]))
        b = max(a + D.timedelta(minutes=15), rng.choice(edges) + D.timedelta(minutes=rng.choice([0, 0, -15, 15, 1000])))
        zone = rng.choice(P.ZONES + [None, None])
        if zone is None or any(zone.at_utc(x) is None or zone.classify(zone.local(x))[0] != "plain" for x in (a, b)):
            win = Period(P.mk("utc", None, a), P.mk("utc", None, b))
        else:
            x, y = P.mk("utc", None, a), P.mk("utc", None, b)
            x.adjustTimezone(P.tzinfo("zone", zone))
            y.adjustTimezone(P.tzinfo("zone", zone))
            win = Period(x, y)
        what = "%s window [%s,%s)" % (label, a, b)
        on = span is not None and not (span[1] <= a or span[0] >= b)
        l, got = [], []
        vfb.expandPeriodComp(win, l)
        ctx.eq([x is vfb for x in l], [True] if on else [], "one-listed", what)
        ctx.count("listed" if on else "unlisted")
        vfb.expandPeriodFB(win, got)
        exp = sorted(x for x in items if on and not (x[1] <= a or x[0] >= b))
        ctx.count("fb-items", len(exp))
        ctx.count("fb-outside", len(items) - len(exp))
        if compare(ctx, shown(got), exp, "one-items", what):
            starts = [utc(x.getPeriod().getStart()) for x in got]
            ctx.check(starts == sorted(starts), "one-order", lambda: "%s: %s" % (what, starts))
        for x in got:
            x.setType(FreeBusy.FREE)
            x.getPeriod().getStart().offsetDay(-1)
        # the accessors
        bt = vfb.getBusyTime()
        ctx.eq(shown(bt or []), sorted(items), "busy-time", what)
        if span is not None:
            sp = vfb.getSpanPeriod()
            ctx.eq((utc(sp.getStart()), utc(sp.getEnd())), span, "span", what)
        ctx.count("requeried")

    for _n in range(rng.randint(1, 3)):
        look()
    before = vfb.getText()
    if rng.random() < 0.5:
        # a copy is of its own
        dup = cal.duplicate()
        other = dup.getComponents("VFREEBUSY")[0]
        other.removeProperties("FREEBUSY")
        other.finalise()
        look()
        vfb = cal.duplicate().getComponents("VFREEBUSY")[0]
        look()
    if rng.random() < 0.5:
        # a further period
        s = anchor + D.timedelta(days=rng.randint(-12, 12), hours=rng.randint(0, 20))
        vfb.addProperty(Property("FREEBUSY", [Period(P.mk("utc", None, s), P.mk("utc", None, s + D.timedelta(hours=1)))]))
        vfb.finalise()
        items = items + [(s, s + D.timedelta(hours=1), FreeBusy.BUSY)]
        have = dict((l.split(":")[0], 1) for l in lines)
        if span is None:
            span = items[-1][:2]
        else:
            lo, hi = min(x[0] for x in items), max(x[1] for x in items)
            span = (span[0] if "DTSTART" in have else lo, span[1] if "DTEND" in have or "DURATION" in have else hi)
        label += " and then a period at %s" % s
        look()
    else:
        ctx.eq(vfb.getText(), before, "component-changed", label)
    ctx.seen(src, len(items) > 0, label)
