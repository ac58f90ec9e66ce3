# -*- coding: utf-8 -*-
"""C16 a calendar's instances in a window: masters, overrides, RANGE, moved and excluded instances, in display order."""
import datetime as D
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from refcal import *
import refrrule as R
import props_c13 as P
from vskip import Skip

RULE = ("random calendars of 1-4 single and recurring events (all-day, floating, UTC, zoned; DTEND, DURATION or neither; EXDATE) with 0-4 overridden instances that move, stretch or stay, some "
        "with RANGE=THISANDFUTURE; every (event, start, end, owner) of a window and its order are compared with a reference expansion; distinct by calendar text and window")
REQUIRE = {"instances": 1500, "overrides": 200, "overrides_shown": 100, "moved_into_window": 10, "moved_out_of_window": 10, "range_future": 40, "range_instances": 40, "durations": 100, "allday": 80, "singles": 60, "ordered": 150}
ASSUMPTIONS = ["recurring instances count as in the window when they start in it, single events and overrides when they overlap it, as the library defines",
               "instances whose RANGE override moves them across a window edge are left out of the comparison", "zoned instances that touch a change of offset are not generated"]
PLAN = [("calendars", 1440, 28000)]
FREQS = ["MONTHLY", "WEEKLY", "WEEKLY", "DAILY"]
SPAN = {"YEARLY": 366 * 4, "MONTHLY": 31 * 10, "WEEKLY": 7 * 12, "DAILY": 30}

setup = P.setup


def stamp(rng):
    return "DTSTAMP:2020%02d01T000000Z" % rng.randint(1, 12)


def prop(name, kind, zone, t, extra=""):
    if kind == "date":
        return "%s%s;VALUE=DATE:%s" % (name, extra, txt(t, False, True))
    if kind == "zone":
        return "%s%s;TZID=%s:%s" % (name, extra, zone.tzid, txt(t))
    return "%s%s:%s" % (name, extra, txt(t, kind == "utc"))


def dur_lines(rng, kind, zone, s, d, ctx):
    x = rng.random()
    if x < 0.5:
        return [prop("DTEND", kind, zone, s + d)]
    ctx.count("durations")
    if kind == "date":
        return ["DURATION:P%dD" % d.days]
    m = int(d.total_seconds() // 60)
    return ["DURATION:PT%dH%dM" % (m // 60, m % 60)]


def rdur(rng, kind):
    return D.timedelta(rng.randint(1, 4)) if kind == "date" else D.timedelta(minutes=rng.choice([15, 30, 60, 90, 240, rng.randint(1, 400)]))


def gen_event(ctx, rng, uid, clock, anchor):
    """-> lines of the components, (singles/overrides), (recurring instances) as reference data"""
    kind, zone = clock
    if rng.random() < 0.25:
        kind, zone = "date", None
        ctx.count("allday")
    s = anchor + D.timedelta(days=rng.randint(-30, 30), minutes=15 * rng.randint(0, 40))
    if kind == "date":
        s = s.replace(hour=0, minute=0)
    d = rdur(rng, kind)
    none = rng.random() < 0.15
    dl = [] if none else dur_lines(rng, kind, zone, s, d, ctx)
    if none:
        d = D.timedelta(1) if kind == "date" else D.timedelta(0)
    st = stamp(rng)
    body = ["BEGIN:VEVENT", "UID:" + uid, st, prop("DTSTART", kind, zone, s)] + dl + ["SUMMARY:%s master" % uid]
    if rng.random() < 0.3:
        ctx.count("singles")
        return [body + ["END:VEVENT"]], [("single", kind, zone, uid, "%s master" % uid, s, s + d, st)], None
    r = R.gen_rule(rng, FREQS, kind == "date")
    for k in ("byminute", "bysecond", "byhour"):
        r.pop(k, None)
    if not any(k.startswith("by") and k != "bysetpos" for k in r):
        r.pop("bysetpos", None)
    r["interval"] = min(r["interval"], 3)
    span = SPAN[r["freq"]]
    m = R.first_match(r, s)
    if m is not None and rng.random() < 0.85 and m < s + D.timedelta(60):
        s = m
        body = ["BEGIN:VEVENT", "UID:" + uid, st, prop("DTSTART", kind, zone, s)] + ([] if none else dur_lines(rng, kind, zone, s, d, ctx)) + ["SUMMARY:%s master" % uid]
    ut = P.bound(rng, kind, zone, r, s, span)
    occ = R.expand(r, s, anchor + D.timedelta(days=170))
    body.append("RRULE:" + R.to_text(r, ut, rng))
    ex = set()
    if rng.random() < 0.3:
        ex = set(R.some(rng, occ, 1, 3))
        for t in sorted(ex):
            body.append(prop("EXDATE", kind, zone, t))
    comps = [body + ["END:VEVENT"]]
    fixed = []
    overrides = []
    rids = R.some(rng, [t for t in occ if t not in ex], 0, 4) if rng.random() < 0.7 else []
    for n, t in enumerate(sorted(set(rids))):
        sh = rng.choice([D.timedelta(0), D.timedelta(1), D.timedelta(-1), D.timedelta(20), D.timedelta(-25)])
        if kind != "date":
            sh += D.timedelta(minutes=rng.choice([0, 0, 30, -60, 90]))
        od = rdur(rng, kind) if rng.random() < 0.7 else d
        rng_future = rng.random() < 0.25
        if rng_future:
            sh = D.timedelta(0) if kind == "date" else D.timedelta(minutes=rng.choice([0, 30, -60, 45]))
            ctx.count("range_future")
        os_ = t + sh
        sm = "%s override %d" % (uid, n)
        ost = stamp(rng)
        rk, rz, rt = kind, zone, t
        if kind == "zone" and rng.random() < 0.3 and zone.classify(t)[0] == "plain":
            rk, rz, rt = "utc", None, t - D.timedelta(seconds=zone.classify(t)[1])
        zero = od == D.timedelta(0)
        comps.append(["BEGIN:VEVENT", "UID:" + uid, prop("RECURRENCE-ID", rk, rz, rt, ";RANGE=THISANDFUTURE" if rng_future else ""), ost, prop("DTSTART", kind, zone, os_)] +
                     ([] if zero else dur_lines(rng, kind, zone, os_, od, ctx)) + ["SUMMARY:" + sm, "END:VEVENT"])
        fixed.append(("override", kind, zone, uid, sm, os_, os_ + od, ost))
        overrides.append((t, sh, od, sm, ost, rng_future))
        ctx.count("overrides")
    return comps, fixed, (kind, zone, uid, s, d, occ, ex, overrides, st)


def expected(ctx, clock, a, b, fixed, recs):
    """the instances of the events of gen_event in [a, b): -> window, a, b, whether dates are involved, instances, those left undecided"""
    # window in the clock of the timed events
    zone = clock[1]
    if zone is not None and (zone.classify(a)[0] != "plain" or zone.classify(b)[0] != "plain"):
        raise Skip()
    hasdate = any(f[1] == "date" for f in fixed) or any(r[0] == "date" for r in recs)
    if hasdate:
        # dates and date-times compare by day only: put the window on day boundaries
        a = a.replace(hour=0)
        b = b.replace(hour=0)
    win = Period(P.mk(clock[0], zone, a), P.mk(clock[0], zone, b))
    if zone is not None:
        for _w, k, z, u, sm, s, e, st in fixed:
            if k != "date" and z is not None and (zone.classify(s)[0] != "plain" or zone.classify(e)[0] != "plain" or zone.classify(s)[1] != zone.classify(e)[1]):
                raise Skip()
        for (k, z, u, s, d, occ, ex, ov, st) in recs:
            if z is not None:
                off = set()
                for t in occ:
                    if a - D.timedelta(40) <= t <= b + D.timedelta(40):
                        for x in [t, t + d] + [t + o[1] for o in ov] + [t + o[1] + o[2] for o in ov]:
                            if zone.classify(x)[0] != "plain":
                                raise Skip()
                        ends = set(zone.classify(x)[1] for x in [t, t + d] + [t + o[1] for o in ov if o[5]] + [t + o[1] + o[2] for o in ov if o[5]])
                        if len(ends) > 1:
                            raise Skip()
                for o in ov:
                    # the shift of a RANGE override is measured where the override is
                    if o[5] and len(set(zone.classify(x)[1] for x in [o[0], o[0] + o[1], o[0] + o[1] + o[2]])) > 1:
                        raise Skip()
    want, maybe = [], []
    for what, k, z, u, sm, s, e, st in fixed:
        if not (e <= a or s >= b):
            want.append((u, sm, s, e, k, st))
            if what == "override":
                ctx.count("overrides_shown")
    for (k, z, u, s, d, occ, ex, ov, st) in recs:
        done = set(o[0] for o in ov)
        fut = sorted(o for o in ov if o[5])
        for t in occ:
            if not (a <= t < b):
                continue
            if t in ex:
                continue
            if t in done:
                o = [o for o in ov if o[0] == t][0]
                if t + o[1] >= b or t + o[1] + o[2] <= a:
                    ctx.count("moved_out_of_window")
                continue
            sl = [o for o in fut if o[0] < t]
            if sl:
                o = sl[-1]
                ent = (u, o[3], t + o[1], t + o[1] + o[2], k, o[4])
                ctx.count("range_instances")
                if not (a <= t + o[1] < b):
                    maybe.append(ent)
                    continue
            else:
                ent = (u, "%s master" % u, t, t + d, k, st)
            want.append(ent)
        for o in ov:
            if not (a <= o[0] < b) and a <= o[0] + o[1] < b:
                ctx.count("moved_into_window")
    return win, a, b, hasdate, want, maybe


def calendars(ctx, rng, i):
    clock = rng.choice([("utc", None), ("floating", None), ("zone", P.ZONES[0]), ("zone", P.ZONES[1])])
    anchor = D.datetime(rng.randint(1995, 2045), rng.randint(1, 12), rng.randint(1, 28), 9, 0, 0)
    comps, fixed, recs = [], [], []
    for n in range(rng.randint(1, 4)):
        c, f, r = gen_event(ctx, rng, "u%d" % n, clock, anchor)
        comps += c
        fixed += f
        if r:
            recs.append(r)
    rng.shuffle(comps)
    a = anchor + D.timedelta(days=rng.randint(-40, 40))
    a = a.replace(hour=rng.choice([0, 0, 9, 12]))
    b = a + D.timedelta(days=rng.choice([1, 7, 31, 60]))
    win, a, b, hasdate, want, maybe = expected(ctx, clock, a, b, fixed, recs)
    head = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\n"
    src = head + "".join("".join(l + "\r\n" for l in c) for c in comps) + "END:VCALENDAR\r\n"
    cal = Calendar.parseText(src)
    got = []
    top = True if hasdate else rng.random() < 0.5
    cal.getVEvents(win, got, all_day_at_top=top)
    g = []
    for x in got:
        st, en = x.getInstanceStart(), x.getInstanceEnd()
        g.append((x.getOwner().getUID(), x.getOwner().getSummary(), P.to_ref(st), P.to_ref(en), "date" if st.isDateOnly() else "utc" if st.utc() else "zone" if st.local() else "floating", x.getOwner().getProperties("DTSTAMP")[0].getText().strip() if False else None))
    key = lambda l: sorted((u, sm, s, e, k) for (u, sm, s, e, k, _x) in l)
    label = "%s window [%s,%s)" % (src.replace("\r\n", "|")[60:], a, b)
    kg, kw = key(g), key(want)
    extra = [x for x in kg if x not in kw and x not in key(maybe)]
    miss = [x for x in kw if x not in kg]
    dup = [x for x in kg if kg.count(x) > kw.count(x) and x in kw]
    fmt = lambda l: ["%s %s..%s %s" % (x[1], x[2], x[3], x[4]) for x in l[:4]]
    if extra or miss or dup:
        ctx.viol("instances-%s%s%s" % ("missing-" if miss else "", "extra-" if extra else "", "repeated" if dup else ""), "%s: missing %s extra %s repeated %s" % (label, fmt(miss), fmt(extra), fmt(dup)))
    else:
        # display order
        stamps = dict((w[1], w[5]) for w in want + maybe)
        order = []
        for (u, sm, s, e, k, _x) in g:
            if top:
                order.append((0 if k == "date" else 1, s, D.timedelta(0) if k == "date" else D.datetime.max - e, "" if k == "date" else stamps[sm]))
            else:
                order.append((s,))
        ctx.check(order == sorted(order), "display-order", "%s: order is %s" % (label, [(x[1], str(x[2]), str(x[3])) for x in g]))
        ctx.count("ordered", 1 if len(order) > 2 else 0)
    # asking component by component gives the same instances
    one = []
    for ev in cal.getComponents("VEVENT"):
        if rng.random() < 0.5:
            ev.expandPeriod(win, one)
    for x in one:
        ent = (x.getOwner().getUID(), x.getOwner().getSummary(), P.to_ref(x.getInstanceStart()), P.to_ref(x.getInstanceEnd()))
        if not any(ent == k[:4] for k in kg):
            ctx.viol("component-expansion-differs", "%s: %s" % (label, ent))
            break
    ctx.count("instances", len(want))
    ctx.seen(src + str(a), len(want) > 0, label[-400:])
