# -*- coding: utf-8 -*-
"""C33: leaving out an instance, or all from one on."""
import datetime as D
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from refcal import *
import refical as T
import refrrule as R
import props_c13 as P
from vskip import Skip

RULE = ("random events (all-day, floating, UTC, zoned) with up to two RFC 5545 rules of every frequency, dates and periods added and dates excluded; one to three times an instance is excluded or all from a moment on, by the date-time "
        "itself or the same moment in UTC, with and without expansions cached before. The instances must be the reference's without exactly those, in the event edited, in the one read back from its text and in a duplicate edited "
        "alike; the rest of the text stays, rules that remain keep their parts other than COUNT and UNTIL and UNTIL has the kind RFC 5545 wants. Distinct by frequencies, kind of start, bounds and operations")
REQUIRE = {"instances": 3000, "single": 250, "future": 250, "freqs": 7, "rules_gone": 30, "count_cut": 40, "until_cut": 40, "until_added": 60, "dates_gone": 40, "periods": 40, "utc_form": 20, "none": 10}
PLAN = [("edits", 900, 24000)]
ASSUMPTIONS = ["the start is always an instance (RFC 5545 counts it), so everything from a moment on is only left out for moments after it", "rules as in C13; zoned instances that touch a change of offset are not generated",
               "overridden instances are components of their own and stay"]

setup = P.setup
NAME = {"date": "DATE", "floating": "DATE-TIME", "utc": "DATE-TIME", "zone": "DATE-TIME"}


def prop(name, kind, zone, t):
    if kind == "date":
        return "%s;VALUE=DATE:%s" % (name, txt(t, False, True))
    if kind == "zone":
        return "%s;TZID=%s:%s" % (name, zone.tzid, txt(t))
    return "%s:%s" % (name, txt(t, kind == "utc"))


def canon(kind, t):
    return (t.year, t.month, t.day) if kind == "date" else (t.year, t.month, t.day, t.hour, t.minute, t.second, "Z" if kind == "utc" else "")


def shown(ev, per):
    items = []
    rs = ev.getRecurrenceSet()
    if rs is None:
        st = ev.getStart()
        return [P.to_ref(st)] if per.isDateWithinPeriod(st) else []
    rs.expand(ev.getStart(), per, items)
    return [P.to_ref(x) for x in items]


def edits(ctx, rng, i):
    kind, zone, r, s = P.gen_case(rng)
    span = P.SPAN[r["freq"]] * 0.5
    rules = [r]
    if rng.random() < 0.25:
        r2 = R.gen_rule(rng, [r["freq"]], kind == "date")
        if zone is not None:
            for k in ("byhour",):
                if r2.get(k):
                    r2[k] = R.some(rng, range(9, 21), 1, 3)
        if not r2.get("byweekno"):
            rules.append(r2)
    if rng.random() < 0.1:
        rules = []
    end = s + D.timedelta(days=span * rng.choice([0.4, 1, 1]))
    end = end.replace(microsecond=0)
    if kind == "date":
        end = end.replace(hour=0, minute=0, second=0)
    lines = []
    base = set([s])
    per_rule = []
    for x in rules:
        ut = P.bound(rng, kind, zone, x, s, span)
        occ = R.expand(x, s, end)
        per_rule.append((x, ut, occ))
        base.update(occ)
        lines.append("RRULE:" + R.to_text(x, ut, rng))
    dates = set()
    for _ in range(rng.choice([0, 0, 1, 3]) if rules else 2):
        t = s + D.timedelta(days=int(span * rng.random()) + 1, minutes=0 if kind == "date" else rng.choice([0, 30, -60]))
        if t < end:
            dates.add(t)
    periods = set()
    if kind != "date" and rng.random() < 0.2:
        t = s + D.timedelta(days=int(span * rng.random()) + 1, minutes=15)
        if t < end:
            periods.add(t)
            ctx.count("periods")
    for n, t in enumerate(sorted(dates)):
        lines.append(prop("RDATE", kind, zone, t))
    for t in periods:
        lines.append("RDATE%s;VALUE=PERIOD:%s/PT90M" % (";TZID=" + zone.tzid if zone else "", txt(t, kind == "utc")))
    base |= dates | periods
    gone = set(R.some(rng, sorted(base - set([s])), 0, 2)) if len(base) > 1 and rng.random() < 0.4 else set()
    for t in gone:
        lines.append(prop("EXDATE", kind, zone, t))
    want = base - gone
    if zone is not None and any(zone.classify(t)[0] != "plain" for t in base | set([end])):
        raise Skip()
    rng.shuffle(lines)
    text = P.component(kind, zone, s, lines + ["SUMMARY:kept", "X-A;X-B=c:d"])
    cal = Calendar.parseText(text)
    ev = cal.getComponents("VEVENT")[0]
    per = Period(P.mk(kind, zone, s - D.timedelta(1)), P.mk(kind, zone, end))
    if rng.random() < 0.5:
        shown(ev, per if rng.random() < 0.5 else Period(P.mk(kind, zone, s), P.mk(kind, zone, s + (end - s) // 2 if kind != "date" else s + D.timedelta(2))))
    before = T.canon(ev.getText())[0]
    label = [" + ".join(lines), txt(s, kind == "utc", kind == "date") + ("@" + zone.tzid if zone else "")]
    props = list(before[1])
    cut = None
    shape = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not ev.isRecurring():
            ctx.count("none")
            break
        live = sorted(want)
        single = rng.random() < 0.5 and len(live) > 0
        if single:
            t = rng.choice(live)
            k, z, u = kind, zone, t
            if kind == "zone" and rng.random() < 0.3:
                k, z, u = "utc", None, t - D.timedelta(seconds=zone.classify(t)[1])
                ctx.count("utc_form")
            arg = P.mk(k, z, u)
            ev.excludeRecurrence(arg)
            want.discard(t)
            props.append(("EXDATE", (("TZID", (z.tzid,)),) if z else (), NAME[k], (canon(k, u),)))
            ctx.count("single")
            what = "without %s" % txt(t)
        else:
            pool = [t for t in live if t > s]
            t = rng.choice(pool) if pool and rng.random() < 0.8 else s + D.timedelta(days=span * rng.random() * 0.7, seconds=1)
            t = t.replace(microsecond=0)
            if kind == "date":
                t = t.replace(hour=0, minute=0, second=0)
            if t <= s or zone is not None and zone.classify(t)[0] != "plain":
                continue
            arg = P.mk(kind, zone, t)
            ev.excludeFutureRecurrence(arg)
            cut = t if cut is None else min(t, cut)
            want = set(x for x in want if x < t)
            ctx.count("future")
            what = "until before %s" % txt(t)
        shape.append(single)
        label.append(what)
        # the caller goes on with its date-time
        arg.setYear(1980)
        where = "; ".join(label)
        key = "single" if single else "future"
        now = T.canon(ev.getText())[0]
        if cut is not None:
            left = []
            for x, ut, occ in per_rule:
                o = [y for y in occ if y < cut]
                left.append((x, o))
            gr = [p[3] for p in now[1] if p[0] == "RRULE"]
            rest = [dict(d) for d in gr]
            wantr = []
            for x, ut, occ in per_rule:
                d = dict(T.c_recur(R.to_text(x, ut)))
                d.pop("UNTIL", None)
                d.pop("COUNT", None)
                wantr.append(repr(sorted(d.items())))
            for d in rest:
                u = d.pop("UNTIL", None)
                d.pop("COUNT", None)
                ctx.check(repr(sorted(d.items())) in wantr, "rule-kept", lambda: "%s: rule %r" % (where, d))
                if u is not None:
                    ctx.check((len(u) == 3) == (kind == "date") if kind != "floating" else True, "until-kind", lambda: "%s: UNTIL %r" % (where, u))
                    ctx.check(len(u) == 3 or (u[6] == "Z") == (kind in ("utc", "zone")), "until-kind", lambda: "%s: UNTIL %r" % (where, u))
            for x, ut, occ in per_rule:
                if not [y for y in occ[1:] if y < cut]:
                    ctx.count("rules_gone")
                elif x.get("count"):
                    ctx.count("count_cut")
                else:
                    ctx.count("until_cut" if ut else "until_added")
            if [t for t in dates if t >= cut]:
                ctx.count("dates_gone")
            ctx.eq(sorted(p for p in now[1] if p[0] not in ("RRULE", "RDATE")), sorted(p for p in props if p[0] not in ("RRULE", "RDATE")), "rest", where + ": the other properties")
            rd = sorted(v[0] if isinstance(v[0], tuple) else v for p in now[1] if p[0] == "RDATE" for v in p[3])
            ctx.eq(rd, sorted(canon(kind, t) for t in dates | periods if t < cut), "rdates", where + ": RDATE")
        else:
            ctx.eq(sorted(now[1]), sorted(props), "rest", where + ": the properties")
        again = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES)).getComponents("VEVENT")[0]
        for form, e in (("edited", ev), ("re-read", again), ("duplicate", cal.duplicate().getComponents("VEVENT")[0])):
            got = shown(e, per)
            w = sorted(want)
            ctx.count("instances", len(w))
            if got != w:
                ctx.viol(key, "%s (%s): missing %s, extra %s" % (where, form, [str(x) for x in w if x not in got][:3], [str(x) for x in got if x not in w][:3]))
    ctx.mark("freqs", r["freq"])
    ctx.seen((tuple(x["freq"] for x in rules), kind, tuple(bool(x.get("count")) for x in rules), tuple(bool(u) for _x, u, _o in per_rule), tuple(shape), tuple(sorted(k for k in r if k.startswith("by")))), bool(shape), "; ".join(label))
