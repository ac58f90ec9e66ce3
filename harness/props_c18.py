# -*- coding: utf-8 -*-
"""C18: validation names exactly the violated constraints, changes nothing unless asked, and repairs exactly what it says."""
import collections
import os
import re
import shutil
import icalgen as G
import refical as R
import reftz
import vcardgen as V
from pycalendar.exceptions import ValidationError
from pycalendar.timezonedb import TimezoneDatabase as DB
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card

RULE = ("random calendars and vCards of every component kind, read from text and then from what they write, with any number of defects: required properties left out, single ones doubled, values out of range or not in UTC, "
        "pairs that exclude or need one another, alarms of every action, several STATUS, UNTIL of the other kind, timezones without observances; validated with and without repair and again after, and compared with constraint tables written "
        "from RFC 5545, RFC 2426, RFC 7953 and the poll draft; distinct by kinds of problem present")
REQUIRE = {"clean": 100, "broken": 450, "problems": 1300, "fixable": 280, "fixed": 280, "raised": 200, "not-raised": 100, "untils": 120, "statuses": 60, "nested": 300, "kinds": 60, "cards": 150, "card-problems": 60}
PLAN = [("calendars", 900, 12000), ("cards", 240, 3000)]
ASSUMPTIONS = ["the wording of a problem is not judged, only the component and the properties it names", "an UNTIL given to a floating or all-day event is not judged beyond its kind and date",
               "in the pass that repairs, a problem that the repair itself removes may or may not be listed as unrepaired"]

ONE = {"VCALENDAR": "PRODID VERSION", "VEVENT": "DTSTAMP UID", "VTODO": "DTSTAMP UID", "VJOURNAL": "DTSTAMP UID", "VFREEBUSY": "DTSTAMP UID", "VAVAILABILITY": "DTSTAMP UID", "AVAILABLE": "DTSTAMP DTSTART UID",
       "VTIMEZONE": "TZID", "STANDARD": "DTSTART TZOFFSETTO TZOFFSETFROM", "DAYLIGHT": "DTSTART TZOFFSETTO TZOFFSETFROM", "VPOLL": "DTSTAMP UID ORGANIZER", "VVOTER": "VOTER", "VCARD": "VERSION N"}
MOST = {"VCALENDAR": "CALSCALE METHOD",
        "VEVENT": "DTSTART CLASS CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION ORGANIZER PRIORITY SEQUENCE SUMMARY TRANSP URL RECURRENCE-ID RRULE DTEND DURATION",
        "VTODO": "CLASS COMPLETED CREATED DESCRIPTION DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PERCENT-COMPLETE PRIORITY RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DUE DURATION",
        "VJOURNAL": "CLASS CREATED DTSTART LAST-MODIFIED ORGANIZER RECURRENCE-ID SEQUENCE SUMMARY URL RRULE",
        "VFREEBUSY": "CONTACT DTSTART DTEND ORGANIZER URL",
        "VAVAILABILITY": "BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL RECURRENCE-ID DTEND DURATION",
        "AVAILABLE": "CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SEQUENCE SUMMARY DTEND DURATION",
        "VTIMEZONE": "LAST-MODIFIED TZURL", "STANDARD": "RRULE", "DAYLIGHT": "RRULE",
        "VPOLL": "ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL",
        "VVOTER": "CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL", "VOTE": "POLL-ITEM-ID RESPONSE", "VCARD": "BDAY PRODID REV UID"}
SOME = {"VCARD": "FN"}
ALARM_ONE = {"URI": "ACTION TRIGGER URL", "NONE": "ACTION", None: "ACTION TRIGGER"}
ALARM_EMPTY = {"DISPLAY": "DESCRIPTION", "EMAIL": "DESCRIPTION SUMMARY"}
ALARM_MOST = {"AUDIO": "DURATION REPEAT ATTACH ACKNOWLEDGED", "NONE": "", None: "DURATION REPEAT ACKNOWLEDGED"}
ALARM_SOME = {"EMAIL": "ATTENDEE"}
RECUR = ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE")
ACTIONS = ("AUDIO", "DISPLAY", "EMAIL", "PROCEDURE", "URI", "NONE")
OFFSETS = {}


def bare(n):
    return n.rpartition(".")[2]


def value_ok(p):
    n, v, t = bare(p[0]), p[3], p[2]
    if n in ("COMPLETED", "CREATED", "DTSTAMP", "LAST-MODIFIED", "ACKNOWLEDGED"):
        return t == "DATE-TIME" and v[6] == "Z"
    if n == "PERCENT-COMPLETE":
        return t == "INTEGER" and 0 <= v <= 100
    if n == "PRIORITY":
        return t == "INTEGER" and 0 <= v <= 9
    if n in ("SEQUENCE", "REPEAT"):
        return t == "INTEGER" and v >= 0
    if n in ("CALSCALE",):
        return v.upper() == "GREGORIAN"
    return True


def judge(c, method, vcard=False):
    """(problems that can be repaired, problems that cannot, the component after repair)"""
    t = c[0]
    fix, bad = [], []
    ps = list(c[1])

    def have(n):
        return [p for p in ps if bare(p[0]) == n]
    one, most, some, empty = ONE.get(t, ""), MOST.get(t, ""), SOME.get(t, ""), ""
    if t == "VALARM":
        a = [p[3] for p in have("ACTION")]
        a = a[0].upper() if a and a[0].upper() in ACTIONS else None
        one, empty, most, some = ALARM_ONE.get(a, ALARM_ONE[None]), ALARM_EMPTY.get(a, ""), ALARM_MOST.get(a, ALARM_MOST[None]), ALARM_SOME.get(a, "")
    for n in one.split():
        if len(have(n)) != 1:
            bad.append((t, (n,)))
    for n in empty.split():
        if len(have(n)) > 1:
            bad.append((t, (n,)))
        elif not have(n):
            fix.append((t, (n,)))
            ps.append((n, (), "TEXT", ""))
    for n in most.split():
        if len(have(n)) > 1:
            bad.append((t, (n,)))
    for n in some.split():
        if not have(n):
            bad.append((t, (n,)))
    if t in RECUR and len(have("STATUS")) > 1:
        if any(p[3].upper() == "CANCELLED" for p in have("STATUS")):
            fix.append((t, ("STATUS",)))
            ps = [p for p in ps if p[0] != "STATUS"] + [("STATUS", (), "TEXT", "CANCELLED")]
        else:
            bad.append((t, ("STATUS",)))
    for p in c[1]:
        if not value_ok(p) and not (vcard and bare(p[0]) not in ("VERSION", "PROFILE")):
            bad.append((t, (bare(p[0]),)))
    if t in RECUR and have("DTSTART"):
        s = have("DTSTART")[0]
        for p in have("RRULE"):
            d = dict(p[3])
            u = d.get("UNTIL")
            if u is not None and (len(u) == 3) != (s[2] == "DATE"):
                fix.append((t, ("DTSTART", "UNTIL")))
                if s[2] == "DATE":
                    d["UNTIL"] = u[:3]
                else:
                    d["UNTIL"] = u[:3] + utc_time(s) + ("Z",)
                ps[ps.index(p)] = (p[0], p[1], p[2], tuple(sorted(d.items())))
    if t == "VEVENT" and method is False and not have("DTSTART"):
        bad.append((t, ("DTSTART",)))
    if t in ("VEVENT", "VAVAILABILITY", "AVAILABLE") and have("DTEND") and have("DURATION"):
        fix.append((t, ("DTEND", "DURATION")))
        ps = [p for p in ps if p[0] != "DTEND"]
    if t == "VTODO":
        if have("DURATION") and not have("DTSTART"):
            bad.append((t, ("DTSTART", "DURATION")))
        if have("DUE") and have("DURATION"):
            fix.append((t, ("DUE", "DURATION")))
            ps = [p for p in ps if p[0] != "DURATION"]
    if t == "VALARM" and bool(have("DURATION")) != bool(have("REPEAT")):
        bad.append((t, ("DURATION", "REPEAT")))
    if t == "VTIMEZONE" and not c[2]:
        bad.append((t, ("STANDARD", "DAYLIGHT")))
    kids = []
    m = bool([p for p in c[1] if p[0] == "METHOD"])
    for k in c[2]:
        f, b, k2 = judge(k, m)
        fix += f
        bad += b
        kids.append(k2)
    return fix, bad, R.comp(t, ps, kids)


def utc_time(p):
    """hour, minute and second of the start in UTC"""
    v = p[3]
    z = dict(p[1]).get("TZID")
    s = v[3] * 3600 + v[4] * 60 + v[5]
    if z and not v[6]:
        s -= OFFSETS.get(z[0], 0)
    s %= 86400
    return (s // 3600, s // 60 % 60, s % 60)


def named(ctx, problem):
    m = re.match(r"\[([^\]]*)\] [^:]*: (.*)$", problem)
    if not m:
        return ("?", problem)
    names = [x.strip() for x in re.split(r", | or | with ", m.group(2))]
    return (m.group(1).upper(), tuple(names))


def multi(x):
    return collections.Counter((t, tuple(sorted(n))) for t, n in x)


def reported(ctx, l):
    return multi(named(ctx, p) for p in l)


def run(ctx, rng, obj, m, vcard, text, again=True):
    fix, bad, after = judge(m, None, vcard)
    # a group is no part of the names in problems
    all_, fixable = multi(fix + bad), multi(fix)
    where = lambda: "of %s" % text[:3500]
    ctx.seen(tuple(sorted(all_.items())), bool(all_), "%r in %s" % (sorted(all_.items()), text[:300]))
    ctx.count("broken" if all_ else "clean")
    ctx.count("problems", len(fix) + len(bad))
    ctx.count("fixable", len(fix))
    for k in all_:
        ctx.mark("kinds", k)
    before = R.canon(str(obj), vcard)
    if before != [m]:
        ctx.count("other-reading")
        return
    try:
        a, b = obj.validate() if rng.random() < 0.5 else obj.validate(doFix=False)
    except Exception as e:
        ctx.viol("fails-" + e.__class__.__name__, "validate() raised %r %s" % (e, where()))
        return
    ctx.check(not a, "repairs-unasked", lambda: "validate() without repair says it repaired %r %s" % (a, where()))
    r = reported(ctx, b)
    ctx.check(r == all_, "missed" if all_ - r else "invented", lambda: "problems reported: %r; missing %r; not there: %r %s" % (b, dict(all_ - r), dict(r - all_), where()))
    now = R.canon(str(obj), vcard)
    ctx.check(now == before, "changed", lambda: "validate() without repair changed it: %s %s" % (R.diff(m, now[0]), where()))
    try:
        obj.validate(doRaise=True)
        ok = True
    except ValidationError as e:
        ok = False
    ctx.count("not-raised" if ok else "raised")
    ctx.check(ok == (not all_), "raise", lambda: "validate(doRaise=True) %s with problems %r %s" % ("did not raise" if ok else "raised", dict(all_), where()))
    # repair
    left = multi(judge(after, None, vcard)[1])
    try:
        a, b = obj.validate(doFix=True)
    except Exception as e:
        ctx.viol("fails-" + e.__class__.__name__, "validate(doFix=True) raised %r %s" % (e, where()))
        return
    ra, rb = reported(ctx, a), reported(ctx, b)
    ctx.count("fixed", len(a))
    ctx.check(ra == fixable, "repaired", lambda: "repaired %r, expected %r %s" % (a, dict(fixable), where()))
    ctx.check(not left - rb and not rb - multi(bad), "unrepaired", lambda: "left unrepaired %r, expected at least %r and at most %r %s" % (b, dict(left), dict(multi(bad)), where()))
    now = R.canon(str(obj), vcard)
    ctx.check(now == [after], "repair", lambda: "after repair: %s %s" % (R.diff(after, now[0]), where()))
    for o, what in ((obj, "the repaired object"), (None, "what the repaired object writes")):
        if o is None:
            try:
                o = (Card if vcard else Calendar).parseText(str(obj))
            except Exception as e:
                ctx.viol("unreadable", "what was repaired cannot be read: %r %s" % (e, where()))
                return
        a, b = o.validate(doFix=True)
        ctx.check(not a and reported(ctx, b) == left, "again", lambda: "validating %s: repaired %r and left %r, expected to leave %r %s" % (what, a, b, dict(left), where()))


# ---------------------------------------------------------------- defects

BADPROPS = [("PERCENT-COMPLETE", "INTEGER", [-1, 101, 100, 0, 1000]), ("PRIORITY", "INTEGER", [-1, 10, 9, 0]), ("SEQUENCE", "INTEGER", [-1, 0, -2147483647]), ("REPEAT", "INTEGER", [-1, 0, 3]),
            ("CREATED", "DATE-TIME", [(2020, 1, 1, 0, 0, 0, ""), (2020, 1, 1, 0, 0, 0, "Z")]), ("LAST-MODIFIED", "DATE-TIME", [(2020, 1, 1, 0, 0, 0, "")]), ("DTSTAMP", "DATE-TIME", [(2020, 1, 1, 0, 0, 0, "")]),
            ("COMPLETED", "DATE-TIME", [(2020, 1, 1, 0, 0, 0, ""), (2020, 1, 1, 0, 0, 0, "Z")]), ("ACKNOWLEDGED", "DATE-TIME", [(2020, 1, 1, 0, 0, 0, "")]), ("DURATION", "DURATION", [3600]), ("TRIGGER", "DURATION", [-600]),
            ("URL", "URI", ["http://example.com/x"]), ("SUMMARY", "TEXT", ["extra"]), ("DESCRIPTION", "TEXT", ["extra", ""]), ("STATUS", "TEXT", ["CANCELLED", "cancelled", "CONFIRMED", "TENTATIVE"]), ("ATTENDEE", "CAL-ADDRESS", ["mailto:x@example.com"]),
            ("METHOD", "TEXT", ["REQUEST"]), ("CREATED", "DATE", [(2020, 1, 1)]), ("DTEND", "DATE-TIME", [(2200, 1, 1, 0, 0, 0, "Z")]), ("DUE", "DATE-TIME", [(2200, 1, 1, 0, 0, 0, "Z")]), ("ORGANIZER", "CAL-ADDRESS", ["mailto:o@example.com"]),
            ("ATTACH", "URI", ["http://example.com/a"]), ("TZURL", "URI", ["http://example.com/z"]), ("CLASS", "TEXT", ["PUBLIC"]), ("CONTACT", "TEXT", ["c"])]


def spoil(rng, c, p, ctx, depth=0, parent=None):
    ps = list(c[1])
    kids = [spoil(rng, k, p, ctx, depth + 1, c[0]) for k in c[2]]
    while rng.random() < p:
        if depth:
            ctx.count("nested", int(depth > 1))
        k = rng.randrange(6)
        if k == 0 and ps:
            q = rng.choice(ps)
            # without these it cannot be read at all
            if q[0] not in ("VERSION", "RECURRENCE-ID", "POLL-ITEM-ID", "VOTER"):
                ps.remove(q)
        elif k == 1 and ps:
            q = rng.choice(ps)
            if q[0] not in ("VERSION", "RECURRENCE-ID", "DTSTART", "TZID", "ACTION", "UID") or rng.random() < 0.3:
                ps.append(q)
        elif k == 2:
            n, t, vals = rng.choice(BADPROPS)
            ps.append((n, (), t, rng.choice(vals)))
        elif k == 3 and c[0] in ("VEVENT", "AVAILABLE", "VAVAILABILITY"):
            have = [x[0] for x in ps]
            if "DTEND" not in have:
                ps.append(("DTEND", (), "DATE-TIME", (2200, 1, 1, 0, 0, 0, "Z")))
            if "DURATION" not in have:
                ps.append(("DURATION", (), "DURATION", 3600))
        elif k == 3 and c[0] == "VTODO":
            have = [x[0] for x in ps]
            if "DUE" not in have:
                ps.append(("DUE", (), "DATE-TIME", (2200, 1, 1, 0, 0, 0, "Z")))
            if "DURATION" not in have:
                ps.append(("DURATION", (), "DURATION", 3600))
        elif k == 4 and c[0] in RECUR:
            u = G.date(rng) if rng.random() < 0.5 else G.datetime(rng, "Z")
            ps.append(("RRULE", (), "RECUR", (("FREQ", "DAILY"), ("UNTIL", u))))
        elif k == 4 and c[0] == "VTIMEZONE" and rng.random() < 0.3:
            kids = []
        elif k == 5 and c[0] in RECUR:
            ps += [("STATUS", (), "TEXT", rng.choice(["CANCELLED", "CONFIRMED", "Cancelled", "DRAFT"])) for _ in range(rng.choice([1, 2, 3]))]
        elif k == 5 and c[0] == "VALARM":
            ps = [x for x in ps if x[0] != "ACTION"]
            if rng.random() < 0.9:
                ps.append(("ACTION", (), "TEXT", rng.choice(list(ACTIONS) + ["X-MORE"])))
    if c[0] in RECUR:
        ctx.count("untils", sum(1 for x in ps if x[0] == "RRULE" and "UNTIL" in dict(x[3])))
        ctx.count("statuses", int(sum(1 for x in ps if x[0] == "STATUS") > 1))
        starts = [x for x in ps if x[0] == "DTSTART"]
        if len(starts) > 1:
            # which of different starts counts is open
            ps = [x for x in ps if x[0] != "DTSTART"] + starts[:1] * len(starts)
    if c[0] == "VALARM":
        # without an action, or with an unknown one, only what holds for every alarm is judged
        acts = [x for x in ps if x[0] == "ACTION"]
        ps = [x for x in ps if x[0] != "ACTION"] + acts[:1] * len(acts)
        if not acts:
            ps = [x for x in ps if x[0] != "DESCRIPTION"] + [("DESCRIPTION", (), "TEXT", "any")]
    if parent == "VPOLL" and c[0] == "VEVENT" and not [x for x in ps if x[0] == "DTSTART"]:
        ps.append(("DTSTART", (), "DATE-TIME", (2020, 1, 1, 0, 0, 0, "Z")))
    return R.comp(c[0], ps, kids)


def zones_text():
    zones = [reftz.fixed("America/New_York", -18000), reftz.fixed("Europe/London", 3600)]
    return reftz.calendar_text(zones).replace("DTSTART:19000101", "DTSTART:16010101")


def setup(ctx):
    root = os.path.join(ctx.work, "c18-%d" % ctx.shard)
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    OFFSETS.update({"America/New_York": -18000, "Europe/London": 3600})
    G.ZONES = ["America/New_York", "Europe/London", "Test/Unknown", "Test/Second", "Test/Third"]
    DB.createTimezoneDatabase(None)
    Calendar.parseText(zones_text())


def calendars(ctx, rng, i):
    m = G.calendar(rng, rng.choice([1, 1, 2]))
    kids = [k for k in m[2] if k[0] != "VTIMEZONE"] + ([G.timezone(rng, "Test/Other%d" % rng.randrange(10 ** 9))] if rng.random() < 0.3 else [])
    m = spoil(rng, R.comp(m[0], m[1], kids), rng.choice([0, 0.2, 0.4, 0.6]), ctx)
    text = R.write(rng, m)
    try:
        cal = Calendar.parseText(text)
    except Exception as e:
        ctx.viol("unreadable-input", "%r reading %s" % (e, text[:2000]))
        return
    run(ctx, rng, cal, m, False, text)


def cards(ctx, rng, i):
    m = V.card(rng)
    ps = list(m[1])
    while rng.random() < 0.6:
        k = rng.randrange(3)
        q = rng.choice(ps)
        if k == 0 and bare(q[0]) != "VERSION":
            ps.remove(q)
        elif k == 1 and bare(q[0]) != "VERSION":
            ps.append(q)
        elif k == 2:
            n = rng.choice(["FN", "N", "BDAY", "PRODID", "REV", "UID", "UID"])
            ps.append(V.prop(rng, n) if n not in ("PRODID", "UID") else (n, (), "TEXT", "extra"))
    m = R.comp("VCARD", ps, [])
    ctx.count("cards")
    ctx.count("card-problems", int(bool(judge(m, None, True)[1])))
    text = R.write(rng, m, True)
    run(ctx, rng, Card.parseText(text), m, True, text)
