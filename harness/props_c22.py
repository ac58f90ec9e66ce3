# -*- coding: utf-8 -*-
"""C22: what is written carries exactly the timezones it needs and was asked for."""
import datetime as D
import json
import os
import shutil
import icalgen as G
import refical as R
import refjson as J
import refxml as X
import reftz
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase as DB
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property

RULE = ("histories over one timezone database (files for some names, others learnt from calendars read as text or JSON): random calendars of every component kind, using timezones in single, multiple and period values at every depth, "
        "with or without some timezones of their own; they are written again and again as text, JSON, XML and through the file interfaces asking for all, the non-standard or no timezones, edited, copied and stripped in between, and "
        "everything written is compared with a model; what carries all timezones is read back by an empty database and every instant compared; distinct by names used, known and present and the question")
REQUIRE = {"written": 1200, "added": 250, "all": 300, "nonstd": 300, "none": 300, "left-out": 70, "unknown": 60, "deep": 50, "multi": 10, "periods": 30, "stripped": 40, "unstripped": 60, "edits": 200, "own": 150, "json-read": 80, "instants": 400, "formats": 7}
PLAN = [("histories", 240, 6000)]
ASSUMPTIONS = ["which timezones are added when nothing is asked for is not judged (the documentation and the code disagree), nor a TZID parameter on a value that is no date-time",
               "a timezone already in the calendar is kept as it is, even if the database means something else by that name"]

NAMES = ["America/New_York", "Europe/London", "Test/Own", "/example.com/Strange Zone", "Two Words", "caf\xc3\xa9/Zone"]
WIDE = NAMES + ["Never/Known"]


def setup(ctx):
    G.ZONES = WIDE


def zone(rng, n):
    k = rng.random()
    return reftz.fixed(n, 900 * rng.randint(-40, 40)) if k < 0.3 else reftz.eastern(n) if k < 0.5 else reftz.sydney(n) if k < 0.6 else reftz.make_zone(rng, n)


def model_of(z):
    return R.canon(z.text())[0]


def when(rng, vtype=None, name=None):
    """a property anywhere that uses a timezone"""
    d = G.datetime(rng, "")
    vtype = vtype or rng.choice(["DATE-TIME", "DATE-TIME", "PERIOD"])
    v = d if vtype == "DATE-TIME" else (d, rng.choice([3600, (d[0] + 1,) + d[1:]]))
    n = rng.choice(["X-WHEN", "X-WHEN", name or "X-WHEN"])
    if n != "X-WHEN":
        v = (v,) + ((G.datetime(rng, ""),) if vtype == "DATE-TIME" and rng.random() < 0.5 else ())
    return (n, (("TZID", (rng.choice(WIDE),)),), vtype, v)


def sprinkle(rng, c, p):
    if c[0] == "VTIMEZONE":
        return c
    ps = list(c[1]) + [when(rng, name="RDATE" if c[0] in ("VEVENT", "VTODO", "VJOURNAL") else None) for _ in range(2) if rng.random() < p]
    return R.comp(c[0], ps, [sprinkle(rng, k, p) for k in c[2]])


def uses(c, depth=0):
    """[(tzid, depth, property)]"""
    res = []
    if c[0] != "VTIMEZONE":
        for p in c[1]:
            if p[2] in ("DATE-TIME", "PERIOD"):
                for k, v in p[1]:
                    if k == "TZID":
                        res.append((v[0], depth, p))
        for k in c[2]:
            res += uses(k, depth + 1)
    return res


def present(c):
    return [[p[3] for p in k[1] if p[0] == "TZID"][0] for k in c[2] if k[0] == "VTIMEZONE"]


def histories(ctx, rng, i):
    root = os.path.join(ctx.work, "c22-%d" % ctx.shard)
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    old = DB.sTimezoneDatabase
    try:
        run(ctx, rng, os.path.realpath(root))
    finally:
        DB.sTimezoneDatabase = old
        shutil.rmtree(root)


def run(ctx, rng, root):
    known = {}
    for n in rng.sample(NAMES, rng.randint(0, 4)):
        if n[0] != "/":
            p = os.path.join(root, n + ".ics")
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            known[n] = (zone(rng, n), True)
            with open(p, "wb") as f:
                f.write(reftz.calendar_text([known[n][0]]))
    DB.createTimezoneDatabase(root)
    log = []
    for n in NAMES:
        if n not in known and rng.random() < 0.4:
            known[n] = (zone(rng, n), False)
            cal = Calendar.parseText(reftz.calendar_text([known[n][0]]))
            if rng.random() < 0.5:
                cal.getTimezone(n).removeAllComponent()
    for _ in range(rng.choice([1, 2, 3])):
        one(ctx, rng, known, log)


def one(ctx, rng, known, log):
    m = sprinkle(rng, G.calendar(rng, rng.choice([1, 1, 1, 2])), rng.choice([0, 0.1, 0.3, 0.5]))
    kids = [k for k in m[2] if k[0] != "VTIMEZONE"]
    own = {}
    for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2])):
        own[n] = known[n][0] if n in known and rng.random() < 0.5 else zone(rng, n)
        kids.append(model_of(own[n]))
        ctx.count("own")
    m = R.comp(m[0], m[1], kids)
    standard = sorted(n for n in known if known[n][1])
    # reading makes its timezones known
    if rng.random() < 0.35:
        src = J.write(rng, m)
        cal = Calendar.parseData(src, format=Calendar.sFormatJSON) if rng.random() < 0.5 else Calendar.parseJSONData(src)
        how = "JSON"
        ctx.count("json-read")
    else:
        src = R.write(rng, m)
        cal = Calendar.parseText(src)
        how = "text"
    for n in own:
        if n not in known:
            known[n] = (own[n], False)
    del log[:]
    log.append("standard %r, others known %r, read from %s" % (standard, sorted(set(known) - set(standard)), how))
    zones = dict(own)
    where = lambda: "after %s; the calendar read: %s" % ("; ".join(log), src[:3000])
    for _ in range(rng.choice([3, 6, 10, 14])):
        op = rng.choice(["write"] * 5 + ["edit", "edit", "strip", "copy"])
        try:
            if op == "edit":
                m = edit(ctx, rng, cal, m)
                log.append("edit")
            elif op == "copy":
                was, cal = cal, cal.duplicate()
                spoilt(was)
                log.append("copy")
            elif op == "strip":
                gone = [n for n in present(m) if n in standard]
                log.append("strip")
                a = cal.stripStandardTimezones()
                ctx.check(bool(a) == bool(gone), "strip-says", lambda: "stripStandardTimezones() is %r, expected %r %s" % (a, bool(gone), where()))
                ctx.count("stripped" if gone else "unstripped")
                m = R.comp(m[0], m[1], [k for k in m[2] if k[0] != "VTIMEZONE" or present(R.comp("", [], [k]))[0] not in gone])
                for n in gone:
                    zones.pop(n)
                got = R.canon(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
                ctx.check(got == [m], "strip", lambda: "stripped: %s %s" % (R.diff(m, got[0]), where()))
            else:
                m = write(ctx, rng, cal, m, known, standard, zones, log, where)
        except Exception as e:
            ctx.viol("fails-" + e.__class__.__name__, "%s raised %r %s" % (op, e, where()))
            return
    spoilt(cal)


def spoilt(cal):
    """nobody needs this calendar any more, so what happens to it is nobody's business"""
    for tz in cal.getComponents("VTIMEZONE"):
        tz.removeAllComponent()
    cal.removeAllComponent()


def edit(ctx, rng, cal, m):
    """add or remove uses of timezones through the objects"""
    ctx.count("edits")
    comps = [(c, k) for c in cal.getComponents() for k in m[2] if c.getType().upper() == k[0] != "VTIMEZONE" and c.getText() and R.canon(c.getText()) == [k]]
    if not comps:
        return m
    c, k = rng.choice(comps)
    if rng.random() < 0.6:
        p = when(rng, "DATE-TIME")
        d = p[3]
        c.addProperty(Property(p[0], DateTime(d[0], d[1], d[2], d[3], d[4], d[5], tzid=Timezone(utc=False, tzid=p[1][0][1][0]))))
        ps = list(k[1]) + [p]
    else:
        n = rng.choice(["X-WHEN", "EXDATE", "RDATE"])
        c.removeProperties(n)
        ps = [p for p in k[1] if p[0] != n]
    kids = list(m[2])
    kids[kids.index(k)] = R.comp(k[0], ps, k[2])
    return R.comp(m[0], m[1], kids)


def write(ctx, rng, cal, m, known, standard, zones, log, where):
    mode = rng.choice(["all", "nonstd", "none"])
    arg = {"all": Calendar.ALL_TIMEZONES, "nonstd": Calendar.NONSTD_TIMEZONES, "none": Calendar.NO_TIMEZONES}[mode]
    fmt = rng.choice(["text", "text2", "generate", "json", "json2", "xml", "str"])
    if fmt == "str":
        mode = "none"
    log.append("%s of %s" % (fmt, mode))
    used = uses(m)
    here = present(m)
    add = []
    for n in sorted(set(u[0] for u in used)):
        if n in here or mode == "none":
            continue
        if n not in known:
            ctx.count("unknown")
        elif mode == "nonstd" and n in standard:
            ctx.count("left-out")
        else:
            add.append(n)
            at = [u for u in used if u[0] == n]
            ctx.count("deep", int(min(u[1] for u in at) > 1))
            ctx.count("multi", int(all(u[2][0] in R.MULTI for u in at)))
            ctx.count("periods", int(all(u[2][2] == "PERIOD" for u in at)))
    want = R.comp(m[0], m[1], list(m[2]) + [model_of(known[n][0]) for n in add])
    for n in add:
        zones[n] = known[n][0]
    ctx.seen((mode, fmt, tuple(sorted(set(u[0] for u in used))), tuple(sorted(known)), tuple(standard), tuple(sorted(here))), bool(used), "; ".join(log))
    ctx.count("written")
    ctx.count(mode)
    ctx.count("added", len(add))
    ctx.mark("formats", fmt)
    if fmt in ("text", "text2", "str", "generate"):
        if fmt == "generate":
            from cStringIO import StringIO
            s = StringIO()
            cal.generate(s, includeTimezones=arg)
            out = s.getvalue()
        else:
            out = str(cal) if fmt == "str" else cal.getText(includeTimezones=arg) if fmt == "text" else cal.getText(includeTimezones=arg, format=Calendar.sFormatText)
        got = R.canon(out)
    elif fmt in ("json", "json2"):
        out = cal.getTextJSON(includeTimezones=arg) if fmt == "json" else cal.getText(includeTimezones=arg, format=Calendar.sFormatJSON)
        got = [J.canon(out)]
    else:
        out = cal.getTextXML(includeTimezones=arg)
        got = X.canon(out)
    have = sorted(present(got[0]))
    if ctx.check(have == sorted(present(want)), "timezones-" + mode, lambda: "the timezones written are %r, expected %r (used: %r) %s" % (have, sorted(present(want)), sorted(set(u[0] for u in used)), where())):
        ctx.check(got == [want], "content", lambda: "written: %s %s" % (R.diff(want, got[0]), where()))
    if mode == "all" and fmt != "xml":
        alone(ctx, out, fmt, want, zones, where)
    return want


def alone(ctx, out, fmt, want, zones, where):
    """what was written means the same to a reader who knows no timezones"""
    db = DB.sTimezoneDatabase
    try:
        DB.createTimezoneDatabase(None)
        cal = Calendar.parseData(out, format=Calendar.sFormatJSON if fmt[:4] == "json" else None)
        dates = []

        def walk(c):
            if c.getType().upper() == "VTIMEZONE":
                return
            for ps in c.getProperties().values():
                for p in ps:
                    v = p.getValue()
                    for x in v.getValues() if v.__class__.__name__ == "MultiValue" else [v]:
                        if x.__class__.__name__ == "DateTimeValue":
                            dates.append(x.getValue())
                        elif x.__class__.__name__ == "PeriodValue":
                            dates.append(x.getValue().getStart())
                            dates.append(x.getValue().getEnd())
            for k in c.getComponents():
                walk(k)
        walk(cal)
        for d in dates:
            n = d.getTimezoneID()
            if d.isDateOnly() or not isinstance(n, str) or n not in zones:
                continue
            t = D.datetime(d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())
            if not 1980 <= t.year <= 2100:
                continue
            k = zones[n].classify(t)
            if k[0] != "plain":
                continue
            ctx.count("instants")
            w = (t - D.datetime(1970, 1, 1)).total_seconds() - k[1]
            a = d.getPosixTime()
            ctx.check(a == w, "instant", lambda: "%s in %s means %r to a new reader, expected %r %s" % (t, n, a, w, where()))
    finally:
        DB.sTimezoneDatabase = db
