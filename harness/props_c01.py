# -*- coding: utf-8 -*-
"""C01: iCalendar text round trip."""
import json
import refical as R
import icalgen as G
import refjson as J
import built as B
from vskip import Skip
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property

RULE = ("random calendars built as reference models (all component kinds, all registered properties and value types, VALUE overrides, X-/IANA names, RFC 6868 parameters, nested unknown components), spelled in one of many "
        "allowed ways (case, order, quoting, folding incl. inside characters, CRLF/LF), parsed and written by the library and read back by the reference reader; distinct by model")
REQUIRE = {"models": 300, "types": 15, "components": 15, "props": 5000, "reparsed": 300, "api": 4000, "zones": 200, "built": 900, "built types": 12}
PLAN = [("calendars", 420, 20000), ("properties", 2500, 100000), ("rules", 1600, 80000), ("built", 1500, 60000)]
ASSUMPTIONS = ["the reference writer emits only what RFC 5545/6868 allow; order of properties, of components, of parameters and of parameter values is not compared"]


def stat(ctx, c):
    ctx.mark("components", c[0])
    for p in c[1]:
        ctx.mark("types", p[2])
        ctx.count("props")
    for k in c[2]:
        stat(ctx, k)


def walk_api(ctx, comp, model, text):
    """what the accessors say about each property agrees with the model"""
    want = {}
    for p in model[1]:
        want.setdefault(p[0], []).append(p)
    got = comp.getProperties()
    ctx.check(set(k for k in got) == set(want), "api-names", "%s vs %s in\n%s" % (sorted(got), sorted(want), text))
    for name in want:
        if name not in got:
            continue
        a = sorted(repr(p[3]) for p in want[name])
        b = sorted(repr(G.api_value(p)) for p in got[name])
        ctx.count("api", len(a))
        ctx.check(a == b, "api-value-" + want[name][0][2], "%s: expected %s, accessors gave %s\n%s" % (name, a, b, text))
        for x in got[name]:
            of_zone(ctx, x, text)
        pa = sorted(p[1] for p in want[name])
        pb = sorted(tuple(sorted((k, tuple(sorted(x for a in v for x in a.getValues()))) for k, v in p.getParameters().items() if k != "VALUE")) for p in got[name])
        ctx.check(pa == pb, "api-params", "%s: expected %s, accessors gave %s\n%s" % (name, pa, pb, text))


def of_zone(ctx, q, line):
    """every date-time of a property is in the time zone the property names"""
    for t in G.zones(q.getValue()):
        ctx.count("zones", int(t is not None))
        ctx.eq(t, q.getParameterValue("TZID") if q.hasParameter("TZID") else None, "value-zone", "time zone of a value of %s" % line)


def calendars(ctx, rng, i):
    model = G.calendar(rng)
    text = R.write(rng, model, mixed=True)
    assert R.canon(text) == [model], R.diff(model, R.canon(text)[0])
    stat(ctx, model)
    cal = Calendar.parseText(text)
    walk_api(ctx, cal, model, text)
    for c in model[2]:
        uid = [p for p in c[1] if p[0] in ("UID", "TZID")]
        if not uid or c[0].startswith("X-"):
            continue
        rid = [p[3] for p in c[1] if p[0] == "RECURRENCE-ID"]
        found = [x for x in cal.getComponents(c[0]) if [y.getValue().getValue() for y in x.getProperties(uid[0][0])] == [uid[0][3]] and [G.api_value(y) for y in x.getProperties("RECURRENCE-ID")] == rid]
        if len(found) == 1:
            walk_api(ctx, found[0], c, text)
    out = str(cal)
    got = R.canon(out)
    if ctx.check(len(got) == 1, "one-calendar", "wrote %d calendars" % len(got)):
        ctx.check(got[0] == model, "calendar-changed", lazy(lambda: "%s\ninput:\n%s\noutput:\n%s" % (R.diff(model, got[0]), text, out), got[0] == model))
    ctx.count("models")
    # reading what was written gives an equal calendar that is written the same
    cal2 = Calendar.parseText(out)
    ctx.check(cal2 == cal, "reparsed-not-equal", out)
    ctx.check(sorted(R.lines_of(str(cal2))) == sorted(R.lines_of(out)), "second-output-differs", "%s\n---\n%s" % (out, str(cal2)))
    ctx.count("reparsed")
    # one component alone
    k = rng.choice(cal.getComponents())
    kt = str(k)
    ks = R.canon(kt)
    ctx.check(len(ks) == 1 and ks[0] in model[2], "component-alone-changed", "%s\n%s" % (kt, text))
    ctx.seen(model, True, text)


def lazy(f, ok):
    return "" if ok else f()


def rules(ctx, rng, i):
    """recurrence rules only: the value with the most shapes"""
    properties(ctx, rng, i, rng.choice(["RRULE", "RRULE", "EXRULE"]))


def properties(ctx, rng, i, name=None):
    name = name or rng.choice(sorted(R.DEFAULT) + ["X-FOO", "X-BAR", "IANA-THING"] * 4)
    if name == "VERSION":
        raise Skip()
    p = G.prop(rng, name, ps=0.5)
    line = R.w_prop(rng, p)
    assert R.canon_prop(line) == p, (R.canon_prop(line), p)
    q = Property.parseText(line)
    ctx.count("props")
    ctx.mark("types", p[2])
    ctx.count("api")
    ctx.eq(G.api_value(q), p[3], "property-value-" + p[2], line)
    of_zone(ctx, q, line)
    out = q.getText()
    got = R.lines_of(out)
    if ctx.check(len(got) == 1, "property-one-line", "%r -> %r" % (line, out)):
        ctx.eq(R.canon_prop(got[0]), p, "property-changed-" + p[2], line)
    q2 = Property.parseText(got[0])
    ctx.check(q2 == q and hash(q2) == hash(q), "property-reparsed-not-equal", "%r -> %r" % (line, out))
    ctx.check(q2.getText() == out, "property-second-output", "%r -> %r" % (out, q2.getText()))
    ctx.seen(p, True, line)


def built(ctx, rng, i):
    """a property made with the constructors says and writes what it was given"""
    name = rng.choice(sorted(R.DEFAULT) + ["X-FOO", "IANA-THING"] * 5 + ["RDATE", "EXDATE", "FREEBUSY", "ATTACH", "TRIGGER"] * 2)
    if name == "VERSION":
        raise Skip()
    p = G.prop(rng, name, ps=0.5)
    q = B.make(rng, p)
    out = q.getText()
    ctx.count("built")
    ctx.mark("built types", (p[2], p[0] in R.MULTI))
    ctx.eq(G.api_value(q), p[3], "built-value-" + p[2], "made of %r" % (p,))
    of_zone(ctx, q, out)
    got = R.lines_of(out)
    if ctx.check(len(got) == 1, "built-one-line", "%r -> %r" % (p, out)):
        ctx.eq(R.canon_prop(got[0]), p, "built-" + p[2], "made of %r" % (p,))
        q2 = Property.parseText(got[0])
        ctx.check(q2 == q and hash(q2) == hash(q), "built-reparsed-not-equal", "%r -> %r" % (p, out))
    js = []
    q.writeJSON(js)
    js = json.loads(json.dumps(js))
    ctx.eq([J.r_prop(j) for j in js], [p], "built-jcal-" + p[2], "made of %r" % (p,))
    d = q.duplicate()
    ctx.check(d == q and d.getText() == out, "built-duplicate", "%r -> %r" % (out, d.getText()))
    ctx.seen(("built", p), True, out)
