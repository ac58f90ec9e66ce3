# -*- coding: utf-8 -*-
"""C04: jCal."""
import refical as R
import icalgen as G
import refjson as J
import json
from cStringIO import StringIO
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from props_c01 import walk_api, stat

RULE = ("random calendars as reference models (as in C01) read from text and from jCal made by a reference writer, written as jCal and as text; the jCal is read by a reference reader of RFC 7265 (types, extended dates, offsets, "
        "period and status arrays, recurrence objects, multi-valued parameters and properties); distinct by model")
REQUIRE = {"models": 250, "types": 15, "components": 15, "props": 4000, "from_json": 250}
PLAN = [("calendars", 380, 20000), ("properties", 2000, 100000), ("rules", 1600, 80000)]
ASSUMPTIONS = ["BOOLEAN and TIME values are not interpreted by the library, so either JSON form is taken"]


def calendars(ctx, rng, i):
    model = G.calendar(rng)
    stat(ctx, model)
    text = R.write(rng, model)
    cal = Calendar.parseText(text)
    j = cal.getText(includeTimezones=Calendar.NO_TIMEZONES, format=Calendar.sFormatJSON) if rng.random() < 0.5 else cal.getTextJSON(Calendar.NO_TIMEZONES)
    try:
        got = J.canon(j)
    except (ValueError, KeyError, IndexError, AttributeError) as e:
        ctx.viol("jcal-malformed", "%s in\n%s" % (e, j))
        got = None
    if got is not None and got != model:
        ctx.viol("jcal-differs", "%s\n%s\n%s" % (R.diff(model, got), text, j))
    # and back
    cal2 = Calendar.parseData(j, format=Calendar.sFormatJSON)
    t2 = R.canon(str(cal2))
    if t2 != [model]:
        ctx.viol("jcal-round-trip-text", "%s\n%s" % (R.diff(model, t2[0]), j))
    # jCal from elsewhere
    ref = J.write(rng, model)
    cal3 = Calendar.parseData(StringIO(ref) if rng.random() < 0.3 else ref, format="application/calendar+json")
    walk_api(ctx, cal3, model, ref)
    t3 = R.canon(str(cal3))
    if t3 != [model]:
        ctx.viol("jcal-read-differs", "%s\n%s" % (R.diff(model, t3[0]), ref))
    j3 = J.canon(cal3.getTextJSON(Calendar.NO_TIMEZONES))
    if j3 != model:
        ctx.viol("jcal-jcal-differs", "%s\n%s" % (R.diff(model, j3), ref))
    ctx.count("from_json")
    ctx.count("models")
    ctx.seen(model, True, j)


def rules(ctx, rng, i):
    """recurrence rules only: the value with the most shapes"""
    properties(ctx, rng, i, rng.choice(["RRULE", "RRULE", "EXRULE"]))


def properties(ctx, rng, i, name=None):
    name = name or rng.choice(sorted(R.DEFAULT) + ["X-FOO", "X-BAR", "IANA-THING"] * 4)
    p = G.prop(rng, name, ps=0.5)
    q = Property.parseText(R.w_prop(rng, p))
    out = []
    q.writeJSON(out)
    js = json.loads(json.dumps(out))
    ctx.count("props")
    ctx.mark("types", p[2])
    if ctx.check(len(js) == 1, "one-property", repr(js)):
        try:
            got = J.r_prop(js[0])
        except (ValueError, KeyError, IndexError, AttributeError) as e:
            ctx.viol("jcal-malformed", "%s in %s" % (e, js))
            return
        ctx.eq(got, p, "jcal-property-" + p[2], json.dumps(js))
        q2 = Property.parseJSON(js[0])
        ctx.eq(G.api_value(q2), p[3], "jcal-value-" + p[2], json.dumps(js))
        ctx.eq(R.canon_prop(R.lines_of(q2.getText())[0]), p, "jcal-text-" + p[2], json.dumps(js))
    ctx.seen(p, True, repr(js))
