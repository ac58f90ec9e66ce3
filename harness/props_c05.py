# -*- coding: utf-8 -*-
"""C05: xCal."""
import refical as R
import icalgen as G
import refxml as X
import xml.etree.cElementTree as XML
from vskip import Skip
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar import xmldefinitions
from pycalendar import xmlutils
from props_c01 import stat

RULE = ("random calendars as reference models (as in C01) read from text and written as XML, and single properties of every type; the XML is parsed by an XML parser and read by a reference reader of RFC 6321 "
        "(namespace, element order, types, extended dates and offsets, period, recurrence, geo and status structures, parameters); distinct by model")
REQUIRE = {"models": 250, "types": 15, "components": 15, "props": 4000}
PLAN = [("calendars", 330, 20000), ("properties", 2000, 100000), ("rules", 1600, 80000)]
ASSUMPTIONS = ["no control characters other than tab and line feed (XML 1.0 cannot hold them)", "UNTIL is taken with or without a type element; a parameter value of any type element"]


def plain(m):
    return all(ord(c) >= 32 or c in "\n\t" for c in strings(m))


def strings(x):
    if isinstance(x, tuple) or isinstance(x, list):
        return "".join(strings(y) for y in x)
    return x if isinstance(x, str) else ""


def xtype(m):
    """names of types that XML cannot state: unregistered VALUE types are 'unknown'"""
    name, params, vtype, val = m
    return (name, params, vtype if vtype in X.TYPES.values() or vtype in ("GEO", "REQUEST-STATUS") else "UNKNOWN", val)


def xcomp(c):
    return R.comp(c[0], [xtype(p) for p in c[1]], [xcomp(k) for k in c[2]])


def calendars(ctx, rng, i):
    model = G.calendar(rng)
    if not plain(model):
        raise Skip()
    stat(ctx, model)
    text = R.write(rng, model)
    cal = Calendar.parseText(text)
    before = str(cal) if rng.random() < 0.3 else None
    x = cal.getTextXML(Calendar.NO_TIMEZONES)
    ctx.check(x.startswith('<?xml version="1.0" encoding="utf-8"?>'), "xml-header", x[:60])
    try:
        got = X.canon(x)
    except (ValueError, KeyError, IndexError, AttributeError, SyntaxError) as e:
        ctx.viol("xcal-malformed", "%s: %s in\n%s" % (e.__class__.__name__, e, x))
        return
    want = xcomp(model)
    if ctx.check(len(got) == 1, "xcal-one-calendar", x) and got[0] != want:
        ctx.viol("xcal-differs", "%s\n%s\n%s" % (R.diff(want, got[0]), text, x))
    ctx.check(X.canon(xmlutils.toString(cal.writeXML(Calendar.NO_TIMEZONES))) == got, "xcal-second-differs", x)
    ctx.check(X.canon(XML.tostring(cal.writeXML(Calendar.NO_TIMEZONES), "utf-8")) == got, "xcal-node-differs", x)
    # writing XML changes nothing
    t = R.canon(str(cal))
    if t != [model]:
        ctx.viol("xcal-changes-calendar", "%s\n%s" % (R.diff(model, t[0]), x))
    if before is not None:
        ctx.check(str(cal) == before, "xcal-changes-text", "%s\n%s" % (before, str(cal)))
    ctx.count("models")
    ctx.seen(model, True, x)


def rules(ctx, rng, i):
    """recurrence rules only: the value with the most shapes"""
    properties(ctx, rng, i, rng.choice(["RRULE", "RRULE", "EXRULE"]))


def properties(ctx, rng, i, name=None):
    name = name or rng.choice(sorted(R.DEFAULT) + ["X-FOO", "X-BAR", "IANA-THING"] * 4)
    p = G.prop(rng, name, ps=0.5)
    if not plain(p):
        raise Skip()
    q = Property.parseText(R.w_prop(rng, p))
    if rng.random() < 0.5:
        q = q.duplicate()
    root = XML.Element("root")
    q.writeXML(root, xmldefinitions.iCalendar20_namespace)
    x = XML.tostring(root, "utf-8")
    ctx.count("props")
    ctx.mark("types", p[2])
    try:
        e = X.fromstring(x)
        assert len(e) == 1
        got = X.r_prop(e[0])
    except (ValueError, KeyError, IndexError, AttributeError, SyntaxError) as e:
        ctx.viol("xcal-malformed", "%s: %s in\n%s" % (e.__class__.__name__, e, x))
        return
    ctx.eq(got, xtype(p), "xcal-property-" + p[2], x)
    ctx.seen(p, True, x)
