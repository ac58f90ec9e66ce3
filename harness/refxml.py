# -*- coding: utf-8 -*-
"""Reference reader of xCal (RFC 6321) for the models of refical."""
import refical as R
import refjson as J

from java.io import ByteArrayInputStream
from javax.xml.stream import XMLInputFactory
from java.lang import Exception as JException, String
import jarray

FACTORY = XMLInputFactory.newInstance()
FACTORY.setProperty(XMLInputFactory.IS_COALESCING, True)
FACTORY.setProperty(XMLInputFactory.SUPPORT_DTD, False)


class El(list):
    def __init__(self, tag, attrib):
        self.tag, self.attrib, self.text, self.tail = tag, attrib, u"", u""


def fromstring(s):
    """an element tree, read by the JDK's own streaming parser (there is no expat in Jython)"""
    r = FACTORY.createXMLStreamReader(ByteArrayInputStream(jarray.array([(ord(c) + 128) % 256 - 128 for c in s], "b")), "utf-8")
    root, stack, last = None, [], None
    try:
        while r.hasNext():
            k = r.next()
            if k == 1:
                e = El(u"{%s}%s" % (r.getNamespaceURI() or u"", r.getLocalName()), dict((r.getAttributeLocalName(n), r.getAttributeValue(n)) for n in range(r.getAttributeCount())))
                if stack:
                    stack[-1].append(e)
                else:
                    root = e
                stack.append(e)
                last = None
            elif k == 2:
                last = stack.pop()
            elif k in (4, 6, 12):
                if last is not None:
                    last.tail += r.getText()
                elif stack:
                    stack[-1].text += r.getText()
    except JException as e:
        raise ValueError("not XML: %s" % e.getMessage())
    return root


NS = "{urn:ietf:params:xml:ns:icalendar-2.0}"
TYPES = {"text": "TEXT", "date": "DATE", "date-time": "DATE-TIME", "duration": "DURATION", "period": "PERIOD", "recur": "RECUR", "utc-offset": "UTC-OFFSET", "integer": "INTEGER", "float": "FLOAT",
         "boolean": "BOOLEAN", "binary": "BINARY", "uri": "URI", "cal-address": "CAL-ADDRESS", "time": "TIME", "unknown": "UNKNOWN"}


def tag(e):
    if not e.tag.startswith(NS) or e.tag != e.tag.lower():
        raise ValueError("bad element %r" % e.tag)
    if e.attrib:
        raise ValueError("attributes on %r" % e.tag)
    return str(e.tag[len(NS):])


def text(e):
    if len(e):
        raise ValueError("children in %s" % e.tag)
    return (e.text or u"").encode("utf-8")


def blank(e):
    if (e.text or "").strip() or [k for k in e if (k.tail or "").strip()]:
        raise ValueError("stray text in %s" % e.tag)
    return list(e)


def r_value(e):
    t = tag(e)
    vtype = TYPES[t]
    if t == "period":
        d = dict((tag(k), text(k)) for k in blank(e))
        if len(e) != 2 or tag(e[0]) != "start":
            raise ValueError("bad period")
        return vtype, (J.r_value("DATE-TIME", d["start"]), J.r_value("DATE-TIME", d["end"]) if "end" in d else J.r_value("DURATION", d["duration"]))
    if t == "recur":
        d = {}
        for k in blank(e):
            n = tag(k)
            if n == "until":
                v = text(k[0]) if len(k) else text(k)
                if len(k) and tag(k[0]) != ("date-time" if "T" in v else "date"):
                    raise ValueError("until of type %s" % k[0].tag)
                v = v.decode("utf-8")
            else:
                v = text(k)
            if n.startswith("by"):
                d.setdefault(n, []).append(v)
            elif n in d:
                raise ValueError("two of %s" % n)
            else:
                d[n] = v
        return vtype, J.r_value(vtype, d)
    if vtype in ("INTEGER",):
        return vtype, int(text(e))
    if vtype == "FLOAT":
        return vtype, R.c_float(text(e))
    return vtype, J.r_value(vtype, text(e).decode("utf-8"))


def r_prop(e, unknown_type=None):
    name = tag(e).upper()
    kids = blank(e)
    params = {}
    if kids and tag(kids[0]) == "parameters":
        for p in blank(kids[0]):
            n = tag(p).upper()
            if n == "VALUE":
                raise ValueError("VALUE parameter")
            vals = [text(v) for v in blank(p)]
            for v in p:
                if tag(v) not in TYPES:
                    raise ValueError("parameter value of type %s" % v.tag)
            params[n] = tuple(sorted(params.get(n, ()) + tuple(vals)))
        kids = kids[1:]
    params = tuple(sorted(params.items()))
    if name == "GEO":
        if [tag(k) for k in kids] != ["latitude", "longitude"]:
            raise ValueError("bad geo")
        return (name, params, "GEO", tuple(R.c_float(text(k)) for k in kids))
    if name == "REQUEST-STATUS":
        if [tag(k) for k in kids] not in (["code", "description"], ["code", "description", "data"]):
            raise ValueError("bad request-status")
        return (name, params, name, tuple(text(k) for k in kids))
    vals = [r_value(k) for k in kids]
    types = set(v[0] for v in vals)
    if len(types) > 1:
        raise ValueError("mixed types")
    if not vals:
        raise ValueError("no value in %s" % name)
    vtype = types.pop()
    if name in R.MULTI:
        return (name, params, vtype, tuple(v[1] for v in vals))
    if len(vals) != 1:
        raise ValueError("several values in %s" % name)
    return (name, params, vtype, vals[0][1])


def r_comp(e):
    name = tag(e).upper()
    kids = blank(e)
    props, comps = [], []
    for i, k in enumerate(kids):
        if tag(k) == "properties" and i == 0:
            props = [r_prop(p) for p in blank(k)]
        elif tag(k) == "components" and i == len(kids) - 1:
            comps = [r_comp(c) for c in blank(k)]
        else:
            raise ValueError("unexpected %s in %s" % (k.tag, name))
    return R.comp(name, props, comps)


def canon(s):
    """the calendars of an xCal document"""
    root = fromstring(s)
    if tag(root) != "icalendar":
        raise ValueError("root %s" % root.tag)
    return [r_comp(c) for c in blank(root)]


def canon_el(e):
    return r_prop(e)
