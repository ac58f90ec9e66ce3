# -*- coding: utf-8 -*-
"""C30: filtered output is exactly the part of the full output that the filter names."""
import json
import icalgen as G
import refical as R
import refjson as J
import refxml as X
import vcardgen as V
from cStringIO import StringIO
from pycalendar import xmlutils
from pycalendar.icalendar import xmldefinitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.outputfilter import OutputFilter
from pycalendar.vcard.card import Card
import xml.etree.cElementTree as XML

RULE = ("random calendars and vCards of every kind of component and property, through random trees of filters: all, some or no properties, with or without their values, all, some or no sub-components, each with a filter of its own, naming "
        "present and absent ones; written filtered as text, JSON and XML, repeatedly and alternating with other filters and full output; compared with the same selection made on the model; distinct by filter tree, format and shape of the object")
REQUIRE = {"written": 1800, "props-some": 2000, "props-all": 800, "props-none": 800, "novalue": 900, "comps-some": 1200, "comps-all": 500, "comps-none": 500, "deep": 300, "dropped-props": 2000, "dropped-comps": 800, "cards": 150, "formats": 3, "identity": 100, "ordered": 500}
PLAN = [("calendars", 500, 9000), ("cards", 200, 4000)]
ASSUMPTIONS = ["filters name properties and components in upper case, and one filter object names either all or some of its properties, and of its sub-components",
               "a property without its value may keep or leave out its value type in JSON; empty containers may be left out of XML"]


def setup(ctx):
    pass


def some_filter(rng, c, ctx, depth=0, vcard=False):
    """(object, spec) - spec = (props: None | "all" | {name: no value}, comps: None | "all" | {type: spec})"""
    f = OutputFilter(c[0])
    names = sorted(set(bare(p[0]) for p in c[1]))
    k = rng.random()
    if k < 0.2:
        f.setAllProperties()
        props = "all"
    elif k < 0.35:
        props = None
    else:
        props = {}
        for n in rng.sample(names, rng.randint(0, len(names))) + rng.sample(["X-ABSENT", "SUMMARY", "UID", "DTSTART"], rng.randint(0, 2)):
            props[n] = rng.random() < 0.3
        todo = list(props.items())
        rng.shuffle(todo)
        for n, v in todo:
            f.addProperty(n, v)
        if not props:
            f.addProperty("X-ABSENT", False)
            props = {"X-ABSENT": False}
    ctx.count("props-" + (props if props == "all" else "some" if props else "none"))
    comps = None
    if not vcard:
        k = rng.random()
        if k < 0.2:
            f.setAllSubComponents()
            comps = "all"
        elif k < 0.3:
            pass
        else:
            comps = {}
            types = sorted(set(x[0] for x in c[2]))
            for t in types:
                if rng.random() < 0.7:
                    # one filter for all components of the type: draw it from one of them or from all together
                    like = [x for x in c[2] if x[0] == t]
                    both = (t, sum((x[1] for x in like), ()), sum((x[2] for x in like), ()))
                    sub, spec = some_filter(rng, both, ctx, depth + 1)
                    f.addSubComponent(sub)
                    comps[t] = spec
            if not comps or rng.random() < 0.2:
                t = rng.choice(["X-ABSENT", "VTODO", "VALARM"])
                if t not in comps:
                    sub, spec = some_filter(rng, (t, (), ()), ctx, depth + 1)
                    f.addSubComponent(sub)
                    comps[t] = spec
            if depth and c[2]:
                ctx.count("deep")
        ctx.count("comps-" + (comps if comps == "all" else "some" if comps else "none"))
    return f, (props, comps)


def bare(name):
    return name.split(".", 1)[1] if "." in name else name


def project(ctx, c, spec):
    """the selection made on the model; a property without its value has type and value None"""
    props, comps = spec
    if props == "all":
        ps = list(c[1])
    else:
        ps = [p if not (props or {})[bare(p[0])] else (p[0], p[1], None, None) for p in c[1] if bare(p[0]) in (props or {})]
        ctx.count("novalue", sum(1 for p in ps if p[2] is None))
        ctx.count("dropped-props", len(c[1]) - len(ps))
    if comps == "all":
        kids = list(c[2])
    else:
        kids = [project(ctx, k, comps[k[0]]) for k in c[2] if k[0] in (comps or {})]
        ctx.count("dropped-comps", len(c[2]) - len(kids))
    return R.comp(c[0], ps, kids)


def wants(spec, name):
    """whether the filter takes the value away"""
    return spec is not None and isinstance(spec[0], dict) and bool(spec[0].get(bare(name)))


def under(spec, typ):
    return spec[1].get(typ) if spec is not None and isinstance(spec[1], dict) else None


def c_text(text, spec, vcard):
    """the component tree of a filtered text"""
    stack = [["", [], [], None]]
    top = []
    for l in R.lines_of(text):
        u = l.upper()
        if u.startswith("BEGIN:"):
            stack.append([u[6:], [], [], spec if len(stack) == 1 else under(stack[-1][3], u[6:])])
        elif u.startswith("END:"):
            c = stack.pop()
            if c[0] != u[4:]:
                raise ValueError("END:%s closes %s" % (u[4:], c[0]))
            (stack[-1][2] if len(stack) > 1 else top).append(R.comp(*c[:3]))
        else:
            name, params, raw = R.split_line(l)
            if wants(stack[-1][3], name.upper()):
                if raw:
                    raise ValueError("a value where none was asked for: %r" % l)
                tab = {}
                for p, v in params:
                    if p.upper() != "VALUE":
                        tab.setdefault(p.upper(), []).extend(v)
                g, _, b = name.rpartition(".") if vcard else ("", "", name)
                stack[-1][1].append(((g.lower() + "." if g else "") + b.upper(), tuple(sorted((p, tuple(sorted(v))) for p, v in tab.items())), None, None))
            else:
                stack[-1][1].append(R.canon_prop(l, vcard))
    if len(stack) != 1 or len(top) != 1:
        raise ValueError("unbalanced")
    return top[0]


def c_json(j, spec, vcard):
    if not isinstance(j, list) or len(j) not in (2, 3) or len(j) == 2 and not vcard:
        raise ValueError("not a component %r" % (j,))
    name = J.b(j[0]).upper()
    ps = []
    for p in j[1]:
        if wants(spec, J.b(p[0]).upper()):
            if len(p) > 3:
                raise ValueError("a value where none was asked for: %r" % (p,))
            q = J.r_prop([p[0], p[1], u"text", u""] if J.b(p[0]).upper() not in ("CATEGORIES",) else [p[0], p[1], u"text", u"x"], vcard)
            ps.append((q[0], q[1], None, None))
        else:
            ps.append(J.r_prop(p, vcard))
    return R.comp(name, ps, [c_json(k, under(spec, J.b(k[0]).upper()), vcard) for k in (j[2] if len(j) > 2 else [])])


def c_xml(e, spec):
    name = X.tag(e).upper()
    ps, kids = [], []
    for k in X.blank(e):
        t = X.tag(k)
        if t == "properties":
            for p in X.blank(k):
                if wants(spec, X.tag(p).upper()):
                    vals = [x for x in p if X.tag(x) != "parameters"]
                    if vals:
                        raise ValueError("a value where none was asked for in %s" % p.tag)
                    v = X.El(X.NS.decode() + u"unknown", {})
                    q = X.El(X.NS.decode() + u"x-any", {})
                    q.extend([x for x in p if X.tag(x) == "parameters"] + [v])
                    ps.append((X.tag(p).upper(), X.r_prop(q)[1], None, None))
                else:
                    ps.append(X.r_prop(p))
        elif t == "components":
            kids = [c_xml(c, under(spec, X.tag(c).upper())) for c in X.blank(k)]
        else:
            raise ValueError("unexpected %s" % t)
    return R.comp(name, ps, kids)


def flat_json(c):
    res = ["<" + J.b(c[0])] + [json.dumps(p, sort_keys=True) for p in c[1]]
    for k in (c[2] if len(c) > 2 else []):
        res += flat_json(k)
    return res


def flat_xml(e):
    res = ["<" + X.tag(e)]
    for k in X.blank(e):
        for p in X.blank(k):
            res += [repr(X.r_prop(p))] if X.tag(k) == "properties" else flat_xml(p)
    return res


def subsequence(part, whole):
    at = 0
    for l in part:
        while at < len(whole) and whole[at] != l:
            at += 1
        at += 1
    return at <= len(whole)


def run(ctx, rng, obj, m, vcard):
    full = str(obj)
    for _ in range(rng.choice([1, 2, 4])):
        f, spec = some_filter(rng, m, ctx, vcard=vcard)
        want = project(ctx, m, spec)
        for fmt in rng.sample(["text", "json"] + ([] if vcard else ["xml"]), rng.choice([1, 2])):
            ctx.count("written")
            ctx.mark("formats", fmt)
            ctx.seen((fmt, repr(spec), m[0], tuple(sorted(set(k[0] for k in m[2])))), True, "%s of %r" % (fmt, spec))
            plain = not any(wants(x, p) for x, p in walk(spec))
            where = lambda: "(%s, filter %r) of %s" % (fmt, spec, full[:3000])
            try:
                if fmt == "text":
                    s = StringIO()
                    obj.generateFiltered(s, f)
                    out = s.getvalue()
                    got = c_text(out, spec, vcard)
                    seqs = R.lines_of(out), lambda: R.lines_of(full)
                    ctx.check(all(len(l) <= 75 for l in out.split("\r\n")), "folding", lambda: "a line is too long: %s %s" % (out[:2000], where()))
                elif fmt == "json":
                    j = []
                    obj.writeJSONFiltered(j, f)
                    out = json.dumps(j)
                    j = json.loads(out)
                    if len(j) != 1:
                        raise ValueError("%d objects" % len(j))
                    got = c_json(j[0], spec, vcard)
                    seqs = flat_json(j[0]), lambda: flat_json(json.loads(obj.getTextJSON() if vcard else obj.getTextJSON(Calendar.NO_TIMEZONES)))
                else:
                    root = XML.Element(xmlutils.makeTag(xmldefinitions.iCalendar20_namespace, xmldefinitions.icalendar))
                    obj.writeXMLFiltered(root, xmldefinitions.iCalendar20_namespace, f)
                    out = xmlutils.toString(root)
                    e = X.blank(X.fromstring(out))[0]
                    got = c_xml(e, spec)
                    seqs = flat_xml(e) if plain else (), lambda: flat_xml(X.blank(X.fromstring(obj.getTextXML(Calendar.NO_TIMEZONES)))[0])
            except Exception as e:
                ctx.viol("fails-" + e.__class__.__name__, "raised %r %s" % (e, where()))
                continue
            if plain:
                # in the order of the full output
                ctx.count("ordered")
                ctx.check(subsequence(seqs[0], seqs[1]()), "order-" + fmt, lambda: "what is written filtered is not in the order of the full output:\n%s %s" % (out[:2000], where()))
            ctx.check(got == want, fmt, lambda: "filtered: %s %s" % (R.diff(want, got), where()))
            now = str(obj)
            ctx.check(now == full, "changed", lambda: "writing it filtered changed it to %s %s" % (now[:2000], where()))
    f = OutputFilter(m[0])
    f.setAllProperties()
    f.setAllSubComponents()
    s = StringIO()
    obj.generateFiltered(s, f)
    ctx.count("identity")
    ctx.check(s.getvalue() == full, "everything", lambda: "a filter for everything gives\n%s\nof\n%s" % (s.getvalue()[:2000], full[:2000]))


def walk(spec):
    """(spec, named property) pairs"""
    if spec is None or spec == "all":
        return []
    res = [(spec, n) for n in spec[0]] if isinstance(spec[0], dict) else []
    for k in spec[1].values() if isinstance(spec[1], dict) else []:
        res += walk(k)
    return res


def calendars(ctx, rng, i):
    m = G.calendar(rng, rng.choice([1, 2, 3]))
    run(ctx, rng, Calendar.parseText(R.write(rng, m)), m, False)


def cards(ctx, rng, i):
    m = V.card(rng)
    ctx.count("cards")
    run(ctx, rng, Card.parseText(R.write(rng, m, True)), m, True)
