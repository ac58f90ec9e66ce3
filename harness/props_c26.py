# -*- coding: utf-8 -*-
"""C26: equality and hashes of components, properties and values."""
import datetime as D
import json
import refical as R
import refjson as J
import icalgen as G
import vcardgen as V
import props_c13 as P
import props_c14 as H
from vskip import Skip
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CProperty

RULE = ("random calendars, cards and properties built as reference models: (a) the same model in two spellings (order of properties, components, parameters and parameter values, case of parameter names, folding, escapes), through "
        "text, JSON, duplicates and re-reading of what the library wrote, must be equal both ways with equal hashes; (b) one random change of the model (value, value type, parameter, name, group, date form, added/removed/"
        "doubled/moved property or component, component type) must make the two sides unequal, then undoing it through the API must make them equal again; (c) histories of edits on two copies, in different orders; (d) rules edited through their setters against the rule their text gives, and recurrence sets in other orders or with one item changed. "
        "Distinct by kind of object, of change and of value type")
REQUIRE = {"equal": 1200, "unequal": 1200, "changes": 18, "types": 18, "restored": 80, "histories": 60, "hashes": 4000, "rules": 600, "sets": 500}
PLAN = [("calendars", 260, 5000), ("cards", 250, 5000), ("properties", 1800, 40000), ("histories", 80, 2000), ("foreign", 40, 200), ("rules", 160, 5000), ("sets", 160, 5000)]
ASSUMPTIONS = ["equal means the same reference model (see C01); a property that states its default VALUE and a period given by its end or by the duration to the same end are not compared with the other spelling",
               "hashes are only required to agree between equal objects"]


def same(ctx, a, b, key, detail):
    ctx.count("equal")
    ctx.check(bool(a == b), key, lambda: "not equal: " + why(a, b) + " in " + detail())
    ctx.check(bool(b == a), key + "-reverse", lambda: "not equal: " + detail())
    ctx.check(not (a != b) and not (b != a), key + "-ne", lambda: "!= of equal objects: " + detail())


def other(ctx, a, b, key, detail):
    ctx.count("unequal")
    ctx.check(not (a == b), key, lambda: "equal: " + detail())
    ctx.check(not (b == a), key + "-reverse", lambda: "equal: " + detail())
    ctx.check(bool(a != b) and bool(b != a), key + "-ne", lambda: "!= of different objects: " + detail())


def hashes(ctx, a, b, key, detail):
    """two properties that are equal"""
    ctx.count("hashes")
    ctx.check(hash(a) == hash(b), key + "-hash", lambda: "hashes differ: " + detail())
    ctx.check(hash(a.getValue()) == hash(b.getValue()) and a.getValue() == b.getValue(), key + "-value-hash", lambda: "values or their hashes differ: " + detail())
    ctx.check(len(set([a, b])) == 1 and b in {a: 1} and [a].index(b) == 0, key + "-set", lambda: "a set or dict tells them apart: " + detail())
    pa, pb = a.getParameters(), b.getParameters()
    for n in pa:
        if len(pa[n]) == len(pb.get(n, ())) == 1:
            ctx.check(pa[n][0] == pb[n][0] and not pa[n][0] != pb[n][0] and hash(pa[n][0]) == hash(pb[n][0]), key + "-param", lambda: "parameter %s: %s" % (n, detail()))


def spell(rng, p, vcard=False):
    """a property line that does not state its default type"""
    while True:
        line = R.w_prop(rng, p, vcard)
        if not line.startswith(p[0]):
            continue
        if p[2] != ((R.VDEFAULT if vcard else R.DEFAULT).get(p[0].split(".")[-1] if vcard else p[0]) or "UNKNOWN") or "VALUE=" not in line.upper():
            return line


def write(rng, model, vcard=False):
    nl = rng.choice(["\r\n", "\n"])
    mode = rng.choice([0, 1, 2])
    lines = []

    def rec(c):
        lines.append("BEGIN:" + c[0])
        props, kids = list(c[1]), list(c[2])
        rng.shuffle(props)
        rng.shuffle(kids)
        lines.extend(spell(rng, p, vcard) for p in props)
        for k in kids:
            rec(k)
        lines.append("END:" + c[0])
    rec(model)
    return "".join(R.fold(rng, l, nl, mode) for l in lines)


def read(kind, text):
    return (Calendar if kind == "ical" else Card).parseText(text)


def readjson(kind, j):
    if kind == "ical":
        return Calendar.parseJSON(j, None, Calendar(add_defaults=False))
    return Card.parseJSON(j, None, Card(add_defaults=False))


def why(a, b, path=""):
    """where two objects the library finds unequal differ"""
    if not hasattr(a, "getComponents"):
        return "%r / %r" % (str(a), str(b))
    x, y = props_of(a), props_of(b)
    for p in list(x):
        for q in y:
            if p is q or p == q:
                x.remove(p)
                y.remove(q)
                break
    if x or y:
        return "%s/%s: %s / %s" % (path, a.getType(), [str(p) for p in x][:4], [str(p) for p in y][:4])
    x, y = a.getComponents(), b.getComponents()
    for p in list(x):
        for q in y:
            if p == q:
                x.remove(p)
                y.remove(q)
                break
    for p in x:
        for q in y:
            if p.getType() == q.getType() and str(p.getProperties("UID")) == str(q.getProperties("UID")) and str(p.getProperties("RECURRENCE-ID")) == str(q.getProperties("RECURRENCE-ID")):
                return why(p, q, path + "/" + a.getType())
    return "%s/%s: %d and %d components" % (path, a.getType(), len(a.getComponents()), len(b.getComponents()))


def props_of(c):
    return [p for n in sorted(c.getProperties()) for p in c.getProperties()[n]]


def nodes(model, path=()):
    out = [path]
    for n, k in enumerate(model[2]):
        out += nodes(k, path + (n,))
    return out


def at(model, path):
    for n in path:
        model = model[2][n]
    return model


def put(model, path, new):
    """the model with another node (None removes it; a list replaces it by several)"""
    if not path:
        return new
    kids = list(model[2])
    r = put(kids[path[0]], path[1:], new)
    kids[path[0]:path[0] + 1] = [] if r is None else r if isinstance(r, list) else [r]
    return (model[0], model[1], tuple(kids))


def normal(model):
    return R.comp(model[0], model[1], [normal(k) for k in model[2]])


KEEP = set("UID TZID RECURRENCE-ID BEGIN END".split())


def nudge(rng, vtype, val):
    """the same value but for one detail"""
    if vtype == "RECUR":
        d = dict(val)
        k = rng.choice(sorted(d))
        if k == "FREQ":
            d[k] = rng.choice([x for x in ("MINUTELY", "HOURLY", "DAILY", "WEEKLY") if x != d[k]])
        elif rng.random() < 0.5:
            del d[k]
        elif k in ("COUNT", "INTERVAL"):
            d[k] += 1
        elif k == "UNTIL":
            d[k] = (d[k][0] + 1,) + d[k][1:]
        elif k == "WKST":
            d[k] = "TU" if d[k] != "TU" else "WE"
        elif k == "BYDAY":
            d[k] = tuple(sorted(set(d[k]) ^ set([(0, rng.choice(["MO", "TU", "SU"]))]))) or ((0, "FR"),)
        else:
            d[k] = tuple(sorted(set(d[k]) ^ set([rng.randint(1, 12)]))) or (7,)
        return tuple(sorted(d.items()))
    if vtype in ("DATE", "DATE-TIME"):
        n = rng.randrange(3 if len(val) == 3 else 6)
        x = list(val)
        x[n] = x[n] + 1 if x[n] < (9999, 12, 28, 23, 59, 59)[n] else x[n] - 1
        return tuple(x)
    if vtype in ("TEXT", "URI", "CAL-ADDRESS") and isinstance(val, str) and val:
        return rng.choice([val + "x", "x" + val, val[:-1] if val[-1] < "\x80" and val[-1:] != "\\" else val])
    if vtype == "DURATION":
        return val + rng.choice([1, -1, 60, 86400]) if rng.random() < 0.7 else -val
    if vtype in ("INTEGER", "UTC-OFFSET"):
        return -val if rng.random() < 0.5 else val + 60
    if vtype == "GEO":
        return val[::-1] if rng.random() < 0.5 else (val[0], "12.5")
    if vtype in ("N", "ADR", "ORG", "REQUEST-STATUS"):
        n = rng.randrange(len(val))
        x = list(val)
        if rng.random() < 0.5:
            m = rng.randrange(len(val))
            x[n], x[m] = x[m], x[n]
        elif vtype in ("N", "ADR"):
            x[n] = rng.choice([("y",), x[n] + ("z",)])
        else:
            x[n] += "y"
        return tuple(x)
    return None


def change_prop(rng, p, vcard):
    """(kind of change, property) that means something else, or None"""
    name, par, vtype, val = p
    base = name.split(".")[-1] if vcard else name
    multi = base in (R.VMULTI if vcard else R.MULTI)
    k = rng.choice(["value", "value", "value", "param-add", "param-drop", "param-value", "param-more", "type", "group", "rename", "order", "zone", "date", "case"])
    if k == "value":
        if rng.random() < 0.6:
            if multi and vtype != "PERIOD":
                n = rng.randrange(len(val))
                v = nudge(rng, vtype, val[n])
                v = None if v is None else val[:n] + (v,) + val[n + 1:]
            else:
                v = nudge(rng, vtype, val)
            if v is not None and v != val and (not multi or v != ("",)):
                return "value-" + vtype, (name, par, vtype, v)
        for _ in range(20):
            q = (V.prop if vcard else G.prop)(rng, base, vtype, ps=0)
            if repr(q[3]) != repr(val):
                if vtype == "PERIOD" or vtype == "UNKNOWN" and not val:
                    return None
                if vtype == "VCARD" and "CHARSET" in dict(par):
                    return None
                return "value-" + vtype, (name, par, vtype, q[3])
        return None
    d = dict(par)
    if k == "param-add":
        if "X-NEW" in d:
            return None
        d["X-NEW"] = ("v",)
    elif k == "param-drop":
        ks = [x for x in d if x not in ("TZID", "ENCODING")]
        if not ks:
            return None
        del d[rng.choice(ks)]
    elif k in ("param-value", "param-more"):
        ks = [x for x in d if x not in ("TZID", "ENCODING", "VALUE")]
        if not ks:
            return None
        x = rng.choice(ks)
        v = list(d[x])
        if k == "param-more":
            v.append(rng.choice(v + ["other"]))
        else:
            v[rng.randrange(len(v))] += "x"
        d[x] = tuple(sorted(v))
    elif k == "type":
        if base[:2] != "X-" or base in R.DEFAULT or vtype not in ("UNKNOWN", "TEXT", "URI", "CAL-ADDRESS") or not isinstance(val, str) or R.entext(val) != val:
            return None
        t = rng.choice([x for x in (("UNKNOWN", "TEXT", "URI") if vcard else ("UNKNOWN", "TEXT", "URI", "CAL-ADDRESS")) if x != vtype])
        return "type", (name, par, t, val)
    elif k == "group":
        if not vcard:
            return None
        return "group", ((base if "." in name and rng.random() < 0.5 else "other." + base), par, vtype, val)
    elif k == "rename":
        if base not in ("X-FOO", "X-BAR"):
            return None
        return "rename", (name.replace(base, "X-RENAMED"), par, vtype, val)
    elif k == "order":
        if not multi or len(val) < 2 or val[0] == val[-1]:
            return None
        return "order", (name, par, vtype, val[1:] + val[:1]) if val[1:] + val[:1] != val else None
    elif k == "zone":
        # the same clock time, elsewhere
        if vtype != "DATE-TIME" or multi or len(val) != 7:
            return None
        if val[6]:
            return "zone-utc-floating", (name, par, vtype, val[:6] + ("",))
        if "TZID" in d:
            del d["TZID"]
            return "zone-dropped", (name, tuple(sorted(d.items())), vtype, val)
        return "zone-floating-utc", (name, par, vtype, val[:6] + ("Z",))
    elif k == "date":
        # midnight is not the day
        if vtype == "DATE-TIME" and not multi and base in ("DTSTART", "DTEND", "DUE", "BDAY", "REV") and "TZID" not in d:
            return "date", (name, par, "DATE", val[:3])
        if vtype == "DATE" and not multi:
            return "date-time", (name, par, "DATE-TIME", val + (0, 0, 0, ""))
        if vtype == "RECUR" and "UNTIL" in dict(val):
            v = dict(val)
            u = v["UNTIL"]
            v["UNTIL"] = u + (0, 0, 0, "Z") if len(u) == 3 else rng.choice([u[:3], u[:6] + ("" if u[6] else "Z",)])
            return "until-form", (name, par, vtype, tuple(sorted(v.items())))
        return None
    elif k == "case":
        if vtype != "TEXT" or multi or val.swapcase() == val or base in ("METHOD", "STATUS", "CLASS", "TRANSP", "ACTION", "VERSION"):
            return None
        return "case", (name, par, vtype, val.swapcase())
    q = (name, tuple(sorted(d.items())), vtype, val)
    return (k, q) if q != p else None


def change(rng, model, vcard):
    """(kind, changed model, path, old, new) or None"""
    path = rng.choice(nodes(model))
    c = at(model, path)
    k = rng.choice(["prop"] * 6 + ["add", "double", "remove", "move", "replace", "comp-remove", "comp-double", "comp-type", "comp-replace"])
    props = list(c[1])
    free = [n for n, p in enumerate(props) if p[0] not in KEEP and not (vcard and p[0] in ("VERSION", "N", "FN"))]
    if k in ("prop", "double", "remove", "move"):
        if not free:
            return None
        n = rng.choice(free)
        p = props[n]
        if k == "prop":
            r = change_prop(rng, p, vcard)
            if r is None:
                return None
            k, props[n] = r
        elif k == "double":
            props.append(p)
        else:
            del props[n]
        if k == "move":
            to = [x for x in nodes(model) if x != path]
            if not to:
                return None
            model = put(model, path, (c[0], tuple(props), c[2]))
            to = rng.choice(to)
            d = at(model, to)
            if d == at(model, path):
                return None
            return k, put(model, to, (d[0], d[1] + (p,), d[2])), None
        return k, put(model, path, (c[0], tuple(props), c[2])), (path, p, props[n]) if k not in ("double", "remove") else None
    if k == "replace":
        # as many properties of each name as before
        pairs = [(n, m) for n in free for m in free if props[n][0] == props[m][0] and props[n] != props[m]]
        if not pairs:
            return None
        n, m = rng.choice(pairs)
        props[n] = props[m]
        return k, put(model, path, (c[0], tuple(props), c[2])), None
    if k == "comp-replace":
        pairs = [(n, m) for n, x in enumerate(c[2]) for m, y in enumerate(c[2]) if x[0] == y[0] and x != y and not any(p[0] in ("UID", "TZID") for p in x[1] + y[1] if x[0] != "VALARM")]
        if not pairs:
            return None
        n, m = rng.choice(pairs)
        return k, put(model, path + (n,), c[2][m]), None
    if k == "add":
        return k, put(model, path, (c[0], c[1] + (("X-ADDED", (), "UNKNOWN", "v"),), c[2])), None
    if not path or c[0] in ("VTIMEZONE",) or (k != "comp-remove" and any(p[0] == "UID" for p in c[1]) and c[0] != "VALARM"):
        return None
    if c[0] in ("STANDARD", "DAYLIGHT") and k == "comp-remove" and len(at(model, path[:-1])[2]) == 1:
        return None
    if k == "comp-remove":
        return k, put(model, path, None), None
    if k == "comp-double":
        return k, put(model, path, [c, c]), None
    new = {"STANDARD": "DAYLIGHT", "DAYLIGHT": "STANDARD", "VALARM": "X-THING"}.get(c[0])
    if c[0][:2] == "X-" or c[0] == "IANA-COMP":
        new = "X-RETYPED"
    if not new:
        return None
    return k, put(model, path, (new, c[1], c[2])), None


def stat(ctx, model):
    for p in model[1]:
        ctx.mark("types", p[2])
    for k in model[2]:
        stat(ctx, k)


def trees(ctx, rng, kind):
    vcard = kind == "vcard"
    model = V.card(rng) if vcard else G.calendar(rng)
    if rng.random() < 0.3:
        # things that occur twice
        for _ in range(3):
            c = rng.choice(nodes(model))
            x = at(model, c)
            if c and x[0] in ("VALARM", "X-THING", "X-OTHER", "STANDARD", "DAYLIGHT", "VOTE"):
                model = put(model, c, [x, x])
            else:
                ps = [p for p in x[1] if p[0] not in KEEP]
                if ps:
                    model = put(model, c, (x[0], x[1] + (rng.choice(ps),), x[2]))
        model = normal(model)
    stat(ctx, model)
    t1, t2 = write(rng, model, vcard), write(rng, model, vcard)
    a, b = read(kind, t1), read(kind, t2)
    ctx.seen((kind, model), True, t1)
    same(ctx, a, a, kind + "-itself", lambda: t1)
    same(ctx, a, b, kind + "-spelling", lambda: "%s\nand\n%s" % (t1, t2))
    same(ctx, a, a.duplicate(), kind + "-duplicate", lambda: t1)
    same(ctx, a, read(kind, str(b)), kind + "-text", lambda: t1 + "\nwritten and read again:\n" + str(b))
    j = b.getTextJSON() if vcard else b.getTextJSON(includeTimezones=Calendar.NO_TIMEZONES)
    same(ctx, a, readjson(kind, json.loads(j)), kind + "-json", lambda: t1 + "\nwritten as JSON and read again:\n" + j)
    jj = J.write(rng, model, vcard)
    same(ctx, a, readjson(kind, json.loads(jj)), kind + "-fromjson", lambda: "%s\nand\n%s" % (t1, jj))
    pa = dict((p.getText(), p) for p in props_of(a))
    for p in props_of(b):
        if p.getText() in pa:
            hashes(ctx, pa[p.getText()], p, kind, p.getText)
    for _ in range(12):
        r = change(rng, model, vcard)
        if r is None:
            continue
        what, m2, where = r
        m2 = normal(m2)
        if m2 == model:
            continue
        t3 = write(rng, m2, vcard)
        try:
            c = read(kind, t3)
        except Exception:
            ctx.count("unreadable")
            continue
        ctx.mark("changes", what)
        other(ctx, a, c, kind + "-" + what, lambda: "%s: %s" % (what, R.diff(model, m2)))
        other(ctx, c, b, kind + "-" + what, lambda: "%s: %s" % (what, R.diff(model, m2)))
        ctx.seen((kind, what, model), True, t3)
        if where is not None and len(where[0]) == 0:
            # put the original property back
            old, new = [(CProperty if vcard else Property).parseText(spell(rng, p, vcard)) for p in (where[1], where[2])]
            n = c.countProperty(new.getName())
            c.removeProperty(new)
            ctx.check(c.countProperty(new.getName()) == n - 1, kind + "-remove-equal", lambda: "an equal property was not removed: %s" % new)
            other(ctx, a, c, kind + "-removed", lambda: "without %s" % old)
            c.addProperty(old)
            same(ctx, a, c, kind + "-restored", lambda: "%s put back into\n%s" % (old, c))
            ctx.count("restored")


def calendars(ctx, rng, i):
    trees(ctx, rng, "ical")


def cards(ctx, rng, i):
    trees(ctx, rng, "vcard")


def properties(ctx, rng, i):
    vcard = bool(i % 2)
    cls = CProperty if vcard else Property
    if vcard:
        p = V.prop(rng, rng.choice(V.NAMES))
    else:
        p = G.prop(rng, rng.choice(sorted(R.DEFAULT) + ["X-FOO"] * 12))
    ctx.mark("types", p[2])
    l1, l2 = spell(rng, p, vcard), spell(rng, p, vcard)
    a, b = cls.parseText(l1), cls.parseText(l2)
    key = "prop-" + ("vcard" if vcard else "ical")
    ctx.seen((vcard, p), True, l1)
    same(ctx, a, b, key, lambda: "%r and %r" % (l1, l2))
    hashes(ctx, a, b, key, lambda: "%r and %r" % (l1, l2))
    d = a.duplicate()
    same(ctx, a, d, key + "-duplicate", lambda: l1)
    hashes(ctx, a, d, key + "-duplicate", lambda: l1)
    e = cls.parseText(b.getText().replace("\r\n ", "").rstrip("\r\n"))
    same(ctx, a, e, key + "-text", lambda: "%r and %r" % (l1, b.getText()))
    hashes(ctx, a, e, key + "-text", lambda: "%r and %r" % (l1, b.getText()))
    jl = []
    b.writeJSON(jl)
    e = cls.parseJSON(json.loads(json.dumps(jl[0])))
    same(ctx, a, e, key + "-json", lambda: "%r and %r" % (l1, jl))
    hashes(ctx, a, e, key + "-json", lambda: "%r and %r" % (l1, jl))
    j = json.loads(json.dumps(J.w_prop(rng, p, vcard)))
    e = cls.parseJSON(j)
    same(ctx, a, e, key + "-fromjson", lambda: "%r and %r" % (l1, j))
    hashes(ctx, a, e, key + "-fromjson", lambda: "%r and %r" % (l1, j))
    for _ in range(6):
        r = change_prop(rng, p, vcard)
        if r is None:
            continue
        what, q = r
        l3 = spell(rng, q, vcard)
        if R.canon_prop(l3, vcard) != q:
            continue
        c = cls.parseText(l3)
        ctx.mark("changes", what)
        ctx.seen((vcard, what, p), True)
        other(ctx, a, c, key + "-" + what, lambda: "%s: %r and %r" % (what, l1, l3))
        if what.split("-")[0] in ("value", "order", "until", "case", "zone", "type", "date") and what != "zone-dropped":
            ctx.check(a.getValue() != c.getValue() and not a.getValue() == c.getValue(), key + "-value-" + what, lambda: "equal values: %s: %r and %r" % (what, l1, l3))


def histories(ctx, rng, i):
    """the same edits in different orders on two copies"""
    vcard = i % 3 == 2
    kind = "vcard" if vcard else "ical"
    model = V.card(rng) if vcard else G.calendar(rng, 1)
    text = write(rng, model, vcard)
    a, b = read(kind, text), read(kind, text)
    cls = CProperty if vcard else Property
    adds = []
    while len(adds) < rng.choice([2, 3, 6]):
        p = V.prop(rng, rng.choice(["NOTE", "TEL", "EMAIL", "X-FOO", "ADR"])) if vcard else G.prop(rng, rng.choice(["X-FOO", "X-BAR", "X-FOO", "IANA-THING"]))
        adds.append(p)
        if rng.random() < 0.4:
            adds.append(p)
    seqs = []
    for _ in (0, 1):
        s = list(adds)
        rng.shuffle(s)
        seqs.append(s)
    for x, s in ((a, seqs[0]), (b, seqs[1])):
        for p in s:
            x.addProperty(cls.parseText(spell(rng, p, vcard)))
    show = lambda: "%s\nplus %r" % (text, adds)
    same(ctx, a, b, kind + "-history", show)
    ctx.seen((kind, model, tuple(adds)), True, text)
    ctx.count("histories")
    # take them away one by one, each side in its own order
    left = list(adds)
    while left:
        p = left.pop(rng.randrange(len(left)))
        a.removeProperty(cls.parseText(spell(rng, p, vcard)))
        other(ctx, a, b, kind + "-history-removed", lambda: "%s\nwithout one of %r" % (show(), p))
        b.removeProperty(cls.parseText(spell(rng, p, vcard)))
        same(ctx, a, b, kind + "-history-both", lambda: "%s\nboth without one of %r" % (show(), p))
    same(ctx, a, read(kind, text), kind + "-history-undone", show)


def foreign(ctx, rng, i):
    cal, card = read("ical", write(rng, G.calendar(rng, 1))), read("vcard", write(rng, V.card(rng), True))
    things = [None, 3, "", "x", u"x", (), [], {}, object(), cal, card]
    for n in range(2):
        x = (cal, card)[n]
        objs = [x] + x.getComponents()
        for p in props_of(x):
            objs += [p, p.getValue()] + [q for l in p.getParameters().values() for q in l]
        for o in objs:
            for t in things + [props_of((card, cal)[n])[0]]:
                if t is o:
                    continue
                if t is x and not hasattr(o, "getComponents"):
                    continue
                ctx.count("unequal")
                try:
                    r = (bool(o == t), bool(o != t))
                except Exception as e:
                    r = repr(e)
                ctx.check(r == (False, True), "foreign-" + o.__class__.__name__, "%r compared with %r gave %r" % (str(o)[:80], str(t)[:80], r))
    ctx.seen((str(cal), str(card)), True)


def rules(ctx, rng, i):
    """rules edited through their setters, and recurrence sets"""
    kind, zone, r, s, span, text = H.gen(rng)
    rec = Recurrence.parseText(text)
    ops = []
    for _n in range(rng.randint(1, 5)):
        x = rng.random()
        if x < 0.35:
            H.set_some(ctx, rng, rec, kind, zone, s, ops)
        elif x < 0.5:
            # one flag alone: the value that is not in use stays behind
            n = rng.choice(["setUseCount", "setUseUntil"])
            v = rng.random() < 0.5
            if n == "setUseCount" and v and rec.getCount() < 1:
                rec.setCount(rng.randint(1, 9))
            if n == "setUseUntil" and v and rec.getUntil() is None:
                rec.setUntil(P.mk("floating" if kind == "zone" else kind, None, s + D.timedelta(days=rng.randint(1, 90))))
            getattr(rec, n)(v)
            ops.append("%s(%s)" % (n, v))
        elif x < 0.6:
            rec.setCount(rng.randint(1, 9))
            ops.append("setCount")
        elif x < 0.7:
            hash(rec)
            rec = rec.duplicate()
            ops.append("dup")
        t = rec.getText()
        again = Recurrence.parseText(t)
        detail = lambda: "%s then %s gives %s" % (text, ops, t)
        for o, key in ((again, "rule-reread"), (rec.duplicate(), "rule-duplicate")):
            same(ctx, rec, o, key, detail)
            ctx.check(hash(rec) == hash(o) and len(set([rec, o])) == 1, key + "-hash", lambda: "hashes differ: " + detail())
            ctx.eq(o.getText(), t, key + "-text", detail())
            ctx.count("rules")
        # a rule that differs
        o = rec.duplicate()
        more = []
        H.set_some(ctx, rng, o, kind, zone, s, more)
        line = lambda q: R.canon_prop("RRULE:" + q)
        if line(o.getText()) != line(t):
            other(ctx, rec, o, "rule-changed", lambda: "%s and %s" % (t, o.getText()))
        else:
            same(ctx, rec, o, "rule-unchanged", lambda: "%s and %s" % (t, o.getText()))
        ctx.eq(rec.getText(), t, "rule-shared", "%s of a duplicate" % more)
    ctx.seen((tuple(ops), text), bool(ops), "%s: %s" % (text, ops))


def sets(ctx, rng, i):
    kind, zone, r, s, span, text = H.gen(rng)
    par = ";VALUE=DATE" if kind == "date" else ";TZID=%s" % zone.tzid if kind == "zone" else ""
    lines = []
    day = lambda: H.txt(s + D.timedelta(days=rng.randint(0, 12)), kind == "utc", kind == "date")
    pool = [text] + [H.gen(rng)[5] for _ in range(2)]
    pool += ["FREQ=DAILY;COUNT=%d" % rng.randint(2, 4), "FREQ=DAILY;COUNT=3"]

    def item():
        n = rng.choice(["RRULE", "EXRULE", "RDATE", "RDATE", "EXDATE", "EXDATE", "RPERIOD"])
        if n in ("RRULE", "EXRULE"):
            return (n, rng.choice(pool))
        if n == "RPERIOD" and kind != "date":
            return ("RPERIOD", day() + "/PT%dH" % rng.randint(1, 3))
        return (rng.choice(["RDATE", "EXDATE"]) if n == "RPERIOD" else n, day())

    def build(items):
        out = []
        for n, v in items:
            out.append("%s:%s" % (n, v) if n in ("RRULE", "EXRULE") else "RDATE%s:%s" % (par + ";VALUE=PERIOD" if par else ";VALUE=PERIOD", v) if n == "RPERIOD" else "%s%s:%s" % (n, par, v))
        return Calendar.parseText(P.component(kind, zone, s, out)).getComponents("VEVENT")[0].getRecurrenceSet()
    items = [item() for _ in range(rng.randint(1, 6))]
    mixed = list(items)
    rng.shuffle(mixed)
    a, b = build(items), build(mixed)
    for x, y in ((a, b), (b, a), (a, a.duplicate()), (a, a)):
        ctx.count("sets")
        ctx.eq(x.equals(y), True, "set-equal", "recurrence sets of %s and %s" % (items, mixed))
    changed = list(mixed)
    how = rng.choice(["add", "drop", "alter", "move"])
    k = rng.randrange(len(changed))
    if how == "add" or how == "drop" and len(changed) == 1:
        changed.append(item())
    elif how == "drop":
        del changed[k]
    elif how == "alter":
        changed[k] = item()
    else:
        n, v = changed[k]
        changed[k] = ({"RRULE": "EXRULE", "EXRULE": "RRULE", "RDATE": "EXDATE", "EXDATE": "RDATE"}.get(n, n), v)
    c = build(changed)
    want = sorted((n, R.canon_prop("RRULE:" + v) if "RULE" in n else v) for n, v in items) == sorted((n, R.canon_prop("RRULE:" + v) if "RULE" in n else v) for n, v in changed)
    for x, y in ((a, c), (c, a)):
        ctx.eq(x.equals(y), want, "set-changed", "recurrence sets of %s and %s" % (items, changed))
    ctx.seen((how, tuple(sorted(n for n, v in items))), True, "%s %s" % (items, how))


def setup(ctx):
    P.setup(ctx)
