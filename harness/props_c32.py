# -*- coding: utf-8 -*-
"""C32: what is written depends on the content alone."""
import json
import icalgen as G
import refical as R
import refjson as J
import vcardgen as V
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card
from pycalendar.timezonedb import TimezoneDatabase as DB

RULE = ("random calendars and vCards of every component kind, also without UIDs, given in many orders of their components, properties and parameters, with any folding and quoting, as text, as JSON and put together through the API from parts of other calendars; "
        "written as text, JSON and XML, again after a copy, after validation, expansion, filtered output and other calendars; all must be the same octets; distinct by content")
REQUIRE = {"pairs": 2000, "families": 60, "orders": 400, "json-built": 150, "api-built": 150, "without-uid": 100, "alarms": 150, "polls": 35, "zones": 60, "copies": 200, "used": 300, "cards": 100, "xml": 500, "json": 700}
PLAN = [("calendars", 260, 5000), ("cards", 120, 3000)]
ASSUMPTIONS = ["components that nothing distinguishes (no UID, no TZID, the same action and trigger) and properties of one name keep the order they are given in, as do observances, voters, votes and unknown components; the case of names is part of the content, and lower in JSON; in JSON and XML the values of a parameter keep the order they are given in, in text they are sorted"]


def setup(ctx):
    DB.createTimezoneDatabase(None)


def val(c, n):
    v = [p for p in c[1] if p[0] == n]
    return v[0][3] if v else None


ACTIONS = ("AUDIO", "DISPLAY", "EMAIL", "URI", "NONE")


def ident(c):
    """what tells siblings of one type apart; None: nothing does"""
    t = c[0]
    if t == "VTIMEZONE":
        return (t, val(c, "TZID"))
    if t in ("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "AVAILABLE", "VPOLL"):
        u = val(c, "UID")
        return (t, u, val(c, "RECURRENCE-ID") if u is not None else None, val(c, "POLL-ITEM-ID"))
    if t == "VALARM":
        # without regard to the end a duration counts from
        a, v = val(c, "ACTION"), [p for p in c[1] if p[0] == "TRIGGER"]
        return (t, a if a in ACTIONS else None, (v[0][2], v[0][3]) if v else None)
    return (t,)


def shuffled(rng, items, key):
    """another order, in which those of one key keep theirs"""
    a = list(items)
    rng.shuffle(a)
    tab = {}
    for x in items:
        tab.setdefault(key(x), []).append(x)
    return [tab[key(x)].pop(0) for x in a]


def tree(text):
    """(type, [(name, line)], [subtrees], model) of canonical text"""
    top = R.canon(text, text.startswith("BEGIN:VCARD"))[0]
    stack = [["", [], []]]
    for l in R.lines_of(text):
        if l.startswith("BEGIN:"):
            stack.append([l[6:], [], []])
        elif l.startswith("END:"):
            c = stack.pop()
            stack[-1][2].append(tuple(c))
        else:
            stack[-1][1].append((R.split_line(l)[0].upper(), l))
    return stack[0][2][0]


def key_of(t):
    lines = "".join(l + "\r\n" for l in text_lines(t))
    return ident(R.canon(lines)[0])


def text_lines(t):
    res = ["BEGIN:" + t[0]] + [l for _n, l in t[1]]
    for k in t[2]:
        res += text_lines(k)
    return res + ["END:" + t[0]]


def segments(l):
    """the name, the parameters and the value of a line, as they are written"""
    out, cur, q, i = [], "", False, 0
    while i < len(l):
        ch = l[i]
        if ch == '"':
            q = not q
        if not q and ch in ";:":
            out.append(cur)
            cur = ""
            if ch == ":":
                return out[0], out[1:], l[i + 1:]
        else:
            cur += ch
        i += 1
    raise ValueError(l)


def values_shuffled(rng, p):
    """a parameter with its values in another order"""
    n, _eq, vs = p.partition("=")
    out, q = [""], False
    for ch in vs:
        if ch == '"':
            q = not q
        if ch == "," and not q:
            out.append("")
        else:
            out[-1] += ch
    rng.shuffle(out)
    return n + _eq + ",".join(out)


def permuted(rng, t, vcard=False, values=False):
    kids = shuffled(rng, t[2], key_of) if len(t[2]) > 1 else t[2]
    ps = []
    for n, l in shuffled(rng, t[1], lambda p: p[0].rpartition(".")[2] if vcard else p[0]):
        name, params, v = segments(l)
        params = shuffled(rng, params, lambda x: x.split("=")[0].upper())
        if values:
            params = [values_shuffled(rng, x) for x in params]
        ps.append((n, ";".join([name] + params) + ":" + v))
    return (t[0], ps, [permuted(rng, k, vcard, values) for k in kids])


def spelled(rng, t):
    """its text: folded anywhere, properties anywhere between the sub-components"""
    nl = rng.choice(["\r\n", "\r\n", "\n"])
    mode = rng.choice([0, 1, 1, 2])

    def rec(t):
        a, b = [[l] for _n, l in t[1]], [rec(k) for k in t[2]]
        res = ["BEGIN:" + t[0]]
        while a or b:
            res += (a if a and (not b or rng.random() < len(a) / float(len(a) + len(b))) else b).pop(0)
        return res + ["END:" + t[0]]
    return "".join(R.fold(rng, l, nl, mode) for l in rec(t))


def json_permuted(rng, j):
    kids = j[2] if len(j) > 2 else None
    props = [[p[0], dict(shuffled(rng, p[1].items(), lambda x: x[0]))] + p[2:] for p in shuffled(rng, j[1], lambda p: p[0])]
    if kids is None:
        return [j[0], props]
    return [j[0], props, [json_permuted(rng, k) for k in (shuffled(rng, kids, lambda k: ident(J.canon(json.dumps(k)))) if len(kids) > 1 else kids)]]


def forms(ctx, obj, vcard):
    res = {"text": obj.getText() if vcard else obj.getText(Calendar.NO_TIMEZONES), "str": str(obj),
           "json": obj.getTextJSON() if vcard else obj.getTextJSON(Calendar.NO_TIMEZONES)}
    ctx.count("json")
    if not vcard:
        res["xml"] = obj.getTextXML(Calendar.NO_TIMEZONES)
        ctx.count("xml")
    return res


def compare(ctx, a, b, how, where):
    for k in sorted(a):
        ctx.count("pairs")
        x, y = a[k], b[k]

        def text():
            n = [i for i in range(min(len(x), len(y))) if x[i] != y[i]]
            n = n[0] if n else min(len(x), len(y))
            return "%s, %s: ...%r and ...%r %s" % (how, k, x[max(0, n - 200):n + 200], y[max(0, n - 200):n + 200], where())
        if not ctx.check(x == y, k + "-" + how.split(" ")[0], text):
            return False
    return True


def tally(ctx, c):
    for k in c[2]:
        if k[0] == "VALARM":
            ctx.count("alarms")
        if k[0] == "VPOLL":
            ctx.count("polls")
        if k[0] == "VTIMEZONE":
            ctx.count("zones")
        tally(ctx, k)


def nameless(rng, c, ctx):
    """some components lose their UID"""
    ps = c[1]
    if c[0] in ("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY") and rng.random() < 0.3:
        ps = [p for p in ps if p[0] != "UID"]
        ctx.count("without-uid")
    return (c[0], tuple(ps), tuple(nameless(rng, k, ctx) for k in c[2]))


def family(rng):
    """instances of one recurring component"""
    t = rng.choice(["VEVENT", "VEVENT", "VTODO", "VJOURNAL"])
    uid = "f" * rng.choice([1, 5, 20, 36, 60, 200]) + "@example.com"
    res = []
    for d in rng.sample(range(1, 29), rng.choice([2, 3, 6])):
        k = rng.choice(["", "Z", "D"])
        v = (2020, 5, d) if k == "D" else (2020, 5, d, rng.choice([0, 9, 23]), 0, 0, k)
        ps = [("UID", (), "TEXT", uid), ("DTSTAMP", (), "DATE-TIME", (2020, 1, 1, 0, 0, 0, "Z")), ("RECURRENCE-ID", (), "DATE" if k == "D" else "DATE-TIME", v), ("SUMMARY", (), "TEXT", "instance %d" % d)]
        if rng.random() < 0.4:
            vs = tuple("mailto:%s@example.com" % x for x in sorted(rng.sample("abcdefghijklmnop", rng.choice([2, 4, 5, 9, 14]))))
            ps.append(("ATTENDEE", (("MEMBER", vs), ("X-P", vs[:1])), "CAL-ADDRESS", "mailto:x@example.com"))
        res.append(R.comp(t, ps, []))
    return tuple(res)


def use(ctx, rng, cal):
    """what only reads"""
    ctx.count("used")
    k = rng.randrange(6)
    if k == 0:
        cal.validate()
    elif k == 1:
        for c in cal.getComponents():
            repr(c)
            c.getMapKey()
    elif k == 2:
        cal.getTextJSON(Calendar.NO_TIMEZONES)
        cal.getTextXML(Calendar.NO_TIMEZONES)
    elif k == 3:
        cal == cal.duplicate()
    elif k == 4:
        for c in cal.getComponents():
            hash(c) if hasattr(c, "__hash__") else 0
            c.getComponents()
            cal.getComponentByKey("nothing")
    else:
        Calendar.parseText(str(cal))


def calendars(ctx, rng, i):
    m = G.calendar(rng, rng.choice([1, 2, 3, 5]))
    m = nameless(rng, m, ctx)
    if rng.random() < 0.4:
        ctx.count("families")
        m = (m[0], m[1], tuple(m[2]) + family(rng))
    tally(ctx, m)
    src = R.write(rng, m)
    first = Calendar.parseText(src)
    want = forms(ctx, first, False)
    where = lambda: "of %s" % want["text"][:3000]
    ctx.seen(want["text"], True, src[:300])
    t = tree(want["text"])
    j = json.loads(want["json"])
    asked = want
    lower = forms(ctx, Calendar.parseJSONData(want["json"]), False)
    if not compare(ctx, {"json": want["json"]}, {"json": lower["json"]}, "read from JSON", where):
        return
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.random()
        want = asked
        if k < 0.5:
            ctx.count("orders")
            how = "order of text"
            cal = Calendar.parseText(spelled(rng, permuted(rng, t)))
        elif k < 0.75:
            ctx.count("json-built")
            how, want = "built from JSON", lower    # names come in lower case in JSON
            cal = Calendar.parseJSONData(json.dumps(json_permuted(rng, j)))
        else:
            ctx.count("api-built")
            how = "put together"
            other = Calendar.parseText(spelled(rng, permuted(rng, t)))
            cal = Calendar(add_defaults=False)
            cal.setProperties({})
            for p in shuffled(rng, sum(other.getProperties().values(), []), lambda p: p.getName().upper()):
                cal.addProperty(p.duplicate())
            for c in other.getComponents():
                cal.addComponent(c.duplicate(parent=cal))
        if not compare(ctx, want, forms(ctx, cal, False), how, where):
            return
        if rng.random() < 0.5:
            use(ctx, rng, cal)
            if not compare(ctx, want, forms(ctx, cal, False), "after use", where):
                return
        if rng.random() < 0.5:
            ctx.count("copies")
            if not compare(ctx, want, forms(ctx, cal.duplicate(), False), "copied", where):
                return
    want = asked
    other = Calendar.parseText(spelled(rng, permuted(rng, t, values=True)))
    compare(ctx, {"text": want["text"], "str": want["str"]}, {"text": other.getText(Calendar.NO_TIMEZONES), "str": str(other)}, "values of parameters", where)
    again = Calendar.parseText(want["text"])
    compare(ctx, want, forms(ctx, again, False), "again from text", where)
    compare(ctx, want, forms(ctx, first, False), "later", where)


def cards(ctx, rng, i):
    m = V.card(rng)
    ctx.count("cards")
    src = R.write(rng, m, True)
    first = Card.parseText(src)
    want = forms(ctx, first, True)
    where = lambda: "of %s" % want["text"][:3000]
    ctx.seen(want["text"], True, src[:300])
    t = tree(want["text"])
    j = json.loads(want["json"])
    asked = want
    lower = forms(ctx, Card.parseJSONData(want["json"]), True)
    if not compare(ctx, {"json": want["json"]}, {"json": lower["json"]}, "read from JSON", where):
        return
    for _ in range(rng.choice([2, 3])):
        want = asked
        if rng.random() < 0.6:
            ctx.count("orders")
            how = "order of text"
            card = Card.parseText(spelled(rng, permuted(rng, t, True)))
        else:
            ctx.count("json-built")
            how, want = "built from JSON", lower
            card = Card.parseJSONData(json.dumps(json_permuted(rng, j)))
        if rng.random() < 0.3:
            card = card.duplicate()
        if not compare(ctx, want, forms(ctx, card, True), how, where):
            return
    want = asked
    other = Card.parseText(spelled(rng, permuted(rng, t, True, values=True)))
    compare(ctx, {"text": want["text"], "str": want["str"]}, {"text": other.getText(), "str": str(other)}, "values of parameters", where)
    compare(ctx, want, forms(ctx, Card.parseText(want["text"]), True), "again from text", where)
    compare(ctx, want, forms(ctx, first, True), "later", where)
