# -*- coding: utf-8 -*-
"""C19: malformed input."""
import json
import re
import refical as R
import icalgen as G
import vcardgen as V
import refjson as J
from cStringIO import StringIO
from vskip import Skip
from pycalendar.exceptions import ErrorBase, InvalidData
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.utcoffsetvalue import UTCOffsetValue

RULE = ("well-formed calendars and vCards in text and JSON (generated as in C01, C04, C06, C07) with 1-5 mutations (octets, lines, tokens, numbers, structure, JSON nodes), random octets, values built from grammar fragments, and a table of "
        "breakages that must be refused; each outcome is a result, which must be writable and stable on re-reading, or the library's own error; distinct by input")
REQUIRE = {"accepted": 300, "refused": 800, "broken": 500, "values": 2000, "json": 500, "breakages": 26, "json broken": 500, "bad values": 40, "bad kinds": 7}
PLAN = [("mutated", 700, 60000), ("structure", 700, 40000), ("mutated_json", 700, 60000), ("json_structure", 720, 40000), ("values", 2500, 200000), ("bad_values", 3000, 60000), ("garbage", 500, 40000), ("into", 250, 10000)]
ASSUMPTIONS = ["a parse that makes no progress is ended by the runner's watchdog and reported", "a day of the month up to 99 is read as given, and repeated or extra duration parts are dropped as the default settings say", "a jCard may state any version (RFC 7095 cards state 4.0)"]

NASTY = ["", ":", ";", ",", "=", '"', "\\", "\\n", "^", "\r", "\n", "\r\n", "\r\n ", " ", "\t", "\0", "\xff", "\xc3", "\xe2\x82", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:", "END:", "VALUE=DATE",
         ";VALUE=PERIOD:", ";VALUE=", ";TZID=X/Y", "-1", "0", "99999999999999999999", "1e999", "nan", "P", "PT", "/", "//", "20200230T250000Z", "00000000", "FREQ=", "RRULE:", "BYDAY=", "DTSTART", "VERSION:2.0", "T", "Z", "+", "-"]


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        k = rng.randrange(9)
        n = len(s)
        a = rng.randint(0, max(n - 1, 0))
        if k == 0:
            s = s[:a] + rng.choice(NASTY) + s[a:]
        elif k == 1:
            s = s[:a] + s[a + rng.choice([1, 1, 2, 5, 40]):]
        elif k == 2:
            s = s[:a] + chr(rng.randrange(256)) + s[a + 1:]
        elif k == 3:
            l = s.splitlines(True)
            if l:
                del l[rng.randrange(len(l))]
            s = "".join(l)
        elif k == 4:
            l = s.splitlines(True)
            if l:
                i = rng.randrange(len(l))
                l.insert(rng.randint(0, len(l)), l[i])
            s = "".join(l)
        elif k == 5:
            l = s.splitlines(True)
            if len(l) > 1:
                i, j = rng.randrange(len(l)), rng.randrange(len(l))
                l[i], l[j] = l[j], l[i]
            s = "".join(l)
        elif k == 6:
            s = s[:a]
        elif k == 7:
            m = list(re.finditer(r"\d+", s))
            if m:
                m = rng.choice(m)
                s = s[:m.start()] + rng.choice(["", "0", "-1", "99", "60", "13", "32", "9" * 12, "00", "366", "1.5", "x"]) + s[m.end():]
        else:
            m = list(re.finditer(r"[A-Z-]{2,}", s))
            if m:
                m, o = rng.choice(m), rng.choice(m)
                s = s[:m.start()] + rng.choice([o.group(0), m.group(0).lower(), m.group(0)[1:], "X"]) + s[m.end():]
    return s


def attempt(ctx, f, data, what):
    """the result, or None when refused properly"""
    try:
        r = f(data)
    except ErrorBase as e:
        ctx.count("refused")
        str(e)
        return None
    if r is None:
        ctx.count("nothing")
    else:
        ctx.count("accepted")
    return r


def lines(t):
    # a backslash is dropped from URIs each time they are read
    return sorted(l.replace("\\", "") if "://" in l else l for l in R.lines_of(t))


def stable(ctx, cls, obj, data, what):
    """what was accepted can be written, read again and is then the same"""
    t1 = str(obj)
    try:
        o2 = cls.parseText(t1)
        t2 = str(o2)
    except ErrorBase as e:
        ctx.viol(what + "-accepted-but-not-readable", "%s\nread from\n%s\nwas written as\n%s" % (e, data, t1))
        return
    ctx.check(lines(t1) == lines(t2), what + "-not-stable", "%s\nread from\n%s" % ("\n".join("- %s" % l for l in sorted(set(lines(t1)) ^ set(lines(t2)))), data))
    try:
        t1.decode("utf-8")
    except UnicodeDecodeError:
        return
    j = obj.getText(format=cls.sFormatJSON) if cls is Card else obj.getTextJSON(Calendar.NO_TIMEZONES)
    json.loads(j)


def source(rng):
    if rng.random() < 0.65:
        return Calendar, R.write(rng, G.calendar(rng, size=rng.choice([1, 1, 2, 4])))
    return Card, R.write(rng, V.card(rng), True)


def mutated(ctx, rng, i):
    cls, text = source(rng)
    text = mutate(rng, text)
    how = rng.randrange(3)
    obj = attempt(ctx, cls.parseText if how == 0 else lambda d: cls.parseData(StringIO(d)) if how == 1 else cls.parseTextData(StringIO(d)), text, "text")
    if obj is not None:
        stable(ctx, cls, obj, text, cls.__name__)
    if cls is Card:
        attempt(ctx, Card.parseMultipleTextData, text, "text")
    ctx.seen(text, True, text)


def garbage(ctx, rng, i):
    cls = rng.choice([Calendar, Card])
    n = rng.choice([0, 1, 3, 10, 100])
    body = "".join(rng.choice([chr(rng.randrange(256)), rng.choice(NASTY), "\r\n", "A", "1"]) for _ in range(n))
    k = rng.randrange(4)
    name = "VCALENDAR" if cls is Calendar else "VCARD"
    data = body if k == 0 else "BEGIN:%s\r\n%s\r\nEND:%s\r\n" % (name, body, name) if k == 1 else "BEGIN:%s\r\nVERSION:2.0\r\nBEGIN:VEVENT\r\nSUMMARY:%s\r\nEND:VEVENT\r\nEND:%s\r\n" % (name, body, name) if k == 2 else "BEGIN:%s\r\nVERSION:2.0\r\n%s" % (name, body)
    obj = attempt(ctx, cls.parseText, data, "text")
    if obj is not None:
        stable(ctx, cls, obj, data, cls.__name__)
    attempt(ctx, lambda d: cls.parseData(d, cls.sFormatJSON), data, "json")
    for p in (Property, VProperty):
        attempt(ctx, p.parseText, body, "property")
    ctx.seen(data, True, data)

# ---------------------------------------------------------------- breakages that must be refused


def blocks(ls):
    """index pairs of BEGIN and its END below the container"""
    res, st = [], []
    for n, l in enumerate(ls):
        if l.startswith("BEGIN:"):
            st.append(n)
        elif l.startswith("END:"):
            res.append((st.pop(), n))
    return res


def props_at(ls):
    return [n for n, l in enumerate(ls) if not l.startswith("BEGIN:") and not l.startswith("END:")]


def b_no_end(rng, ls):
    a, b = rng.choice(blocks(ls))
    return ls[:b] + ls[b + 1:]


def b_truncated(rng, ls):
    n = rng.randint(1, len(ls) - 1)
    return ls[:n]


def b_wrong_end(rng, ls):
    bs = [x for x in blocks(ls)[:-1]]
    if not bs:
        return None
    a, b = rng.choice(bs)
    return ls[:b] + ["END:" + rng.choice(["VFOO", ls[b][4:] + "X", ls[b][4:][:-1], ""])] + ls[b + 1:]


def b_swapped_ends(rng, ls):
    bs = blocks(ls)
    nest = [(x, y) for x in bs for y in bs if x[0] < y[0] and y[1] == x[1] - 1 and ls[x[1]] != ls[y[1]]]
    if not nest:
        return None
    x, y = rng.choice(nest)
    ls = list(ls)
    ls[x[1]], ls[y[1]] = ls[y[1]], ls[x[1]]
    return ls


def b_extra_end(rng, ls):
    ends = [l for l in ls if l.startswith("END:")]
    n = rng.randint(1, len(ls) - 1)
    return ls[:n] + [rng.choice(ends[:-1] or ends) if ls[n] not in ends else "END:VFOO"] + ls[n:]


def b_version(rng, ls):
    how = rng.choice(["none", "other", "scale"])
    if how == "scale" and ls[0].upper() == "BEGIN:VCALENDAR":
        return ls[:1] + ["CALSCALE:" + rng.choice(["JULIAN", "CHINESE", "GREGORIAN2", ""])] + [l for l in ls[1:] if not l.upper().startswith("CALSCALE")]
    if how == "other":
        return [l if not l.upper().startswith("VERSION") else l[:l.index(":") + 1] + rng.choice(["1.0", "2.1", "4.0", "2", "", "2.0.1", "3.00"]) for l in ls]
    return [l for l in ls if not l.upper().startswith("VERSION")]


def b_no_colon(rng, ls):
    n = rng.choice(props_at(ls))
    return ls[:n] + [rng.choice(["SUMMARY", "SUMMARY;X=y", "X-FOO;X=\"a:b\"", "DTSTART;VALUE=DATE", "garbage line"])] + ls[n:]


def b_no_name(rng, ls):
    n = rng.choice(props_at(ls))
    return ls[:n] + [rng.choice([":value", ";X=y:value"])] + ls[n:]


def b_open_quote(rng, ls):
    n = rng.choice(props_at(ls))
    return ls[:n] + [bad_params(rng, 0)] + ls[n:]


def bad_params(rng, how):
    """a line with parameters of which one is not closed (0), or has more after its quote (1)"""
    params = []
    n = rng.randint(1, 3)
    bad = rng.randrange(n)
    for i in range(n):
        vals = [rng.choice(["a", "b c", '"x:y"', '"q;r,s"', '""']) for _ in range(rng.choice([1, 1, 2, 3]))]
        if i == bad:
            j = rng.randrange(len(vals))
            if how == 0:
                # nothing later in the line may close it
                vals = [v if k < j else v.replace('"', "") for k, v in enumerate(vals)]
                vals[j] = '"' + rng.choice(["", "abc", "d;e=f", "g:h"])
            else:
                vals[j] = '"abc"' + rng.choice(["d", " ", '"b"', "'", "\\", "=x"])
        elif i > bad and how == 0:
            vals = [v.replace('"', "").replace(":", "").replace(";", "").replace(",", "") or "z" for v in vals]
        params.append(";%s=%s" % (rng.choice(["X-A", "LANGUAGE", "CN", "TYPE"]), ",".join(vals)))
    return rng.choice(["SUMMARY", "X-FOO", "NOTE", "DTSTART"]) + "".join(params) + ":" + rng.choice(["", "value", "a:b"])


def b_after_quote(rng, ls):
    n = rng.choice(props_at(ls))
    return ls[:n] + [bad_params(rng, 1)] + ls[n:]


def b_junk_before(rng, ls):
    return [rng.choice(["junk", "VERSION:2.0", "END:VCALENDAR", "BEGIN:VEVENT", "X-A:b", "BEGIN:VCALENDARX", "begin"])] + ls


def b_junk_after(rng, ls):
    return ls + [rng.choice(["junk", "VERSION:2.0", "END:VCALENDAR", "END:VCARD", "BEGIN:VEVENT", "X-A:b"])]


def b_value(rng, ls):
    n = rng.choice(props_at(ls))
    return ls[:n] + [bad_line(rng)[0]] + ls[n:]


def b_inner(rng, ls):
    """a calendar inside a component"""
    bs = blocks(ls)[:-1]
    if not bs:
        return None
    a, b = rng.choice(bs)
    return ls[:b] + ["END:VCALENDAR"] + ls[b:]


BREAK = [b_no_end, b_truncated, b_wrong_end, b_swapped_ends, b_extra_end, b_version, b_no_colon, b_no_name, b_open_quote, b_after_quote, b_junk_before, b_junk_after, b_value, b_inner]


def structure(ctx, rng, i):
    f = BREAK[i % len(BREAK)]
    cls, text = source(rng) if f not in (b_wrong_end, b_swapped_ends, b_inner, b_value) else (Calendar, R.write(rng, G.calendar(rng, size=3)))
    ls = R.lines_of(text)
    tzid = "Bad/Zone-%d" % rng.randrange(10 ** 9)
    if cls is Calendar and rng.random() < 0.5:
        ls[-1:-1] = ["BEGIN:VTIMEZONE", "TZID:" + tzid, "BEGIN:STANDARD", "DTSTART:20000101T000000", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0100", "END:STANDARD", "END:VTIMEZONE"]
    ls2 = f(rng, ls)
    if ls2 is None or ls2 == ls:
        raise Skip()
    data = rng.choice(["\r\n", "\n"]).join(ls2) + rng.choice(["\r\n", ""])
    ctx.count("broken")
    ctx.mark("breakages", f.__name__)
    for g in (cls.parseText, lambda d: cls.parseData(StringIO(d), cls.sFormatText)) + ((Card.parseMultipleTextData,) if cls is Card and f is not b_junk_after else ()):
        try:
            r = g(data)
        except ErrorBase:
            ctx.count("refused")
        else:
            ctx.viol("accepted-" + f.__name__, "%r\nfrom\n%s" % (str(r)[:300], data))
    ctx.check(TimezoneDatabase.getTimezone(tzid) is None, "refused-but-zone-known", data)
    # the next, proper, input is not affected
    if i % 5 == 0:
        ctx.check(str(cls.parseText(text)) is not None, "next-input", text)
    ctx.seen(data, True, data)

# ---------------------------------------------------------------- JSON


def nodes(x, path=()):
    yield path
    if isinstance(x, list):
        for n, y in enumerate(x):
            for p in nodes(y, path + (n,)):
                yield p
    elif isinstance(x, dict):
        for k in sorted(x):
            for p in nodes(x[k], path + (k,)):
                yield p


def jvalue(rng):
    return rng.choice([None, True, 0, -1, 1.5, 1e300, 10 ** 20, "", u"text", u"\xe9\U0001F600", [], {}, [[]], [None], {"a": None}, [1, "a"], {"freq": "DAILY"}, "VEVENT", "vevent", "20200101", "2020-01-01", "2020-13-45T99:99:99Z", ["vevent", [], []], "a\r\nEND:VEVENT", "x:y", "x;y=z", "begin", "end", "a,b", '"', "a.b", "\t", "\0", "3.0", "2.0", "1;2", [1, 2], ["1", "2"]])


def jmutate(rng, x):
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        ps = list(nodes(x))
        p = rng.choice(ps)
        if not p:
            if rng.random() < 0.15:
                x = jvalue(rng)
            continue
        y = x
        for k in p[:-1]:
            y = y[k]
        r = rng.random()
        if r < 0.5:
            y[p[-1]] = jvalue(rng)
        elif r < 0.7:
            del y[p[-1]]
        elif isinstance(y, list):
            if r < 0.85:
                y.insert(rng.randint(0, len(y)), jvalue(rng))
            else:
                y.insert(rng.randint(0, len(y)), y[p[-1]])
        else:
            y[rng.choice(["value", "tzid", "group", "X", "", u"\xe9"])] = jvalue(rng)
    return x


def mutated_json(ctx, rng, i):
    if rng.random() < 0.65:
        cls, x = Calendar, J.w_comp(rng, G.calendar(rng, size=rng.choice([1, 2])))
    else:
        cls, x = Card, J.w_comp(rng, V.card(rng), True)
    data = json.dumps(jmutate(rng, json.loads(json.dumps(x))))
    if rng.random() < 0.1:
        data = mutate(rng, data)
    ctx.count("json")
    obj = attempt(ctx, lambda d: cls.parseData(d, cls.sFormatJSON), data, "json")
    if obj is not None:
        t = str(obj)
        j = obj.getText(format=cls.sFormatJSON) if cls is Card else obj.getTextJSON(Calendar.NO_TIMEZONES)
        json.loads(j)
        try:
            if cls is Calendar or [l for l in R.lines_of(t) if l.upper().startswith("VERSION")] == ["VERSION:3.0"]:
                cls.parseText(t)
        except ErrorBase as e:
            ctx.viol("json-accepted-but-not-readable", "%s\nfrom\n%s\nwrote\n%s" % (e, data, t))
    if cls is Card:
        attempt(ctx, lambda d: Card.parseMultipleData(d, Card.sFormatJSON), rng.choice([data, "[%s]" % data]), "json")
    ctx.seen(data, True, data)

# ---------------------------------------------------------------- JSON that has to be refused


def deep(rng, x, want):
    """a random component of a JSON document that has what is wanted"""
    all_, todo = [], [x]
    while todo:
        c = todo.pop()
        if want != "sub" or c is not x:
            if want != "props" or c[1]:
                all_.append(c)
        todo += list(c[2]) if len(c) > 2 else []
    return rng.choice(all_) if all_ else None


def jb_version(rng, x):
    how = rng.choice(["none", "other", "scale"])
    if how == "scale" and x[0] == "vcalendar":
        x[1][:] = [p for p in x[1] if p[0].upper() != "CALSCALE"] + [["calscale", {}, "text", rng.choice(["JULIAN", "CHINESE", ""])]]
    elif how == "other" and x[0] == "vcalendar":
        for p in x[1]:
            if p[0].upper() == "VERSION":
                p[3] = rng.choice(["1.0", "2.1", "4.0", "2", "", "3.00"])
    else:
        x[1][:] = [p for p in x[1] if p[0].upper() != "VERSION"]


def jb_root(rng, x):
    x[0] = rng.choice(["vevent", "", "vcalendarx", "vcalendars", None, 1, ["vcalendar"], "vcard" if x[0] == "vcalendar" else "vcalendar"])


def jb_no_props(rng, x):
    c = deep(rng, x, "")
    del c[1:]


def jb_props_kind(rng, x):
    deep(rng, x, "")[1] = rng.choice([None, 1, True, 1.5])


def jb_subs_kind(rng, x):
    c = deep(rng, x, "")
    c[2:] = [rng.choice([None, 1, True])]


def jb_sub(rng, x):
    c = deep(rng, x, "")
    c[2:] = [list(c[2] if len(c) > 2 else ()) + [rng.choice([None, 1, [], "", ["x-a"], [1, [], []], ["vevent\r\nX:1", [], []]])]]


def jb_prop_kind(rng, x):
    c = deep(rng, x, "")
    c[1].insert(rng.randint(0, len(c[1])), rng.choice([None, 1, True, [], ["summary"], ["summary", {}], [1, {}, "text", "x"], [None, {}, "text", "x"]]))


def jb_name(rng, x):
    c = deep(rng, x, "props")
    rng.choice(c[1])[0] = rng.choice(["", "a:b", "a;b", "a\r\nb", None, 5, ["summary"]])


def jb_type(rng, x):
    c = deep(rng, x, "props")
    rng.choice(c[1])[2] = rng.choice([None, 5, ["text"], {}])


def jb_params(rng, x):
    c = deep(rng, x, "props")
    rng.choice(c[1])[1] = rng.choice([5, "a", ["a"], True, {"x-p": None}, {"x-p": 1}, {"x-p": []}, {"x-p": [1]}, {"": "a"}, {"x:p": "a"}])


def jb_value(rng, x):
    c = deep(rng, x, "")
    c[1].append(rng.choice([["dtstart", {}, "date-time", "2020-13-01T00:00:00"], ["dtstart", {}, "date", "2020-02"], ["dtstart", {}, "date", 5], ["x-a", {}, "integer", "many"], ["x-a", {}, "duration", "1 day"], ["x-a", {}, "period", ["2020-01-01T00:00:00"]],
                            ["x-a", {}, "period", ["2020-01-01T00:00:00", "never"]], ["x-a", {}, "utc-offset", "+25:00"], ["x-a", {}, "utc-offset", "here"], ["x-a", {}, "float", "1,5"]]) if c is not None else None)


def jb_text(rng, x):
    t = json.dumps(x)
    return rng.choice([t[:rng.randint(1, len(t) - 1)], t + "]", t + t, "[" + t, t.replace(",", ";", 1), t.replace('"', "'"), "", "x" + t])


JBREAK = [jb_version, jb_root, jb_no_props, jb_props_kind, jb_subs_kind, jb_sub, jb_prop_kind, jb_name, jb_type, jb_params, jb_value, jb_text]


def json_structure(ctx, rng, i):
    f = JBREAK[i % len(JBREAK)]
    if rng.random() < 0.6 or f in (jb_value, jb_subs_kind, jb_sub):
        cls, x = Calendar, J.w_comp(rng, G.calendar(rng, size=rng.choice([1, 2])))
    else:
        cls, x = Card, J.w_comp(rng, V.card(rng), True)
    x = json.loads(json.dumps(x))
    was = json.dumps(x)
    tzid = "Bad/Zone-%d" % rng.randrange(10 ** 9)
    if cls is Calendar and rng.random() < 0.5:
        x[2].insert(0, ["vtimezone", [["tzid", {}, "text", tzid]], [["standard", [["dtstart", {}, "date-time", "2000-01-01T00:00:00"], ["tzoffsetfrom", {}, "utc-offset", "+01:00"], ["tzoffsetto", {}, "utc-offset", "+01:00"]], []]]])
    data = f(rng, x)
    if data is None:
        data = json.dumps(x)
    if data == was:
        raise Skip()
    ctx.count("json broken")
    ctx.mark("breakages", f.__name__)
    for what, g in (("text", cls.parseJSONText if hasattr(cls, "parseJSONText") else lambda d: cls.parseData(d, cls.sFormatJSON)), ("data", lambda d: cls.parseData(StringIO(d), cls.sFormatJSON))):
        try:
            r = g(data)
        except ErrorBase:
            ctx.count("refused")
        else:
            ctx.viol("json-accepted-" + f.__name__, "%r\nfrom\n%s" % (str(r)[:300], data[:2000]))
    ctx.check(TimezoneDatabase.getTimezone(tzid) is None, "refused-but-zone-known", data)
    ctx.seen(data, True, data)

# ---------------------------------------------------------------- values


def fragment(rng, words, n):
    return "".join(rng.choice(words) for _ in range(rng.randint(0, n)))


DTW = ["2020", "0000", "9999", "01", "12", "13", "00", "31", "30", "29", "32", "T", "Z", "-", ":", "+", "23", "24", "59", "60", "61", " ", ",", "x", "1", ".5", "20200101", "T101010", "2021-02-28"]
DUW = ["P", "T", "+", "-", "1", "0", "15", "999999999999", "W", "D", "H", "M", "S", " ", "Y", ".5", "x"]
RRW = ["FREQ=", "DAILY", "YEARLY", "WEEKLY", ";", "=", ",", "COUNT=", "UNTIL=", "INTERVAL=", "BYDAY=", "BYMONTH=", "BYMONTHDAY=", "BYSETPOS=", "BYWEEKNO=", "BYYEARDAY=", "BYHOUR=", "WKST=", "MO", "SU", "+1", "-1", "0", "5", "54", "-367", "20200101", "T000000Z", "xx", "", " ",
       "FREQ=MONTHLY;", "X-A=b"]
UOW = ["+", "-", "01", "00", "23", "59", "60", "99", ":", "0", "1", "Z", " ", "x"]


def values(ctx, rng, i):
    k = rng.randrange(6)
    if k == 0:
        s, full = fragment(rng, DTW, 10), rng.random() < 0.5
        f, g = lambda x: DateTime.parseText(x, full), lambda v: v.getText()
    elif k == 1:
        s = fragment(rng, DUW, 8)
        f, g = Duration.parseText, lambda v: v.getText()
    elif k == 2:
        s = fragment(rng, DTW, 6) + "/" + fragment(rng, rng.choice([DTW, DUW]), 8)
        f, g = Period.parseText, lambda v: v.getText()
    elif k == 3:
        s = fragment(rng, RRW, 10)

        def f(x):
            r = Recurrence()
            r.parse(x)
            return r
        g = lambda v: v.getText()
    elif k == 4:
        s = fragment(rng, UOW, 7)
        variant = rng.choice(["ical", "vcard"])

        def f(x):
            v = UTCOffsetValue()
            v.parse(x, variant)
            return v
        g = lambda v: v.getText() if variant == "ical" else None
    else:
        words = rng.choice([DTW, DUW, RRW, UOW]) + NASTY
        name = rng.choice(sorted(R.DEFAULT) + ["X-A"])
        vt = rng.choice(["", "", "", ";VALUE=" + rng.choice(["DATE", "DATE-TIME", "PERIOD", "DURATION", "URI", "TEXT", "INTEGER", "FLOAT", "RECUR", "UTC-OFFSET", "X-BOO", "", "BINARY"])])
        s = name + vt + ":" + fragment(rng, words, 8).replace("\r", "").replace("\n", "")
        f, g = Property.parseText, lambda v: R.lines_of(v.getText())[0]
    ctx.count("values")
    try:
        v = f(s)
    except ErrorBase:
        ctx.count("refused")
        ctx.seen((k, s), True, s)
        return
    except ValueError as e:
        ctx.check(k != 5, "property-value-error", "%r: %s" % (s, e))
        ctx.count("refused")
        ctx.seen((k, s), True, s)
        return
    ctx.count("accepted")
    t = g(v)
    if t is not None:
        full = False
        if k == 0 and re.search(r"[+-]", t):
            full = True
        try:
            t2 = g(f(t))
        except (ValueError, ErrorBase) as e:
            ctx.viol("value-accepted-but-not-readable-%d" % k, "%r was read and written as %r: %s" % (s, t, e))
            return
        ctx.check(t2 == t, "value-not-stable-%d" % k, "%r -> %r -> %r" % (s, t, t2))
    ctx.seen((k, s), True, s)


BAD = {
    "DATE": ["", "2020", "202001", "2020010", "20200100", "20201301", "20200001", "2020-01-01", "20200132x", "2020010a", "x", "20200101Z", "-0200101", "+0200101", "20200101T"],
    "DATE-TIME": ["20200101T", "20200101T1", "20200101T10", "20200101T1010", "20200101T101", "20200101T240000", "20200101T106000", "20200101T101061", "20200101T101010X", "20200101T101010ZZ", "20200101t101010", "20200101 101010",
                  "20200101T101010+0100", "20200101T-10101", "20201301T101010", "20200100T101010", "T101010", "20200101T1010101", "20200101T+1+1+1", "20200101T10+110"],
    "DURATION": ["", "P", "1H", "T1H", "P1", "PT1", "P1H", "PT1D", "X", "PP1D", "--PT1H", "P1D1", "PTH", "PT1X", "P-1D", "PT1H1H"],
    "PERIOD": ["", "20200101T000000Z", "20200101T000000Z/", "/PT1H", "20200101T000000Z/x", "20200101T000000Z/P", "x/y", "20200101T000000Z//PT1H", "20200101T250000Z/PT1H", "20200101T000000Z/20200101T250000Z"],
    "RECUR": ["", "FREQ", "FREQ=", "FREQ=FOO", "COUNT=1", "FREQ=DAILY;COUNT=x", "FREQ=DAILY;COUNT=0", "FREQ=DAILY;INTERVAL=0", "FREQ=DAILY;INTERVAL=-1", "FREQ=DAILY;BYDAY=XX", "FREQ=DAILY;BYDAY=", "FREQ=MONTHLY;BYDAY=0MO", "FREQ=MONTHLY;BYDAY=54MO",
              "FREQ=DAILY;BYMONTH=13", "FREQ=DAILY;BYMONTH=0", "FREQ=DAILY;BYMONTHDAY=32", "FREQ=DAILY;BYMONTHDAY=0", "FREQ=YEARLY;BYYEARDAY=367", "FREQ=YEARLY;BYYEARDAY=0", "FREQ=YEARLY;BYWEEKNO=54", "FREQ=DAILY;BYHOUR=24", "FREQ=DAILY;BYMINUTE=60",
              "FREQ=DAILY;BYSECOND=61", "FREQ=DAILY;BYSETPOS=0", "FREQ=DAILY;WKST=XX", "FREQ=DAILY;UNTIL=x", "FREQ=DAILY;COUNT=1;UNTIL=20200101", "FREQ=DAILY;BYHOUR=-1", "FREQ=DAILY;FOO=1", "FREQ=DAILY;FREQ=DAILY", "FREQ=DAILY;COUNT=1;COUNT=2", "FREQ=DAILY;UNTIL=20200101;UNTIL=20200102"],
    "UTC-OFFSET": ["", "0100", "+01", "+010", "+01000", "x0100", "+0x00", "+01:00", "+010000000", "Z", "+-100", "-+100", "+ 100", "+0160", "+2400", "-0000x", "+01-1", "+010060"],
    "INTEGER": ["", "x", "1.5", "1x", "--1", "1,2"],
    "FLOAT": ["", "x", "nan", "inf", "-Infinity", "1e999", "1.5.5", "--1"],
    "GEO": ["", "1", "1;", ";1", "1,2", "x;y", "1;2;3", "1;x", "nan;1", "1;inf"],
}
NAMED = {"DATE": ["DTSTART;VALUE=DATE", "X-A;VALUE=DATE"], "DATE-TIME": ["DTSTART", "DTSTAMP", "X-A;VALUE=DATE-TIME", "EXDATE"], "DURATION": ["DURATION", "TRIGGER", "X-A;VALUE=DURATION"], "PERIOD": ["FREEBUSY", "RDATE;VALUE=PERIOD", "X-A;VALUE=PERIOD"],
         "RECUR": ["RRULE", "EXRULE", "X-A;VALUE=RECUR"], "UTC-OFFSET": ["TZOFFSETTO", "TZOFFSETFROM", "X-A;VALUE=UTC-OFFSET"], "INTEGER": ["PRIORITY", "SEQUENCE", "X-A;VALUE=INTEGER"], "FLOAT": ["X-A;VALUE=FLOAT"], "GEO": ["GEO"]}


def bad_line(rng):
    if rng.random() < 0.6:
        return bad_generated(rng)
    k = rng.choice(sorted(BAD))
    v = rng.choice(BAD[k])
    return "%s:%s" % (rng.choice(NAMED[k]), v), k


RANGES = [("BYSECOND", 0, 60, False), ("BYMINUTE", 0, 59, False), ("BYHOUR", 0, 23, False), ("BYMONTHDAY", 1, 31, True), ("BYYEARDAY", 1, 366, True), ("BYWEEKNO", 1, 53, True), ("BYMONTH", 1, 12, False), ("BYSETPOS", 1, 366, True)]


def bad_rule(rng):
    parts = ["FREQ=" + rng.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])]
    if rng.random() < 0.5:
        parts.append(rng.choice(["COUNT=3", "UNTIL=20200101T000000Z", "INTERVAL=2", "WKST=SU"]))
    k = rng.randrange(-1, 4)
    if k < 1:
        name, lo, hi, neg = rng.choice(RANGES)
        vals = [rng.choice([lo, hi, rng.randint(lo, hi)]) * (rng.choice([1, -1]) if neg else 1) for _ in range(rng.choice([1, 2, 3]))]
        bads = [rng.choice([1, 2, 10, 100, 1000]) + hi] if name != "BYSETPOS" else [0]
        if lo == 1:
            bads.append(0)
        if neg and name != "BYSETPOS":
            bads.append(-hi - rng.choice([1, 2, 9]))
        elif not neg:
            bads.append(-rng.randint(1, max(hi, 1)))
        if rng.random() < 0.3:
            bads = ["", "x", "1x", "+", "-", "1.5"]
        vals[rng.randrange(len(vals))] = rng.choice(bads)
        parts.append("%s=%s" % (name, ",".join(map(str, vals))))
    elif k == 1:
        vals = [rng.choice(["", "", "1", "-1", "+2", "53", "-53"]) + rng.choice(["MO", "TU", "WE", "TH", "FR", "SA", "SU"]) for _ in range(rng.choice([1, 2, 3]))]
        vals[rng.randrange(len(vals))] = rng.choice(["", "0MO", "54TU", "-54SU", "100WE", "M", "MON", "1", "-1", "XX", "FR1", "--1MO" if False else "1 MO"])
        parts.append("BYDAY=" + ",".join(vals))
    elif k == 2:
        parts = [p for p in parts if not p.startswith(("COUNT", "UNTIL", "INTERVAL", "WKST"))]
        parts.append(rng.choice(["COUNT=0", "COUNT=-1", "COUNT=x", "COUNT=", "INTERVAL=0", "INTERVAL=-2", "INTERVAL=", "INTERVAL=1.5", "WKST=", "WKST=1", "WKST=1MO", "UNTIL=", "UNTIL=2020", "UNTIL=20200101T", "UNTIL=20200101T250000Z", "COUNT=1;UNTIL=20200101", "UNTIL=20200101;COUNT=1"]))
    else:
        parts.append(rng.choice(["", "X", "X=", "=1", "BYFOO=1", "FREQ=DAILY", "BYDAY", "BYDAY=MO=TU"]))
        if rng.random() < 0.3:
            parts = parts[1:] or ["COUNT=2"]
            if parts[-1] == "FREQ=DAILY":
                parts.append("X-A=1")
    rng.shuffle(parts)
    return ";".join(parts), "RECUR"


def bad_date(rng, time):
    y, mo, d, h, mi, sec = "%04d" % rng.randint(1, 9999), "%02d" % rng.randint(1, 12), "%02d" % rng.randint(1, 28), "%02d" % rng.randint(0, 23), "%02d" % rng.randint(0, 59), "%02d" % rng.randint(0, 59)
    f = [y, mo, d, "T", h, mi, sec, rng.choice(["", "Z"])] if time else [y, mo, d]
    k = rng.randrange(5)
    i = rng.randrange(3) if not time else rng.choice([0, 1, 2, 4, 5, 6])
    if k == 0:
        i = rng.choice([1, 2, 4, 5, 6]) if time else rng.choice([1, 2])
        f[i] = {1: rng.choice(["00", "13", "20", "99"]), 2: "00", 4: rng.choice(["24", "25", "99"]), 5: rng.choice(["60", "99"]), 6: rng.choice(["61", "99"])}[i]
    elif k == 1:
        j = rng.randrange(len(f[i]))
        f[i] = f[i][:j] + rng.choice("xOTZ-:/.") + f[i][j + 1:]
    elif k == 2:
        # one digit too few at the end
        s = "".join(f).replace("Z", "")
        return s[:rng.randint(1, len(s) - 1)] if not time else s[:rng.randint(9, len(s) - 1)]
    elif k == 3:
        f.append(rng.choice(["0", "00", "x", "ZZ", "+0100", "-05:00", ",5", ".5"] + ([] if time else ["Z", "T"])))
    elif time:
        f[3] = rng.choice(["", "t", " ", "-", "TT"])
    else:
        f[0] = f[0][1:]
    return "".join(f)


def bad_duration(rng):
    n = lambda: str(rng.randint(0, 99))
    full = rng.choice([["P", n(), "W"], ["P", n(), "D"], ["P", n(), "D", "T", n(), "H"], ["P", "T", n(), "H", n(), "M", n(), "S"], ["P", "T", n(), "M"], ["P", "T", n(), "S"]])
    k = rng.randrange(4)
    if k == 0:
        full[0] = rng.choice(["", "p", "T", "PP", "X", "+-P"])
    elif k == 1:
        # a number is missing
        i = rng.choice([i for i, x in enumerate(full) if x.isdigit()])
        full[i] = rng.choice(["", "-1", "x", "1.5", " 1"])
    elif k == 2:
        i = rng.choice([i for i, x in enumerate(full) if x in "WDHMS"])
        full[i] = rng.choice(["Y", "w", "s", "x", ":"]) if i == len(full) - 1 else rng.choice(["Y", "x"])
    else:
        full = full[:-1]
    return "".join([rng.choice(["", "", "+", "-"])] + full)


def bad_generated(rng):
    """a line with one value outside its grammar or range, among good ones where several are allowed"""
    k = rng.randrange(7)
    if k in (0, 6):
        return rng.choice(["RRULE", "EXRULE", "X-A;VALUE=RECUR"]) + ":" + bad_rule(rng)[0], "RECUR"
    if k == 1:
        time = rng.random() < 0.6
        good = "20200101T101112Z" if time else "20200101"
        v = bad_date(rng, time)
        if rng.random() < 0.4:
            vs = [good] * rng.randint(1, 3)
            vs[rng.randrange(len(vs))] = v
            return rng.choice(["EXDATE", "RDATE"]) + ("" if time else ";VALUE=DATE") + ":" + ",".join(vs), "DATES"
        return rng.choice(["DTSTART", "DUE", "RECURRENCE-ID", "X-A"]).replace("X-A", "X-A;VALUE=DATE-TIME" if time else "X-A") + ("" if time else ";VALUE=DATE") + ":" + v, "DATE"
    if k == 2:
        return rng.choice(["DURATION", "TRIGGER", "X-A;VALUE=DURATION"]) + ":" + bad_duration(rng), "DURATION"
    if k == 3:
        a, b = "20200101T101112Z", rng.choice(["20200102T000000Z", "PT1H"])
        if rng.random() < 0.5:
            a = bad_date(rng, True)
        elif b[0] == "P":
            b = bad_duration(rng)
        else:
            b = bad_date(rng, True)
        vs = ["20200101T101112Z/PT1H"] * rng.randint(1, 3)
        vs[rng.randrange(len(vs))] = a + "/" + b
        return rng.choice(["FREEBUSY", "RDATE;VALUE=PERIOD"]) + ":" + ",".join(vs), "PERIOD"
    if k == 4:
        s = "%s%02d%02d" % (rng.choice("+-"), rng.randint(0, 23), rng.randint(0, 59))
        i = rng.randrange(len(s))
        s = rng.choice([s[1:], s[:-1], s + "0", s + "000", s[:i] + "x" + s[i + 1:], s[0] + s, s[:3] + ":" + s[3:], s[:3] + "60", s[0] + "24" + s[3:], s + "60"])
        return rng.choice(["TZOFFSETTO", "TZOFFSETFROM"]) + ":" + s, "UTC-OFFSET"
    return bad_params(rng, rng.randrange(2)), "PARAMETERS"


EVERY = [(n, v, k) for k in sorted(BAD) for v in BAD[k] for n in NAMED[k]]


def bad_values(ctx, rng, i):
    if i % 2:
        n, v, k = EVERY[i // 2 % len(EVERY)]
        line = n + ":" + v
        ctx.mark("bad values", k + " " + v)
    else:
        line, k = bad_generated(rng)
        ctx.mark("bad kinds", k)
    if i % 4 < 2:
        try:
            p = Property.parseText(line)
        except ErrorBase:
            ctx.count("refused")
        else:
            ctx.viol("bad-%s-accepted" % k, "%s read as %s" % (line, str(p).strip()))
    else:
        # inside a component the whole calendar is refused
        data = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nBEGIN:VEVENT\r\nUID:1\r\n%s\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % line
        try:
            Calendar.parseText(data)
        except ErrorBase:
            ctx.count("refused")
        else:
            ctx.viol("bad-%s-accepted-in-calendar" % k, data)
    ctx.seen((i % 4 < 2, line), True, line)

# ---------------------------------------------------------------- reading a component into a calendar


def into(ctx, rng, i):
    model = G.calendar(rng, size=1)
    cal = Calendar(add_defaults=False)
    text = R.write(rng, model)
    broken = rng.random() < 0.6
    ls = R.lines_of(text)
    f = None
    if broken:
        f = rng.choice([b_no_end, b_truncated, b_wrong_end, b_swapped_ends, b_no_colon, b_junk_before, b_inner])
        ls2 = f(rng, ls)
        if ls2 is None or ls2 == ls:
            raise Skip()
        # lines outside of components are not looked at
        if f is b_no_colon and not [n for n in range(len(ls2)) if ls2[n] not in ls and any(a < n < b for a, b in blocks(ls2)[:-1])]:
            raise Skip()
        ls = ls2
    data = "\r\n".join(ls) + "\r\n"
    try:
        comp = cal.parseComponent(StringIO(data))
    except ErrorBase:
        ctx.count("refused")
        ctx.check(broken, "component-refused", data)
    else:
        ctx.check(not broken, "component-accepted-%s" % (f.__name__ if f else ""), data)
        if not broken:
            ctx.count("accepted")
            got = R.canon("BEGIN:VCALENDAR\r\n" + "".join(str(c) for c in cal.getComponents()) + "END:VCALENDAR\r\n")[0]
            ctx.check(sorted(got[2]) == sorted(model[2]), "component-differs", data)
            ctx.check(comp is None if not model[2] else comp is not None and R.canon(str(comp))[0] in model[2], "component-result", data)
    ctx.seen(data, True, data)
