# -*- coding: utf-8 -*-
"""C03: whatever text an application stores comes back, and cannot become structure."""
import refical as R
import icalgen as G
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vevent import VEvent
from pycalendar.parameter import Parameter
from pycalendar.value import Value
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty
from pycalendar.vcard.n import N
from pycalendar.vcard.adr import Adr
from pycalendar import utils

RULE = ("strings over an alphabet of delimiters, escapes, line breaks, quotes, carets, spaces, UTF-8 and property-like lines, stored by the API as text, text list, parameter, structured name, address, organisation, status, "
        "and as values written as they are (URI, address, binary, unknown), all short strings over the critical characters enumerated; output read by the reference reader and by the library; distinct by kind and string")
REQUIRE = {"stored": 6000, "kinds": 14, "with_line_break": 1500, "enumerated": 2500}
PLAN = [("short", 2800, 30000), ("strings", 3000, 150000), ("cards", 700, 30000), ("functions", 300, 20000)]
ASSUMPTIONS = ["a parameter value is not claimed to keep CR (written as the line break ^n), nor a backslash at its end when it needs quotes; values with raw syntax are only claimed not to break out of their line"]

CRIT = ["\\", "n", ",", ";", ":", "\n", "\r", "\"", "^", "'", "=", " ", "a", "N"]
CRLFS = ["\r\nBEGIN:VEVENT\r\n", "\nX-EVIL:1", "\r\n ", "\r\n\t", "\r\nEND:VCALENDAR", "\rX-EVIL:1", "\n\n"]


def string(rng):
    r = rng.random()
    if r < 0.5:
        return "".join(rng.choice(CRIT) for _ in range(rng.randint(0, 12)))
    if r < 0.75:
        return "".join(rng.choice(CRIT + CRLFS + G.WORDS) for _ in range(rng.randint(1, 6)))
    return "".join(rng.choice(G.WORDS + CRLFS) for _ in range(rng.randint(1, 5)))


def short_string(i):
    """all strings over CRIT of length 1, 2, 3, ... in order"""
    n = len(CRIT)
    k, size = 1, n
    while i >= size:
        i -= size
        k += 1
        size *= n
    s = ""
    for _ in range(k):
        s += CRIT[i % n]
        i //= n
    return s


def quoted_ok(s):
    """the parameter strings that the syntax read by the library can express"""
    return not ("\\" in s and (s.endswith("\\") or "\\\"" in s)) and "\r" not in s


def in_calendar(ctx, prop, what, vcard=False):
    """the output of a component holding just this property (and one before and after): gives the content line"""
    if vcard:
        card = Card(add_defaults=False)
        for p in (VProperty(None, "VERSION", "3.0"), prop, VProperty(None, "X-ZZZ", "end")):
            card.addProperty(p)
        out = str(card)
        expect = ["BEGIN:VCARD", "VERSION:3.0", None, "X-ZZZ:end", "END:VCARD"]
    else:
        cal = Calendar(add_defaults=False)
        cal.addProperty(Property("VERSION", "2.0"))
        ev = VEvent(parent=cal)
        for p in (Property("UID", "u1"), prop, Property("X-ZZZ", "end")):
            ev.addProperty(p)
        cal.addComponent(ev)
        out = str(cal)
        expect = ["BEGIN:VCALENDAR", "VERSION:2.0", "BEGIN:VEVENT", "UID:u1", None, "X-ZZZ:end", "END:VEVENT", "END:VCALENDAR"]
    lines = R.lines_of(out)
    ok = len(lines) == len(expect) and all(b is None or a == b for a, b in zip(lines, expect)) and "\r" not in out.replace("\r\n", "") and "\n" not in out.replace("\r\n", "")
    if not ctx.check(ok, "breaks-out-" + what, "%s in %r" % (what, out)):
        return None, None
    back = (Card if vcard else Calendar).parseText(out)
    holder = back if vcard else back.getComponents("VEVENT")[0]
    if not ctx.check(holder is not None and holder.countProperty(prop.getName()) == 1 and sum(len(x) for x in holder.getProperties().values()) == 3, "reread-structure-" + what, out):
        return None, None
    return lines[expect.index(None)], holder.getProperties(prop.getName())[0]


def store(ctx, rng, s, kinds):
    kind = rng.choice(kinds)
    ctx.mark("kinds", kind)
    ctx.count("stored")
    ctx.count("with_line_break", int("\n" in s or "\r" in s))
    if kind == "text":
        p = Property(rng.choice(["SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT", "X-WR-CALNAME"]), s if rng.random() < 0.7 else None)
        if p.getValue() is None:
            p.setValue(s)
        line, back = in_calendar(ctx, p, kind)
        if line is not None:
            ctx.eq(R.untext(R.split_line(line)[2]), s, "text-written", kind)
            ctx.eq(back.getTextValue().getValue(), s, "text-read-back", kind)
    elif kind == "x-text":
        p = Property("X-TXT", s, valuetype=Value.VALUETYPE_TEXT)
        p.addParameter(Parameter("VALUE", "TEXT"))
        line, back = in_calendar(ctx, p, kind)
        if line is not None:
            ctx.eq(R.untext(R.split_line(line)[2]), s, "text-written", kind)
            ctx.eq(back.getTextValue().getValue(), s, "text-read-back", kind)
    elif kind == "list":
        items = [s] + [string(rng) for _ in range(rng.randint(1, 3))]
        rng.shuffle(items)
        p = Property(rng.choice(["CATEGORIES", "RESOURCES"]))
        p.setValue(items)
        line, back = in_calendar(ctx, p, kind)
        if line is not None:
            ctx.eq([R.untext(x) for x in R._splitesc(R.split_line(line)[2], ",")], items, "list-written", kind)
            ctx.eq([x.getValue() for x in back.getMultiValue().getValues()], items, "list-read-back", kind)
    elif kind in ("param", "param2", "v-param", "v-param2"):
        s = s.replace("\r", "")
        if not quoted_ok(s) or not s:
            return
        vals = [s] if kind.endswith("param") else sorted([s] + [x for x in (string(rng).replace("\r", "") for _ in range(2)) if x and quoted_ok(x)])
        vcard = kind.startswith("v-")
        p = VProperty(rng.choice([None, "grp"]), "NOTE", "value") if vcard else Property("SUMMARY", "value")
        p.addParameter(Parameter("X-PAR", list(vals)))
        p.addParameter(Parameter("X-PAS", "after"))
        line, back = in_calendar(ctx, p, kind, vcard)
        if line is not None:
            name, params, raw = R.split_line(line)
            ctx.eq(params, [("X-PAR", vals), ("X-PAS", ["after"])], "param-written", kind)
            ctx.eq(raw, "value", "param-swallows-value", kind)
            ctx.eq(back.getParameterValues("X-PAR"), vals, "param-read-back", kind)
            ctx.eq(back.getTextValue().getValue(), "value", "param-value-read-back", kind)
    elif kind == "param-nasty":
        # anything at all: must stay within its line
        p = Property("SUMMARY", "value")
        p.addParameter(Parameter("X-PAR", s))
        out = p.getText()
        ctx.check(len(R.lines_of(out)) == 1 and "\r" not in out.replace("\r\n", ""), "breaks-out-param", repr(out))
    elif kind == "status":
        v = ["2.0", s, string(rng) or "x"]
        p = Property("REQUEST-STATUS", list(v))
        line, back = in_calendar(ctx, p, kind)
        if line is not None:
            ctx.eq([R.untext(x) for x in R._splitesc(R.split_line(line)[2], ";")], v, "status-written", kind)
            ctx.eq(list(back.getValue().getValue()), v, "status-read-back", kind)
    elif kind in ("uri", "caladdress", "binary", "unknown"):
        name, vt = {"uri": ("URL", Value.VALUETYPE_URI), "caladdress": ("ATTENDEE", Value.VALUETYPE_CALADDRESS), "binary": ("ATTACH", Value.VALUETYPE_BINARY), "unknown": ("X-UNK", Value.VALUETYPE_UNKNOWN)}[kind]
        if kind == "uri":
            s = s.replace("\\", "")
        p = Property(name, s, valuetype=vt)
        line, back = in_calendar(ctx, p, kind)
        if line is not None and "\n" not in s and "\r" not in s:
            ctx.eq(R.split_line(line)[2], s, "raw-written", kind)
            ctx.eq(back.getValue().getValue(), s, "raw-read-back", kind)
    elif kind == "v-text":
        p = VProperty(None, rng.choice(["NOTE", "FN", "NICKNAME", "LABEL", "TITLE"]))
        more = [string(rng) for _ in range(rng.choice([0, 0, 1, 2]))] if p.getName() in R.VMULTI else []
        how = rng.randrange(3)
        if how == 0:
            p.setValue([s] + more if p.getName() in R.VMULTI else s)
        elif how == 1:
            p = VProperty(None, p.getName(), [s] + more if p.getName() in R.VMULTI else s)
        else:
            try:
                p = VProperty(rng.choice([None, "grp"]), p.getName(), tuple([s] + more) if p.getName() in R.VMULTI else s.decode("utf-8"))
            except UnicodeDecodeError:
                p.setValue([s] + more if p.getName() in R.VMULTI else s)
        line, back = in_calendar(ctx, p, kind, True)
        if line is not None:
            v = back.getValue().getValue()
            if p.getName() in R.VMULTI:
                ctx.eq([R.untext(x) for x in R._splitesc(R.split_line(line)[2], ",")], [s] + more, "text-written", kind)
                ctx.eq([x.getValue() for x in v], [s] + more, "text-read-back", kind)
            else:
                ctx.eq(R.untext(R.split_line(line)[2]), s, "text-written", kind)
                ctx.eq(v, s, "text-read-back", kind)
    elif kind in ("n", "adr"):
        n = 5 if kind == "n" else 7
        items = [s] + [string(rng) for _ in range(n - 1)]
        k = rng.randrange(n)
        items[k] = tuple(string(rng) for _ in range(rng.randint(2, 3)))
        rng.shuffle(items)
        p = VProperty(None, "N" if kind == "n" else "ADR")
        p.setValue((N if kind == "n" else Adr)(*items))
        line, back = in_calendar(ctx, p, kind, True)
        if line is not None:
            want = tuple(x if isinstance(x, tuple) else (x,) for x in items)
            ctx.eq(R.CANON["N"](R.split_line(line)[2]), want, "structure-written", kind)
            got = back.getValue().getValue().getValue()
            ctx.eq(tuple(x if isinstance(x, tuple) else (x,) for x in got), want, "structure-read-back", kind)
    elif kind == "org":
        items = tuple([s] + [string(rng) for _ in range(rng.randint(1, 3))])
        p = VProperty(None, "ORG", rng.choice([tuple, list])(items))
        if rng.random() < 0.5:
            p = VProperty(None, "ORG")
            p.setValue(items)
        line, back = in_calendar(ctx, p, kind, True)
        if line is not None:
            ctx.eq(R.CANON["ORG"](R.split_line(line)[2]), items, "structure-written", kind)
            ctx.eq(tuple(back.getValue().getValue()), items, "structure-read-back", kind)


ICAL = ["text", "text", "x-text", "list", "list", "param", "param", "param2", "param-nasty", "status", "uri", "caladdress", "binary", "unknown"]


def short(ctx, rng, i):
    s = short_string(i)
    ctx.count("enumerated")
    k = ["text", "list", "param", "param2", "status", "n", "org", "v-text", "v-param", "v-param2"]
    for kind in (["text", "param"] if i < 14 + 196 else []) + [k[i % len(k)], rng.choice(k)]:
        store(ctx, rng, s, [kind])
    ctx.seen(s, True, s)


def strings(ctx, rng, i):
    s = string(rng)
    store(ctx, rng, s, ICAL)
    ctx.seen(s, True, s)


def cards(ctx, rng, i):
    s = string(rng)
    store(ctx, rng, s, ["v-text", "n", "adr", "org", "v-param", "v-param2"])
    ctx.seen(s, True, s)


def functions(ctx, rng, i):
    s = string(rng)
    ctx.eq(utils.decodeTextValue(utils.escapeTextValue(s)), s, "decode-escape", "text")
    ctx.check("\n" not in utils.escapeTextValue(s) and "\r" not in utils.escapeTextValue(s), "escape-leaves-break", s)
    p = s.replace("\r", "")
    ctx.eq(utils.decodeParameterValue(utils.encodeParameterValue(p)), p, "decode-encode-param", "param")
    ctx.check('"' not in utils.encodeParameterValue(s) and "\n" not in utils.encodeParameterValue(s) and "\r" not in utils.encodeParameterValue(s), "encode-leaves-syntax", s)
    ctx.eq(utils.encodeParameterValue(p), R.enparam(p), "encode-param", repr(p))
    # every kind of line end is one line end
    ctx.eq(utils.encodeParameterValue(s), R.enparam(s.replace("\r\n", "\n").replace("\r", "\n")), "encode-param-line-end", repr(s))
    # any parameter text is read as RFC 6868 says
    ctx.eq(utils.decodeParameterValue(s), R.unparam(s), "decode-param", repr(s))
    ctx.seen(s, True, s)
