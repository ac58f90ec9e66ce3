# -*- coding: utf-8 -*-
"""C20: parser settings."""
import refical as R
import icalgen as G
import vcardgen as V
from cStringIO import StringIO
from pycalendar.exceptions import ErrorBase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.parser import ParserContext as C
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty

RULE = ("well-formed calendars and vCards read under random combinations of all parser settings, and the same with 1-3 deviations of the ten tolerated kinds placed in them, each under all four modes of its setting; "
        "the result is compared with the model plus what the mode says about the deviation; distinct by text, settings")
REQUIRE = {"well-formed": 150, "deviations": 1500, "raised": 300, "kinds": 10, "kind-modes": 28, "strict": 50}
PLAN = [("wellformed", 250, 15000), ("deviations", 1700, 120000), ("mixed", 150, 8000)]
ASSUMPTIONS = ["ALLOW passes the octets on, IGNORE drops the deviation, FIX repairs it, RAISE refuses the data; modes that a setting is documented not to have are not used",
               "INVALID_DATETIME_VALUE and BACKSLASH_IN_GEO_VALUE have no mode but FIX"]

ALLOW, IGNORE, FIX, RAISE = C.PARSER_ALLOW, C.PARSER_IGNORE, C.PARSER_FIX, C.PARSER_RAISE
NAMES = {ALLOW: "ALLOW", IGNORE: "IGNORE", FIX: "FIX", RAISE: "RAISE"}
EVERY = (ALLOW, IGNORE, FIX, RAISE)
SETTINGS = {
    "INVALID_COLON_ESCAPE_SEQUENCE": EVERY, "INVALID_ESCAPE_SEQUENCES": EVERY, "BLANK_LINES_IN_DATA": EVERY, "VCARD_2_NO_PARAMETER_VALUES": EVERY, "VCARD_2_BASE64": (ALLOW, FIX), "INVALID_DATETIME_LEADINGSPACE": (ALLOW, RAISE),
    "INVALID_DURATION_VALUE": (ALLOW, FIX, RAISE), "INVALID_ADR_N_VALUES": (ALLOW, FIX, RAISE), "INVALID_REQUEST_STATUS_VALUE": (IGNORE, FIX, RAISE), "BACKSLASH_IN_URI_VALUE": (ALLOW, FIX)}
ALL = [n for n in dir(C) if n.isupper() and not n.startswith("PARSER_")]
DEFAULTS = dict((n, getattr(C, n)) for n in ALL)


class using(object):

    def __init__(self, settings, strict=False):
        self.settings, self.strict = settings, strict

    def __enter__(self):
        if self.strict:
            C.allRaise()
        for n, v in self.settings.items():
            setattr(C, n, v)

    def __exit__(self, *a):
        for n in [n for n in dir(C) if n.isupper() and not n.startswith("PARSER_")]:
            if n in DEFAULTS:
                setattr(C, n, DEFAULTS[n])
            else:
                delattr(C, n)


def anysettings(rng):
    return dict((n, rng.choice(m)) for n, m in SETTINGS.items())


def word(rng):
    return rng.choice(["alpha", "b c", "x1", "\xc3\xa9t\xc3\xa9", "Z", "a\\, b", "\\;c", "d\\nE", "h\\\\i", ""])


# each kind: (rng) -> (is vCard, line, {mode: line stating the result, or None when refused}, setting)


def textline(rng):
    vcard = rng.random() < 0.4
    if vcard:
        return True, rng.choice(["NOTE:%s", "FN:%s", "X-A;VALUE=TEXT:%s", "NICKNAME:a,%s", "CATEGORIES:%s,b", "N:a;%s,b;;;", "N:%s;;;;", "ADR:;;a;b;%s;;", "ORG:a;%s", "ORG:%s"])
    return False, rng.choice(["SUMMARY:%s", "DESCRIPTION;LANGUAGE=en:%s", "CATEGORIES:a,%s", "CATEGORIES:%s,b", "RESOURCES:%s", "X-A;VALUE=TEXT:%s", "REQUEST-STATUS:2.0;%s", "REQUEST-STATUS:2.0;a;%s"])


def escapes(rng, c):
    vcard, fmt = textline(rng)
    a, b = word(rng) + rng.choice(["", "p"]), rng.choice(["q", "r"]) + word(rng)
    return vcard, fmt, fmt % (a + "\\" + c + b), {RAISE: None, FIX: fmt % (a + c + b), IGNORE: fmt % (a + b), ALLOW: fmt % (a + "\\\\" + c + b)}


def k_colon(rng):
    vcard, fmt, line, res = escapes(rng, ":")
    return vcard, line, res, "INVALID_COLON_ESCAPE_SEQUENCE"


def k_escape(rng):
    vcard, fmt, line, res = escapes(rng, rng.choice("abcdqtxZ0159'\"/!-_. "))
    return vcard, line, res, "INVALID_ESCAPE_SEQUENCES"


def k_blank(rng):
    return rng.random() < 0.4, "", {RAISE: None, FIX: "", IGNORE: "", ALLOW: ""}, "BLANK_LINES_IN_DATA"


def k_noparam(rng):
    name = rng.choice(["TEL", "EMAIL", "X-B", "item1.TEL", "LABEL"])
    bare = rng.sample(["HOME", "WORK", "VOICE", "INTERNET", "pref"], rng.choice([1, 1, 2]))
    keep = rng.sample(["TYPE=fax", "X-P=\"a:b\"", "X-Q=c,d"], rng.choice([0, 0, 1, 2]))
    ps = [(p, False) for p in bare] + [(p, True) for p in keep]
    rng.shuffle(ps)
    v = rng.choice(["123", "a@b.c", "x;y" if False else "xy"])
    gone = name + "".join(";" + p for p, k in ps if k) + ":" + v
    kept = name + "".join(";" + p for p, k in ps) + ":" + v
    return True, kept, {RAISE: None, FIX: gone, IGNORE: gone, ALLOW: kept}, "VCARD_2_NO_PARAMETER_VALUES"


def k_base64(rng):
    name = rng.choice(["PHOTO", "LOGO", "KEY", "SOUND"])
    t = rng.choice([[], ["TYPE=JPEG"], ["TYPE=JPEG", "X-P=\"a;b\""]])
    i = rng.randint(0, len(t))
    data = "".join(rng.choice("ABCDabcd0123+/") for _ in range(4 * rng.choice([1, 5, 30])))
    spaced = data if rng.random() < 0.5 else "  " + "  ".join(data[k:k + 16] for k in range(0, len(data), 16))
    b = rng.choice(["BASE64", "base64", "Base64"])
    mk = lambda p, v: name + "".join(";" + x for x in t[:i] + p + t[i:]) + ":" + v
    return True, mk([b], spaced), {FIX: mk(["ENCODING=B"], data), ALLOW: mk([b], spaced)}, "VCARD_2_BASE64"


def k_space(rng):
    y, m, d = rng.choice([" 999", "2020", "1999"]), rng.choice([" 1", "10", "01"]), rng.choice([" 9", "31", "01"])
    if " " not in y + m + d:
        m = " 1"
    t = rng.choice(["", "T101112", "T101112Z"])
    name = rng.choice(["DTSTART", "X-A", "EXDATE", "RECURRENCE-ID"])
    pre = name + (";VALUE=DATE:" if not t else ";VALUE=DATE-TIME:" if name == "X-A" else ":")
    extra = rng.choice(["", "20200105" + t + ","]) if name == "EXDATE" else ""
    good = pre + extra + (y + m + d).replace(" ", "0") + t
    return False, pre + extra + y + m + d + t, {RAISE: None, ALLOW: good}, "INVALID_DATETIME_LEADINGSPACE"


def k_duration(rng):
    s = rng.choice(["", "-"])
    k = rng.randrange(3)
    n = rng.randint(1, 400)
    bad, good = [("%sPT" % s, "PT0S"), ("%sP%dDT" % (s, n), "%sP%dD" % (s, n)), ("%sP%dW%s" % (s, n, rng.choice(["1D", "T1H", "2", "DT"])), "%sP%dW" % (s, n))][k]
    pre = rng.choice(["TRIGGER:", "DURATION:", "X-A;VALUE=DURATION:", "FREEBUSY:20200101T000000Z/"])
    if pre[0] == "F" and s:
        bad, good = bad[1:], good.lstrip("-")
    return False, pre + bad, {RAISE: None, FIX: pre + good, ALLOW: pre + good}, "INVALID_DURATION_VALUE"


def k_structured(rng):
    name, size = rng.choice([("N", 5), ("ADR", 7), ("item2.ADR", 7), ("ADR;TYPE=home", 7)])
    parts = [rng.choice(["a", "", "b\\;c", "d,e", "f\\,g", "x y"]) for _ in range(size)]
    more = [rng.choice(["p", "q\\;r", "s,t"]) for _ in range(rng.randint(1, 3))]
    return True, name + ":" + ";".join(parts + more), {RAISE: None, FIX: name + ":" + ";".join(parts), ALLOW: name + ":" + ";".join(parts + more)}, "INVALID_ADR_N_VALUES"


def k_status(rng):
    code, desc = rng.choice(["2.0", "3.1", "5.1.2"]), rng.choice(["Success", "a\\, b", "x y"])
    k = rng.randrange(4)
    if k == 0:
        bad, good = code + "\\;" + desc, code + ";" + desc
    elif k == 1:
        bad, good = code, code + ";"
    elif k == 2:
        rest = rng.choice(["data", "X:y"])
        bad, good = ";".join([code, desc, rest] + ["more", "z"][:rng.randint(1, 2)]), ";".join([code, desc, rest])
    else:
        bad, good = code.replace(".", "\\\\.", 1) + ";" + desc, code + ";" + desc
    return False, "REQUEST-STATUS:" + bad, {RAISE: None, FIX: "REQUEST-STATUS:" + good, IGNORE: "REQUEST-STATUS:" + good}, "INVALID_REQUEST_STATUS_VALUE"


def k_uri(rng):
    vcard = rng.random() < 0.4
    pre = rng.choice(["URL:", "SOURCE:"] if vcard else ["URL:", "ATTACH:", "TZURL:", "X-A;VALUE=URI:"])
    parts = ["http://h/a", "b", "c?d=e"][:rng.choice([2, 3])]
    seps = [rng.choice([",", ";"]) for _ in parts]
    bad = "".join(p + "\\" + s for p, s in zip(parts, seps)) + "z"
    good = "".join(p + s for p, s in zip(parts, seps)) + "z"
    return vcard, pre + bad, {FIX: pre + good, ALLOW: pre + bad}, "BACKSLASH_IN_URI_VALUE"


KINDS = [k_colon, k_escape, k_blank, k_noparam, k_base64, k_space, k_duration, k_structured, k_status, k_uri]


def canon(line, vcard):
    return R.canon_prop(line, vcard)


def wellformed(ctx, rng, i):
    strict = rng.random() < 0.4
    settings = {} if strict else anysettings(rng)
    vcard = rng.random() < 0.4
    model = V.card(rng) if vcard else G.calendar(rng, size=rng.choice([1, 2]))
    text = R.write(rng, model, vcard)
    with using(settings, strict):
        try:
            out = str((Card if vcard else Calendar).parseText(text))
        except ErrorBase as e:
            ctx.viol("well-formed-refused", "%s\nunder %s\n%s" % (e, "allRaise" if strict else settings, text))
            return
    got = R.canon(out, vcard)[0]
    ctx.check(got == model, "well-formed-differs", "%s\nunder %s\n%s" % (R.diff(model, got), "allRaise" if strict else settings, text))
    ctx.count("well-formed")
    ctx.count("strict", int(strict))
    ctx.seen((text, strict, sorted(settings.items())), True, text)


def others(rng, setting, kind):
    """the other settings must not matter"""
    s = anysettings(rng)
    if kind is k_noparam:
        s["VCARD_2_BASE64"] = rng.choice([ALLOW, FIX])
    if kind is k_base64:
        s["VCARD_2_NO_PARAMETER_VALUES"] = ALLOW
    if kind is k_uri:
        # the text decoder is used
        pass
    return s


def deviations(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    vcard, line, res, setting = kind(rng)
    modes = [m for m in SETTINGS[setting] if m in res]
    mode = rng.choice(modes)
    settings = others(rng, setting, kind)
    settings[setting] = mode
    strict = mode == RAISE and rng.random() < 0.5
    if strict:
        settings = {}
    want = res[mode]
    name = "%s-%s" % (kind.__name__, NAMES[mode])
    ctx.mark("kinds", kind.__name__)
    ctx.mark("kind-modes", name)
    ctx.count("deviations")
    where = "%r under %s" % (line, "allRaise" if strict else sorted((k, NAMES[v]) for k, v in settings.items()))
    if kind is k_blank:
        blank(ctx, rng, vcard, mode, settings, strict, name)
        ctx.seen((line, strict, sorted(settings.items()), i), True, where)
        return
    whole = rng.random() < 0.3
    with using(settings, strict):
        try:
            if whole:
                obj = (Card.parseText("BEGIN:VCARD\r\nVERSION:3.0\r\n%s\r\nEND:VCARD\r\n" % line) if vcard else
                       Calendar.parseText("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nBEGIN:X-C\r\n%s\r\nEND:X-C\r\nEND:VCALENDAR\r\n" % line))
                out = [l for l in R.lines_of(str(obj)) if l.upper().split(":")[0] not in ("BEGIN", "END", "VERSION")]
            else:
                out = R.lines_of(str((VProperty if vcard else Property).parseText(line)))
        except ErrorBase as e:
            ctx.count("raised")
            ctx.check(want is None, "refused-" + name, "%s: %s" % (where, e))
            ctx.seen((line, strict, sorted(settings.items())), True, where)
            return
    if ctx.check(want is not None, "accepted-" + name, "%s read as %s" % (where, out)):
        if ctx.check(len(out) == 1, "lines-" + name, "%s read as %s" % (where, out)):
            if kind in (k_noparam, k_base64) and mode == ALLOW or kind is k_structured and mode == ALLOW:
                # outside of what the reference reads
                same = norm(out[0]) == norm(want)
            else:
                same = canon(out[0], vcard) == canon(want, vcard)
            ctx.check(same, "differs-" + name, "%s\nread as  %s\nexpected %s" % (where, out[0], want))
    ctx.seen((line, strict, sorted(settings.items())), True, where)


def norm(line):
    """name and parameters without order"""
    head, v = split(line)
    return sorted(x.upper() for x in head), v


def split(line):
    parts, cur, q = [], "", False
    for n, c in enumerate(line):
        if c == '"':
            q = not q
        if c == ";" and not q:
            parts.append(cur)
            cur = ""
        elif c == ":" and not q:
            return parts + [cur], line[n + 1:]
        else:
            cur += c
    raise ValueError(line)


def blank(ctx, rng, vcard, mode, settings, strict, name):
    model = V.card(rng) if vcard else G.calendar(rng, size=1)
    text = R.write(rng, model, vcard)
    nl = "\r\n" if "\r\n" in text else "\n"
    ls = text.split(nl)[:-1]
    # not between a line and its continuation
    places = [n for n in range(len(ls) + 1) if n == len(ls) or ls[n][:1] not in " \t"]
    for n in sorted(rng.sample(places, rng.randint(1, min(3, len(places)))), reverse=True):
        ls[n:n] = [""] * rng.choice([1, 1, 2])
    data = nl.join(ls) + nl
    how = rng.randrange(3)
    with using(settings, strict):
        try:
            if how == 0:
                out = str((Card if vcard else Calendar).parseText(data))
            elif how == 1:
                out = str((Card if vcard else Calendar).parseData(StringIO(data)))
            elif vcard:
                out = "".join(map(str, Card.parseMultipleTextData(data)))
            else:
                # reads up to the end of the calendar
                while ls and not ls[-1]:
                    del ls[-1]
                if "" not in ls:
                    return
                cal = Calendar(add_defaults=False)
                cal.parseComponent(StringIO(nl.join(ls) + nl))
                out = None
                got = sorted(R.canon("BEGIN:VCALENDAR\r\n" + "".join(str(c) for c in cal.getComponents()) + "END:VCALENDAR\r\n")[0][2])
        except ErrorBase as e:
            ctx.count("raised")
            ctx.check(mode == RAISE, "refused-" + name, "%s\n%s" % (e, data))
            return
    if ctx.check(mode != RAISE, "accepted-" + name, "%d\n%s" % (how, data)):
        if out is None:
            ctx.check(got == sorted(model[2]), "differs-" + name, data)
        else:
            got = R.canon(out, vcard)[0]
            ctx.check(got == model, "differs-" + name, "%s\n%s" % (R.diff(model, got), data))


def mixed(ctx, rng, i):
    """several deviations in a whole object; everything else stays as it is"""
    vcard = rng.random() < 0.5
    model = V.card(rng) if vcard else G.calendar(rng, size=1)
    name, props, comps = model
    settings = anysettings(rng)
    settings["VCARD_2_NO_PARAMETER_VALUES"] = rng.choice([IGNORE, FIX, RAISE])
    settings["INVALID_ADR_N_VALUES"] = rng.choice([FIX, RAISE])
    lines, extra, refused = [], [], False
    for _ in range(rng.randint(1, 3)):
        while True:
            kind = rng.choice([k for k in KINDS if k not in (k_blank, k_base64)])
            v, line, res, setting = kind(rng)
            if v == vcard and settings[setting] in res:
                break
        lines.append(line)
        if res[settings[setting]] is None:
            refused = True
        else:
            extra.append(canon(res[settings[setting]], vcard))
    text = R.write(rng, model, vcard)
    ls = R.lines_of(text)
    if vcard:
        for l in lines:
            ls.insert(rng.randint(1, len(ls) - 1), l)
        want = R.comp(name, list(props) + extra, comps)
    else:
        ls[-1:-1] = ["BEGIN:X-DEV"] + lines + ["END:X-DEV"]
        want = R.comp(name, props, list(comps) + [R.comp("X-DEV", extra, [])])
    data = "\r\n".join(ls) + "\r\n"
    with using(settings):
        try:
            out = str((Card if vcard else Calendar).parseText(data))
        except ErrorBase as e:
            ctx.count("raised")
            ctx.check(refused, "mixed-refused", "%s\nunder %s\n%s" % (e, settings, data))
            ctx.seen((data, sorted(settings.items())), True, data)
            return
    if ctx.check(not refused, "mixed-accepted", "under %s\n%s" % (settings, data)):
        got = R.canon(out, vcard)[0]
        ctx.check(got == want, "mixed-differs", "%s\nunder %s\n%s" % (R.diff(want, got), settings, data))
    ctx.seen((data, sorted(settings.items())), True, data)
