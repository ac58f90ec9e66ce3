# -*- coding: utf-8 -*-
"""An iCalendar/vCard text model that shares nothing with the code under test: a property is (NAME, params, type, value), a component
(TYPE, props, children); a writer that spells a model in one of many allowed ways, and a reader that gives back the model."""
import re
import decimal

# ---------------------------------------------------------------- lines


def lines_of(text):
    """content lines, unfolded"""
    res = []
    for l in re.split("\r\n|\n", text):
        if l[:1] in (" ", "\t") and res:
            res[-1] += l[1:]
        else:
            res.append(l)
    return [l for l in res if l]


def split_line(line):
    """(group+name, [(pname, [values])], raw value)"""
    m = re.match(r"[^;:]*", line)
    name = m.group(0)
    i = m.end()
    params = []
    while i < len(line) and line[i] == ";":
        j = line.index("=", i)
        pname = line[i + 1:j]
        vals = []
        i = j
        while True:
            i += 1
            if i < len(line) and line[i] == '"':
                j = line.index('"', i + 1)
                vals.append(line[i + 1:j])
                i = j + 1
            else:
                j = i
                while j < len(line) and line[j] not in ",;:":
                    j += 1
                vals.append(line[i:j])
                i = j
            if i >= len(line) or line[i] != ",":
                break
        params.append((pname, [unparam(v) for v in vals]))
    if i >= len(line) or line[i] != ":":
        raise ValueError("no value in line %r" % line)
    return name, params, line[i + 1:]


def unparam(v):
    return re.sub(r"\^(['n^])", lambda m: {"'": '"', "n": "\n", "^": "^"}[m.group(1)], v)


def enparam(v):
    return v.replace("^", "^^").replace('"', "^'").replace("\n", "^n")


def untext(v):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "N": "\n", "r": "\r"}.get(m.group(1), m.group(1)), v, flags=re.S)


def entext(v):
    return v.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace(",", "\\,").replace(";", "\\;")


def _splitesc(v, sep):
    out, cur, i = [], "", 0
    while i < len(v):
        if v[i] == "\\" and i + 1 < len(v):
            cur += v[i:i + 2]
            i += 2
        elif v[i] == sep:
            out.append(cur)
            cur = ""
            i += 1
        else:
            cur += v[i]
            i += 1
    return out + [cur]

# ---------------------------------------------------------------- values: text -> canonical


def c_dt(v):
    m = re.match(r"(\d{4})-?(\d\d)-?(\d\d)(?:T(\d\d):?(\d\d):?(\d\d)(Z?|[+-]\d\d:?\d\d))?$", v)
    if not m:
        raise ValueError("bad date-time %r" % v)
    g = m.groups()
    return tuple(int(x) for x in g[:3]) if g[3] is None else tuple(int(x) for x in g[:6]) + (g[6].replace(":", ""),)


def c_dur(v):
    m = re.match(r"([+-]?)P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?$", v)
    if not m or not re.search(r"\d", v):
        raise ValueError("bad duration %r" % v)
    n = sum(int(x or 0) * k for x, k in zip(m.groups()[1:], (604800, 86400, 3600, 60, 1)))
    return -n if m.group(1) == "-" else n


def c_offset(v):
    m = re.match(r"([+-])(\d\d):?(\d\d)(?::?(\d\d))?$", v)
    if not m:
        raise ValueError("bad offset %r" % v)
    n = int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4) or 0)
    return -n if m.group(1) == "-" else n


def c_period(v):
    a, b = v.split("/")
    return (c_dt(a), c_dur(b) if b[0] in "P+-" else c_dt(b))


def c_recur(v):
    d = {}
    for part in v.split(";"):
        k, x = part.upper().split("=")
        if k == "UNTIL":
            d[k] = c_dt(x)
        elif k in ("FREQ", "WKST", "SKIP", "RSCALE"):
            d[k] = x
        elif k in ("INTERVAL", "COUNT"):
            d[k] = int(x)
        elif k == "BYDAY":
            d[k] = tuple(sorted((int(re.sub(r"[A-Z]+$", "", y) or 0), y[-2:]) for y in x.split(",")))
        else:
            d[k] = tuple(sorted(int(y) for y in x.split(",")))
    if d.get("INTERVAL") == 1:
        del d["INTERVAL"]
    if d.get("WKST") == "MO":
        del d["WKST"]
    return tuple(sorted(d.items()))


def c_struct(n):
    def f(v):
        r = tuple(tuple(untext(y) for y in _splitesc(x, ",")) for x in _splitesc(v, ";"))
        return r + (("",),) * (n - len(r))
    return f


def c_float(v):
    d = decimal.Decimal(v)
    return str(d.normalize() if d else decimal.Decimal(0))


CANON = {
    "TEXT": untext, "UNKNOWN": lambda v: v, "URI": lambda v: v, "CAL-ADDRESS": lambda v: v, "BINARY": lambda v: v, "BOOLEAN": lambda v: v, "TIME": lambda v: v,
    "INTEGER": int, "FLOAT": c_float, "DATE": c_dt, "DATE-TIME": c_dt, "DURATION": c_dur, "PERIOD": c_period, "RECUR": c_recur, "UTC-OFFSET": c_offset,
    "GEO": lambda v: tuple(c_float(x) for x in v.split(";")), "REQUEST-STATUS": lambda v: tuple(untext(x) for x in _splitesc(v, ";")),
    "N": c_struct(5), "ADR": c_struct(7),
    "ORG": lambda v: tuple(untext(x) for x in _splitesc(v, ";")),
}

DEFAULT = {}
for _t, _names in {
    "TEXT": "CALSCALE METHOD PRODID VERSION CATEGORIES CLASS COMMENT DESCRIPTION LOCATION RESOURCES STATUS SUMMARY TRANSP TZID TZNAME CONTACT RELATED-TO UID ACTION "
            "ACCEPT-RESPONSE POLL-COMPLETION POLL-MODE POLL-PROPERTIES X-WR-CALNAME X-WR-CALDESC X-WR-ALARMUID",
    "URI": "ATTACH TZURL URL", "CAL-ADDRESS": "ATTENDEE ORGANIZER VOTER", "INTEGER": "PERCENT-COMPLETE PRIORITY REPEAT SEQUENCE POLL-ITEM-ID POLL-WINNER RESPONSE",
    "DATE-TIME": "COMPLETED DTEND DUE DTSTART RECURRENCE-ID EXDATE RDATE CREATED DTSTAMP LAST-MODIFIED ACKNOWLEDGED", "DURATION": "DURATION TRIGGER",
    "PERIOD": "FREEBUSY", "UTC-OFFSET": "TZOFFSETFROM TZOFFSETTO", "RECUR": "EXRULE RRULE", "GEO": "GEO", "REQUEST-STATUS": "REQUEST-STATUS",
}.items():
    for _n in _names.split():
        DEFAULT[_n] = _t
MULTI = set("CATEGORIES RESOURCES FREEBUSY EXDATE RDATE POLL-PROPERTIES".split())
RAWTYPES = ("GEO", "REQUEST-STATUS", "N", "ADR", "ORG")

VDEFAULT = {}
for _t, _names in {
    "TEXT": "VERSION FN NICKNAME LABEL EMAIL MAILER TITLE ROLE CATEGORIES NOTE PRODID SORT-STRING UID CLASS TEL NAME PROFILE", "N": "N", "ADR": "ADR", "ORG": "ORG", "GEO": "GEO",
    "URI": "URL SOURCE", "DATE": "BDAY", "DATE-TIME": "REV", "BINARY": "PHOTO LOGO SOUND KEY", "VCARD": "AGENT", "UTC-OFFSET": "TZ",
}.items():
    for _n in _names.split():
        VDEFAULT[_n] = _t
VMULTI = set("CATEGORIES NICKNAME".split())


def canon_prop(line, vcard=False):
    name, params, raw = split_line(line)
    group = ""
    if vcard and "." in name:
        group, name = name.split(".", 1)
    name = name.upper()
    dflt = (VDEFAULT if vcard else DEFAULT).get(name)
    ptab = {}
    vtype = dflt or "UNKNOWN"
    for p, vals in params:
        p = p.upper()
        if p == "VALUE":
            vtype = vals[0].upper()
            if dflt in RAWTYPES and vtype in ("FLOAT", "TEXT"):
                vtype = dflt
        else:
            ptab.setdefault(p, []).extend(vals)
    f = CANON.get(vtype, CANON["UNKNOWN"])
    if name in (VMULTI if vcard else MULTI):
        val = tuple(f(x) for x in (_splitesc(raw, ",") if vtype == "TEXT" else raw.split(",")))
    else:
        val = f(raw)
    return (group.lower() + "." if group else "") + name, tuple(sorted((p, tuple(sorted(v))) for p, v in ptab.items())), vtype, val


def canon(text, vcard=False):
    """the component trees in a text"""
    stack = [("", [], [])]
    for l in lines_of(text):
        u = l.upper()
        if u.startswith("BEGIN:"):
            stack.append((u[6:], [], []))
        elif u.startswith("END:"):
            c = stack.pop()
            if c[0] != u[4:]:
                raise ValueError("END:%s closes %s" % (u[4:], c[0]))
            stack[-1][2].append(comp(*c))
        else:
            stack[-1][1].append(canon_prop(l, vcard))
    if len(stack) != 1 or stack[0][1]:
        raise ValueError("unbalanced text")
    return stack[0][2]


def comp(typ, props, children):
    return (typ, tuple(sorted(props, key=repr)), tuple(sorted(children, key=repr)))


def diff(a, b, path=""):
    """short description of where two component trees differ"""
    if a[0] != b[0]:
        return "%s: type %s / %s" % (path, a[0], b[0])
    path = path + "/" + a[0]
    la, lb = list(a[1]), list(b[1])
    for x in list(la):
        if x in lb:
            la.remove(x)
            lb.remove(x)
    if la or lb:
        return "%s: expected %r, got %r" % (path, la[:3], lb[:3])
    la, lb = list(a[2]), list(b[2])
    for x in list(la):
        if x in lb:
            la.remove(x)
            lb.remove(x)
    if la and lb and len(la) == len(lb):
        k = [y for y in lb if y[0] == la[0][0]] or lb
        return diff(la[0], k[0], path)
    return "%s: components expected %r, got %r" % (path, [str(x)[:200] for x in la], [str(x)[:200] for x in lb])

# ---------------------------------------------------------------- values: canonical -> text


def w_dt(v):
    return "%04d%02d%02d" % v if len(v) == 3 else "%04d%02d%02dT%02d%02d%02d%s" % v


def w_dur(rng, n):
    s = "-" if n < 0 else rng.choice(["", "", "", "+"])
    n = abs(n)
    if n % 604800 == 0 and n and rng.random() < 0.7:
        return s + "P%dW" % (n // 604800)
    d, r = divmod(n, 86400)
    if rng.random() < 0.15:
        d, r = 0, n
    h, r2 = divmod(r, 3600)
    if rng.random() < 0.15:
        h, r2 = 0, r
    m, sec = divmod(r2, 60)
    t = ("%dH" % h if h else "") + ("%dM" % m if m or (h and sec) else "") + ("%dS" % sec if sec else "")
    if not t and not d:
        t = "0S"
    return s + "P" + ("%dD" % d if d else "") + ("T" + t if t else "")


def w_offset(n, vcard=False, rng=None):
    s = "-" if n < 0 else "+"
    n = abs(n)
    c = ":" if vcard else ""
    return "%s%02d%s%02d" % (s, n // 3600, c, n // 60 % 60) + ("%s%02d" % (c, n % 60) if n % 60 else "")


def w_recur(rng, v):
    d = dict(v)
    keys = [k for k in d if k != "FREQ"]
    rng.shuffle(keys)
    out = ["FREQ=" + d["FREQ"]]
    for k in keys:
        x = d[k]
        if k == "UNTIL":
            x = w_dt(x)
        elif k == "BYDAY":
            x = ",".join(("%s%d" % (rng.choice(["", "+"]) if n > 0 else "", n) if n else "") + w for n, w in rng.sample(x, len(x)))
        elif isinstance(x, tuple):
            x = ",".join(str(y) for y in rng.sample(x, len(x)))
        out.append("%s=%s" % (k, x))
    if rng.random() < 0.1 and "INTERVAL" not in d:
        out.append("INTERVAL=1")
    if rng.random() < 0.1 and "WKST" not in d:
        out.append("WKST=MO")
    return ";".join(out)


def w_value(rng, vtype, v, vcard=False):
    if vtype == "TEXT":
        t = entext(v)
        if rng.random() < 0.1:
            t = t.replace("\\n", "\\N") if "\\\\" not in t else t
        return t
    if vtype in ("UNKNOWN", "URI", "CAL-ADDRESS", "BINARY", "BOOLEAN", "TIME", "PHONE-NUMBER", "VCARD"):
        return v
    if vtype == "INTEGER":
        return str(v)
    if vtype == "FLOAT":
        return v
    if vtype == "GEO":
        return ";".join(v)
    if vtype in ("DATE", "DATE-TIME"):
        if vcard and rng.random() < 0.5:
            return ("%04d-%02d-%02d" if len(v) == 3 else "%04d-%02d-%02dT%02d:%02d:%02d%s") % v
        return w_dt(v)
    if vtype == "DURATION":
        return w_dur(rng, v)
    if vtype == "PERIOD":
        return w_dt(v[0]) + "/" + (w_dt(v[1]) if isinstance(v[1], tuple) else w_dur(rng, v[1]))
    if vtype == "RECUR":
        return w_recur(rng, v)
    if vtype == "UTC-OFFSET":
        return w_offset(v, vcard)
    if vtype in ("REQUEST-STATUS", "ORG"):
        return ";".join(entext(x) for x in v)
    if vtype in ("N", "ADR"):
        v = list(v)
        while len(v) > 1 and v[-1] == ("",) and rng.random() < 0.3:
            v.pop()
        return ";".join(",".join(entext(y) for y in x) for x in v)
    return v


def w_prop(rng, p, vcard=False):
    name, params, vtype, val = p
    group = ""
    if vcard and "." in name:
        group, name = name.split(".", 1)
    dflt = (VDEFAULT if vcard else DEFAULT).get(name)
    plist = [(k, list(v)) for k, v in params]
    if vtype != (dflt or "UNKNOWN") or (dflt == vtype and vtype not in RAWTYPES + ("VCARD",) and not (vcard and vtype == "UTC-OFFSET") and rng.random() < 0.1):
        plist.append(("VALUE", [vtype]))
    rng.shuffle(plist)
    out = name
    if rng.random() < 0.05:
        out = rng.choice([name.lower(), name.title()])
    if group:
        out = group + "." + out
    for k, vals in plist:
        if rng.random() < 0.05:
            k = k.lower()
        if len(vals) > 1 and rng.random() < 0.2 and k != "VALUE":
            groups = [[x] for x in vals]
        else:
            groups = [vals]
        for g in groups:
            ws = []
            for x in g:
                x = enparam(x)
                if re.search("[,;:]", x) or x[:1] == " " or (rng.random() < 0.15 and not x.endswith("\\") and "\\^'" not in x):
                    x = '"%s"' % x
                ws.append(x)
            out += ";%s=%s" % (k, ",".join(ws))
    if name in (VMULTI if vcard else MULTI):
        body = ",".join(w_value(rng, vtype, x, vcard) for x in val)
    else:
        body = w_value(rng, vtype, val, vcard)
    return out + ":" + body


def fold(rng, line, nl, mode):
    if mode == 0:
        return line + nl
    out = ""
    width = 75
    if mode == 2:
        width = rng.choice([10, 20, 40, 74])
    while len(line) > width:
        k = width
        if mode == 1:
            # not inside a UTF-8 sequence
            while k > 1 and "\x80" <= line[k] <= "\xbf":
                k -= 1
        elif mode == 2:
            k = rng.randint(1, width)
        out += line[:k] + nl + rng.choice([" ", " ", "\t"])
        line = line[k:]
    return out + line + nl


def write(rng, c, vcard=False, mixed=False):
    """one spelling of a component tree"""
    nl = rng.choice(["\r\n", "\r\n", "\n"])
    mode = rng.choice([0, 1, 1, 2])
    lines = []

    def delim(s):
        # names of components can be in any case
        return rng.choice([s.lower(), s.capitalize(), s[:6] + s[6:].lower(), s]) if mixed and rng.random() < 0.1 else s

    def rec(c):
        lines.append(delim("BEGIN:" + c[0]))
        props = list(c[1])
        rng.shuffle(props)
        kids = list(c[2])
        rng.shuffle(kids)
        seq = props + kids if rng.random() < 0.9 else rng.sample(props + kids, len(props) + len(kids))
        for x in seq:
            if len(x) == 4:
                lines.append(w_prop(rng, x, vcard))
            else:
                rec(x)
        lines.append(delim("END:" + c[0]))
    rec(c)
    return "".join(fold(rng, l, nl, mode) for l in lines)
