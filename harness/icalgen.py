# -*- coding: utf-8 -*-
"""Random calendars as reference models (see refical), free of anything the specifications leave open."""
import refical as R

WORDS = ["meeting", "Team, sync", "a;b", "back\\slash", "c:\\new\\name", "say \"hi\"", "caf\xc3\xa9", "\xe4\xbc\x9a\xe8\xad\xb0", "\xf0\x9f\x8e\x89", "line\nbreak", "\n", "tail\\", "\\n", "\\,", ",", ";",
         "a,b,c", "BEGIN:VEVENT", "\nEND:VCALENDAR\n", "  spaces  ", "tab\there", "100%", "^caret^n", "=eq", "http://x/?a=b;c=d", "", "x" * 80, "\xc3\xa9" * 60, "\xf0\x9f\x98\x80" * 30, "<b>&amp;</b>"]
PWORDS = ["plain", "two words", "a,b", "a;b", "a:b", "say \"hi\"", "\"", "caf\xc3\xa9", "\xe4\xbc\x9a\xe8\xad\xb0", "line\nbreak", "^", "^n", "^'x", "^^", "mailto:u@example.com", "http://x/?q=1;r=2,3", "c:\\dir\\f",
          "y" * 78, "\xc3\xa9\xf0\x9f\x8e\x89" * 12, " lead", "trail ", "a=b", "<&>'"]
PNAMES = ["X-P", "CN", "LANGUAGE", "ALTREP", "X-LIST", "DELEGATED-TO", "MEMBER", "DIR", "ROLE", "PARTSTAT", "SENT-BY", "FMTTYPE"]
ATOMS = "abcdefghijklmnopqrstuvwxyz0123456789"


def text(rng):
    return "".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2, 3, 6])))


def atom(rng, n=6):
    return "".join(rng.choice(ATOMS) for _ in range(n))


def params(rng, p=0.3):
    res = {}
    while rng.random() < p:
        res.setdefault(rng.choice(PNAMES), tuple(sorted(rng.choice(PWORDS) for _ in range(rng.choice([1, 1, 1, 2, 3])))))
    return res


def date(rng):
    y = rng.choice([1971, 1999, 2000, 2011, 2012, 2024, 2037, 2100, 1900, rng.randint(1800, 2200)])
    m = rng.randint(1, 12)
    return (y, m, rng.choice([1, 28, rng.randint(1, 28)]))


def datetime(rng, z=None):
    return date(rng) + (rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 30, 59]), rng.choice([0, 0, 59]), z if z is not None else rng.choice(["", "Z"]))


def seconds(rng):
    return rng.choice([0, 1, 59, 60, 3600, 86400, 604800, 86399, 90061, 1209600, rng.randint(0, 3000000)])


def duration(rng):
    return seconds(rng) * rng.choice([1, 1, -1])


def period(rng):
    s = datetime(rng, rng.choice(["", "Z"]))
    if rng.random() < 0.5:
        return (s, rng.choice([60, 3600, 86400, 5400, 604800]))
    return (s, (s[0] + 1,) + s[1:])


def recur(rng):
    d = {"FREQ": rng.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])}
    if rng.random() < 0.3:
        d["INTERVAL"] = rng.choice([2, 3, 10, 99])
    r = rng.random()
    if r < 0.3:
        d["COUNT"] = rng.choice([1, 2, 10, 1000])
    elif r < 0.6:
        d["UNTIL"] = rng.choice([date, datetime])(rng)
    days = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]
    for k, lo, hi in (("BYSECOND", 0, 59), ("BYMINUTE", 0, 59), ("BYHOUR", 0, 23), ("BYMONTH", 1, 12), ("BYMONTHDAY", -31, 31), ("BYYEARDAY", -366, 366), ("BYWEEKNO", -53, 53), ("BYSETPOS", -5, 5)):
        if rng.random() < 0.15:
            d[k] = tuple(sorted(set(rng.choice([lo, hi, rng.randint(lo, hi)]) or (1 if lo else 0) for _ in range(rng.randint(1, 4)))))
    if rng.random() < 0.3:
        d["BYDAY"] = tuple(sorted(set((rng.choice([0, 0, 1, -1, 2, -5]) if d["FREQ"] in ("MONTHLY", "YEARLY") else 0, rng.choice(days)) for _ in range(rng.randint(1, 4)))))
    if rng.random() < 0.2:
        d["WKST"] = rng.choice(days[1:])
    return tuple(sorted(d.items()))


def number(rng):
    return rng.choice(["0", "1", "-1", "1.5", "-0.25", "37.386013", "-122.082932", "0.000001", "123456789.125", "%d.%d" % (rng.randint(-180, 180), rng.randint(1, 10 ** rng.randint(1, 7)))])


def value(rng, vtype, z=None):
    if vtype == "TEXT":
        return text(rng)
    if vtype == "UNKNOWN":
        return rng.choice(["raw", "raw;a=b,c:d", "1,2;3", "esc\\,aped\\nraw", "", "\xc3\xa9t\xc3\xa9", "z" * 200])
    if vtype == "URI":
        return rng.choice(["http://example.com/a?b=c;d,e", "mailto:x@example.com", "urn:uuid:" + atom(rng), "data:text/plain;base64,AAAA==", "http://example.com/" + "p" * 90, "ftp://h/%20x"])
    if vtype == "CAL-ADDRESS":
        return rng.choice(["mailto:user%s@example.com" % atom(rng, 2), "urn:x-uid:" + atom(rng), "MAILTO:Me@Example.com", "http://example.com/principals/" + "u" * 70, "/a,b;c"])
    if vtype == "BINARY":
        return rng.choice(["AAEC", "", "QUJDRA==", "/+8=" * 40])
    if vtype == "BOOLEAN":
        return rng.choice(["TRUE", "FALSE"])
    if vtype == "TIME":
        return rng.choice(["120000", "235959Z"])
    if vtype == "INTEGER":
        return rng.choice([0, 1, 5, 9, 100, -3, 2147483647, -2147483647])
    if vtype == "FLOAT":
        return R.c_float(number(rng)) if False else number(rng)
    if vtype == "GEO":
        return (number(rng), number(rng))
    if vtype == "DATE":
        return date(rng)
    if vtype == "DATE-TIME":
        return datetime(rng, z)
    if vtype == "DURATION":
        return duration(rng)
    if vtype == "PERIOD":
        return period(rng)
    if vtype == "RECUR":
        return recur(rng)
    if vtype == "UTC-OFFSET":
        return rng.choice([-1, 1]) * (rng.choice([0, 1, 5, 9, 13]) * 3600 + rng.choice([0, 0, 30, 45]) * 60 + rng.choice([0, 0, 0, 28]))
    if vtype == "REQUEST-STATUS":
        return tuple([rng.choice(["2.0", "3.1", "4.1.2"]), text(rng)] + ([text(rng) or "x"] if rng.random() < 0.5 else []))
    raise KeyError(vtype)


ALT = {"ATTACH": ["URI", "BINARY"], "DTSTART": ["DATE-TIME", "DATE"], "EXDATE": ["DATE-TIME", "DATE"], "RDATE": ["DATE-TIME", "DATE", "PERIOD"], "TRIGGER": ["DURATION", "DATE-TIME"], "RECURRENCE-ID": ["DATE-TIME", "DATE"],
       "DUE": ["DATE-TIME", "DATE"], "DTEND": ["DATE-TIME", "DATE"]}
XTYPES = ["UNKNOWN", "UNKNOWN", "TEXT", "TEXT", "URI", "CAL-ADDRESS", "BINARY", "BOOLEAN", "TIME", "INTEGER", "FLOAT", "DATE", "DATE-TIME", "DURATION", "PERIOD", "RECUR", "UTC-OFFSET"]
ZONES = ["America/New_York", "Europe/London", "Test/Own", "/example.com/Strange Zone"]


def prop(rng, name, vtype=None, extra=None, ps=0.3):
    dflt = R.DEFAULT.get(name)
    if vtype is None:
        vtype = rng.choice(ALT[name]) if name in ALT else dflt if dflt else rng.choice(XTYPES)
    par = params(rng, ps)
    z = None
    if vtype in ("DATE-TIME", "PERIOD") and rng.random() < 0.4 and dflt == "DATE-TIME" and name not in ("DTSTAMP", "CREATED", "COMPLETED", "LAST-MODIFIED", "ACKNOWLEDGED"):
        par["TZID"] = (rng.choice(ZONES),)
        z = ""
    elif name in ("DTSTAMP", "CREATED", "COMPLETED", "LAST-MODIFIED", "ACKNOWLEDGED"):
        z = "Z"
    if vtype == "BINARY":
        par["ENCODING"] = ("BASE64",)
    par.update(extra or {})
    if name in R.MULTI:
        n = rng.choice([1, 1, 2, 3, 3, 8, 14])
        val = tuple(value(rng, vtype, z) for _ in range(n))
        if vtype == "TEXT" and n == 1 and not val[0]:
            val = ("x",)
        if z == "" and vtype == "PERIOD":
            val = tuple((a[:6] + ("",), b if not isinstance(b, tuple) else b[:6] + ("",)) for a, b in val)
    else:
        val = value(rng, vtype, z)
    return norm((name, tuple(sorted(par.items())), vtype, val))


def norm(p):
    """numbers in the reader's canonical form"""
    name, par, vtype, val = p
    if vtype == "FLOAT":
        val = R.c_float(val)
    elif vtype == "GEO":
        val = tuple(R.c_float(x) for x in val)
    return (name, par, vtype, val)


COMMON = ["CATEGORIES", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "RESOURCES", "STATUS", "SUMMARY", "ATTACH", "ATTENDEE", "ORGANIZER", "CONTACT", "RELATED-TO", "URL", "PRIORITY", "SEQUENCE", "GEO",
          "REQUEST-STATUS", "CREATED", "LAST-MODIFIED", "X-UNTYPED", "X-FOO", "X-BAR", "IANA-THING", "TRANSP"]
SINGLE = set("CLASS DESCRIPTION LOCATION STATUS SUMMARY ORGANIZER URL PRIORITY SEQUENCE GEO CREATED LAST-MODIFIED TRANSP DTSTAMP UID DTSTART DTEND DURATION DUE RECURRENCE-ID COMPLETED PERCENT-COMPLETE".split())


def some(rng, names, n, ps=0.3):
    res = []
    for _ in range(n):
        name = rng.choice(names)
        if name in SINGLE and any(p[0] == name for p in res):
            continue
        p = prop(rng, name, ps=ps)
        if name == "SEQUENCE":
            p = ("SEQUENCE", p[1], "INTEGER", int(abs(p[3]) % 1000))
        elif name == "STATUS":
            p = ("STATUS", p[1], "TEXT", rng.choice(["CONFIRMED", "TENTATIVE", "CANCELLED", "NEEDS-ACTION", "DRAFT"]))
        res.append(p)
    return res


def times(rng, kind):
    """consistent start/end properties"""
    res = []
    r = rng.random()
    if r < 0.3:
        d = date(rng)
        res.append(("DTSTART", (), "DATE", d))
        if rng.random() < 0.6:
            if kind == "VEVENT" and rng.random() < 0.6:
                res.append(("DTEND", (), "DATE", (d[0] + 1,) + d[1:]))
            else:
                res.append(("DURATION", (), "DURATION", rng.choice([86400, 172800, 604800])))
    else:
        z = rng.choice(["", "Z", "tz"])
        par = (("TZID", (rng.choice(ZONES),)),) if z == "tz" else ()
        d = datetime(rng, "" if z == "tz" else z)
        res.append(("DTSTART", par, "DATE-TIME", d))
        k = rng.random()
        if k < 0.4:
            res.append(({"VEVENT": "DTEND", "VTODO": "DUE"}.get(kind, "DTEND"), par, "DATE-TIME", (d[0] + 1,) + d[1:]))
        elif k < 0.7:
            res.append(("DURATION", (), "DURATION", rng.choice([1, 60, 3600, 5400, 86400, 90000])))
    return res


def alarm(rng):
    ps = []
    act = rng.choice(["AUDIO", "DISPLAY", "EMAIL", "PROCEDURE", "X-OTHER", "URI"])
    ps.append(("ACTION", (), "TEXT", act))
    t = prop(rng, "TRIGGER", rng.choice(["DURATION", "DURATION", "DATE-TIME"]), ps=0)
    if t[2] == "DATE-TIME":
        t = ("TRIGGER", (), "DATE-TIME", t[3][:6] + ("Z",))
    elif rng.random() < 0.4:
        t = ("TRIGGER", (("RELATED", (rng.choice(["START", "END"]),)),), "DURATION", t[3])
    ps.append(t)
    if rng.random() < 0.4:
        ps += [("REPEAT", (), "INTEGER", rng.choice([1, 2, 5])), ("DURATION", (), "DURATION", rng.choice([60, 300, 86400]))][rng.choice([0, 0, 0, 1]):]
    if act in ("DISPLAY", "EMAIL"):
        ps.append(prop(rng, "DESCRIPTION"))
    if act == "EMAIL":
        ps += [prop(rng, "SUMMARY")] + [prop(rng, "ATTENDEE") for _ in range(rng.randint(1, 3))]
    if act in ("AUDIO", "PROCEDURE", "EMAIL") and rng.random() < 0.5:
        ps.append(prop(rng, "ATTACH"))
    if rng.random() < 0.4:
        ps.append(("UID", (), "TEXT", atom(rng)))
    ps += some(rng, ["X-FOO", "X-BAR", "IANA-THING"], rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.2:
        ps.append(prop(rng, "ACKNOWLEDGED", ps=0))
    return R.comp("VALARM", ps, [])


def unknown(rng, depth=0):
    ps = some(rng, COMMON + ["DTSTART", "DURATION", "RRULE"], rng.randint(0, 5))
    kids = [unknown(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 2]) if depth < 2 else 0)]
    return R.comp(rng.choice(["X-THING", "X-OTHER", "IANA-COMP"]), ps, kids)


def timezone(rng, tzid):
    obs = []
    for k in range(rng.choice([1, 2, 2, 3])):
        ps = [("DTSTART", (), "DATE-TIME", datetime(rng, "")), ("TZOFFSETFROM", (), "UTC-OFFSET", value(rng, "UTC-OFFSET")), ("TZOFFSETTO", (), "UTC-OFFSET", value(rng, "UTC-OFFSET"))]
        if rng.random() < 0.7:
            ps.append(prop(rng, "TZNAME"))
        if rng.random() < 0.6:
            ps.append(("RRULE", (), "RECUR", (("BYDAY", ((rng.choice([1, 2, -1]), "SU"),)), ("BYMONTH", (rng.randint(1, 12),)), ("FREQ", "YEARLY"))))
        elif rng.random() < 0.5:
            ps.append(("RDATE", (), "DATE-TIME", tuple(datetime(rng, "") for _ in range(rng.randint(1, 3)))))
        ps += some(rng, ["COMMENT", "X-FOO"], rng.choice([0, 0, 1]))
        obs.append(R.comp(rng.choice(["STANDARD", "DAYLIGHT"]), ps, []))
    ps = [("TZID", (), "TEXT", tzid)]
    if rng.random() < 0.3:
        ps.append(prop(rng, "LAST-MODIFIED", ps=0))
    if rng.random() < 0.3:
        ps.append(prop(rng, "TZURL", ps=0))
    ps += some(rng, ["X-FOO"], rng.choice([0, 0, 1]))
    return R.comp("VTIMEZONE", ps, obs)


def recurring(rng, kind, uid=None, rid=None):
    ps = [("UID", (), "TEXT", uid or (atom(rng, 8) + rng.choice(["", "@example.com", "-A,B;C"]))), prop(rng, "DTSTAMP", ps=0)]
    if rid:
        ps.append(rid)
    if kind != "VFREEBUSY":
        ps += times(rng, kind) if rng.random() < 0.95 else []
        if not rid:
            while rng.random() < 0.3:
                ps.append(("RRULE", (), "RECUR", recur(rng)))
            if rng.random() < 0.1:
                ps.append(("EXRULE", (), "RECUR", recur(rng)))
            while rng.random() < 0.25:
                ps.append(prop(rng, rng.choice(["RDATE", "EXDATE"]), ps=0.1))
    have = set(p[0] for p in ps)
    more = some(rng, COMMON + (["PERCENT-COMPLETE", "COMPLETED"] if kind == "VTODO" else []), rng.choice([0, 2, 4, 8]))
    ps += [p for p in more if p[0] not in have]
    kids = []
    if kind in ("VEVENT", "VTODO"):
        kids = [alarm(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    if kind == "VFREEBUSY":
        s = datetime(rng, "Z")
        ps += [("DTSTART", (), "DATE-TIME", s), ("DTEND", (), "DATE-TIME", (s[0] + 1,) + s[1:])]
        for _ in range(rng.choice([0, 1, 2])):
            p = prop(rng, "FREEBUSY", extra={"FBTYPE": (rng.choice(["BUSY", "FREE", "BUSY-TENTATIVE", "BUSY-UNAVAILABLE"]),)}, ps=0.1)
            fb = tuple((a[:6] + ("Z",), b if not isinstance(b, tuple) else b[:6] + ("Z",)) for a, b in p[3])
            ps.append((p[0], p[1], p[2], fb))
    return R.comp(kind, ps, kids)


def availability(rng):
    ps = [("UID", (), "TEXT", atom(rng)), prop(rng, "DTSTAMP", ps=0)] + times(rng, "VEVENT")
    kids = []
    for _ in range(rng.choice([0, 1, 3])):
        kids.append(R.comp("AVAILABLE", [("UID", (), "TEXT", atom(rng)), prop(rng, "DTSTAMP", ps=0)] + times(rng, "VEVENT") + some(rng, ["SUMMARY", "X-FOO", "COMMENT"], 2), []))
    return R.comp("VAVAILABILITY", ps + some(rng, ["SUMMARY", "X-FOO", "COMMENT"], 2), kids)


def poll(rng):
    ps = [("UID", (), "TEXT", atom(rng)), prop(rng, "DTSTAMP", ps=0), prop(rng, "ORGANIZER"), ("POLL-MODE", (), "TEXT", "BASIC"), prop(rng, "POLL-PROPERTIES")]
    kids = []
    ids = rng.sample(range(10), rng.randint(1, 4))
    for v in range(rng.randint(0, 3)):
        votes = [R.comp("VOTE", [("POLL-ITEM-ID", (), "INTEGER", i), ("RESPONSE", (), "INTEGER", rng.randint(0, 100))] + some(rng, ["COMMENT"], 1), []) for i in rng.sample(ids, rng.randint(0, len(ids)))]
        kids.append(R.comp("VVOTER", [prop(rng, "VOTER"), prop(rng, "DTSTAMP", ps=0)] + some(rng, ["COMMENT", "X-FOO"], 1), votes))
    for i in ids:
        ev = recurring(rng, rng.choice(["VEVENT", "VTODO"]))
        kids.append(R.comp(ev[0], list(ev[1]) + [("POLL-ITEM-ID", (), "INTEGER", i)], ev[2]))
    return R.comp("VPOLL", ps, kids)


def calendar(rng, size=None):
    ps = [("VERSION", (), "TEXT", "2.0"), ("PRODID", (), "TEXT", rng.choice(["-//mulberrymail.com//Mulberry v4.0//EN", "-//x, y; z//EN"]))]
    if rng.random() < 0.3:
        ps.append(("CALSCALE", (), "TEXT", "GREGORIAN"))
    if rng.random() < 0.3:
        ps.append(("METHOD", (), "TEXT", rng.choice(["PUBLISH", "REQUEST"])))
    if rng.random() < 0.3:
        ps.append(prop(rng, "X-WR-CALNAME"))
    if rng.random() < 0.2:
        ps.append(prop(rng, "X-WR-CALDESC"))
    ps += some(rng, ["X-FOO", "X-UNTYPED", "X-BAR"], rng.choice([0, 0, 1, 2]))
    kids = []
    for z in rng.sample(ZONES[2:], rng.choice([0, 0, 1, 2])):
        kids.append(timezone(rng, z))
    for _ in range(rng.choice([1, 1, 2, 4]) if size is None else size):
        k = rng.choice(["VEVENT"] * 4 + ["VTODO", "VTODO", "VJOURNAL", "VFREEBUSY", "avail", "poll", "unknown"])
        if k == "avail":
            kids.append(availability(rng))
        elif k == "poll":
            kids.append(poll(rng))
        elif k == "unknown":
            kids.append(unknown(rng))
        else:
            c = recurring(rng, k)
            kids.append(c)
            if k != "VFREEBUSY":
                uid = [p[3] for p in c[1] if p[0] == "UID"][0]
                for _o in range(rng.choice([0, 0, 0, 1, 2])):
                    kids.append(recurring(rng, k, uid, prop(rng, "RECURRENCE-ID", ps=0, extra={"RANGE": ("THISANDFUTURE",)} if rng.random() < 0.2 else None)))
    return R.comp("VCALENDAR", ps, kids)


def api_value(p):
    """the value the library's own accessors give for a parsed property, in the reader's canonical form"""
    v = p.getValue()
    return obj_value(v)


def dt_obj(d):
    if d.isDateOnly():
        return (d.getYear(), d.getMonth(), d.getDay())
    return (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(), "Z" if d.getTimezoneUTC() else off(d.getTimezoneID()))


def off(z):
    return "%s%02d%02d" % ("-" if z < 0 else "+", abs(z) // 3600, abs(z) // 60 % 60) if isinstance(z, int) else ""


def zones(v):
    """the time zone identifier of each date-time in a parsed value, those in UTC and dates left out; None for floating time"""
    n = v.__class__.__name__
    x = v.getValue()
    if n == "MultiValue":
        return [z for y in x for z in zones(y)]
    if n == "DateTimeValue":
        return [] if x.isDateOnly() or x.utc() else [x.getTimezoneID()]
    if n == "PeriodValue":
        ends = (x.getStart(),) if x.getUseDuration() else (x.getStart(), x.getEnd())
        return [y.getTimezoneID() for y in ends if not y.isDateOnly() and not y.utc()]
    return []


def obj_value(v):
    n = v.__class__.__name__
    x = v.getValue()
    if n == "MultiValue":
        return tuple(obj_value(y) for y in x)
    if n == "DateTimeValue":
        return dt_obj(x)
    if n == "DurationValue":
        return x.getTotalSeconds()
    if n == "PeriodValue":
        return (dt_obj(x.getStart()), x.getDuration().getTotalSeconds() if x.getUseDuration() else dt_obj(x.getEnd()))
    if n == "FloatValue":
        return R.c_float(repr(x) if isinstance(x, float) else str(x))
    if n == "GeoValue":
        return tuple(R.c_float(repr(y) if isinstance(y, float) else str(y)) for y in x)
    if n == "RequestStatusValue":
        return tuple(x)
    if n == "RecurrenceValue":
        return R.c_recur(x.getText())
    if n in ("N", "Adr"):
        return None
    return x
