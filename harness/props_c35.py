# -*- coding: utf-8 -*-
"""C35: the command line tools."""
import datetime as D
import os
import re
import shutil
import sys
import traceback
from cStringIO import StringIO
import refical as R
import icalgen as G
import vcardgen as V
import refrrule as Q
import reftz as Z
import props_c18 as P18
import props_c19 as P19
from refcal import posix
from vskip import Skip
from pycalendar.exceptions import ErrorBase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase as DB
from pycalendar.parser import ParserContext

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
RULE = ("tzdump, tzverify, validator and instances run as programs (their own argument handling included) in the process, on files made from reference models: zone histories dumped over random years and compared with the reference onsets; "
        "pairs of directories of zone files with equal, reordered, changed, missing and empty-change zones; calendars and cards, sound, broken and with control characters, validated; rules listed for a hundred years; distinct by input")
REQUIRE = {"dumps": 100, "onsets": 3000, "compared": 150, "matched": 40, "differing": 20, "missing": 20, "null onsets": 20, "clean": 40, "problems": 30, "failed": 60, "controls": 40, "rules": 150, "instances": 5000, "lame zones": 10, "usage": 5}
PLAN = [("dump", 130, 4000), ("verify", 100, 3000), ("validate", 360, 10000), ("instances", 320, 8000)]
ASSUMPTIONS = ["onsets on the first of January of the years asked for are not judged (the range is stated in years)",
               "tzverify says nothing about a transition at the very start of the range, and leaves out transitions that change nothing"]

CODE = {}
STATE = {}


def setup(ctx):
    P18.setup(ctx)
    sys.path[:0] = [os.path.join(SRC, "zonal")]
    for n in ("zonal/tzdump.py", "zonal/tzverify.py", "pycalendar/validator.py", "pycalendar/instances.py"):
        p = os.path.normpath(os.path.join(SRC, n))
        with open(p) as f:
            CODE[os.path.basename(p)[:-3]] = compile(f.read(), p, "exec")
    STATE.update((k, getattr(ParserContext, k)) for k in dir(ParserContext) if k[0].isupper())


def run(tool, *args):
    """what the program printed, and how it ended (None, an exit code or the exception)"""
    out, argv, was = StringIO(), sys.argv, sys.stdout
    end = None
    sys.argv = [tool] + list(args)
    sys.stdout = out
    try:
        exec(CODE[tool], {"__name__": "__main__", "__file__": tool})
    except SystemExit as e:
        end = e.code or 0
    except Exception as e:
        end = e
        e.where = traceback.format_exc()
    finally:
        sys.stdout = was
        sys.argv = argv
        for k in dir(ParserContext):
            if k[0].isupper():
                if k in STATE:
                    setattr(ParserContext, k, STATE[k])
                else:
                    delattr(ParserContext, k)
    return out.getvalue(), end


def put(path, text):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as f:
        f.write(text)


def hms(s):
    a = abs(s)
    return ("-" if s < 0 else "") + "%02d:%02d" % (a // 3600, a // 60 % 60) + (":%02d" % (a % 60) if a % 60 else "")


def shown(o):
    return "(%s, %s, %s, %s)" % (iso(o[1], "T"), iso(o[0], "TZ"), hms(o[2]), hms(o[3]))


def listed(s):
    return re.findall(r"\([^)]*\)", s)


def within(zone, a, b):
    return [o for o in zone.onsets if D.datetime(a, 1, 1) <= o[1] < D.datetime(b, 1, 1)]


def edge(zone, *years):
    return any(o[1].month == 1 and o[1].day == 1 and o[1].year in years for o in zone.onsets)


def the_zone(rng, tzid):
    k = rng.randrange(8)
    return Z.eastern(tzid) if k == 0 else Z.sydney(tzid) if k == 1 else Z.fixed(tzid, 900 * rng.randint(-40, 40)) if k == 2 else Z.make_zone(rng, tzid)


def years(rng, zone):
    first = zone.first[1].year
    a = rng.choice([first - 1, first + 1, 1899, rng.randint(first, 2020), rng.randint(1900, 2030)])
    return a, a + rng.choice([0, 1, 2, 5, 20, 60, 100])


def usage(ctx, rng, tool, right):
    ctx.count("usage")
    out, end = run(tool, "-h")
    ctx.check(end == 0 and out.startswith("Usage: %s " % tool), "usage", lambda: "%s -h ended with %r and printed %r" % (tool, end, out))
    args = list(right[:-1]) if rng.random() < 0.5 else list(right) + ["more"]
    out, end = run(tool, *args)
    ctx.check(isinstance(end, ValueError) and "Usage: %s " % tool in out, "usage", lambda: "%s %r ended with %r and printed %r" % (tool, args, end, out))


def dump(ctx, rng, i):
    zone = the_zone(rng, rng.choice(["Test/One", "Two", "Etc/GMT+3", "A/B/C"]))
    a, b = years(rng, zone)
    args = []
    if rng.random() < 0.8:
        args += ["--start", str(a)] if rng.random() < 0.5 else ["--start=%d" % a]
    else:
        a = 1918
    if rng.random() < 0.8:
        args += ["--end", str(b)] if rng.random() < 0.5 else ["--end=%d" % b]
    else:
        b = 2018
    if edge(zone, a, b):
        raise Skip()
    f = os.path.join(ctx.work, "zone.ics")
    put(f, "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//verif//EN\r\n%sEND:VCALENDAR\r\n" % zone.text(order=rng))
    verbose = rng.random() < 0.3
    out, end = run("tzdump", *(args + ["-v"] * verbose + [f]))
    want = within(zone, a, b)
    ctx.seen((zone.text(), a, b), bool(want), "%d-%d of %s" % (a, b, zone.text()))
    ctx.count("dumps")
    ctx.count("onsets", len(want))
    where = lambda: "tzdump %s of\n%s" % (" ".join(args), zone.text())
    if not ctx.check(end is None, "dump-fails", lambda: "%r: %s" % (end, where())):
        return
    ls = out.split("\n")
    ctx.check(ls[-1] == "" and len(ls) == 2 + verbose and (not verbose or ls[0].endswith(f)), "dump-lines", lambda: "printed %r: %s" % (out[:500], where()))
    got = listed(ls[-2])
    ctx.check(", ".join(got) == ls[-2], "dump-form", lambda: "printed %r" % ls[-2])
    w = sorted(shown(o) for o in want)
    ctx.check(sorted(got) == w, "dump-onsets", lambda: "missing %r, not there %r: %s" % (sorted(set(w) - set(got)), sorted(set(got) - set(w)), where()))
    k = [g[1:16] for g in got]
    ctx.check(k == sorted(k), "dump-order", lambda: "printed %r: %s" % (got, where()))
    if i % 20 == 0:
        usage(ctx, rng, "tzdump", [f])


def alter(rng, zone):
    """another history for the same zone, or None"""
    obs = [dict(o) for o in zone.obs]
    o = rng.choice(obs)
    how = rng.choice(["to", "frm", "time", "rule", "gone", "null", "null", "many"])
    if how == "to":
        o["to"] += rng.choice([60, 3600, -1800])
    elif how == "frm":
        o["frm"] += rng.choice([60, 3600, -1800])
    elif how == "time":
        o["start"] += D.timedelta(seconds=rng.choice([60, 3600, 1]))
    elif how == "rule" and o["rule"] and len(obs) > 1:
        o["rule"] = None
        o["rdates"] = []
    elif how == "gone" and len(obs) > 1:
        obs.remove(o)
    elif how == "null":
        add_null(rng, obs)
        if rng.random() < 0.5:
            o["to"] += 60
    elif how == "many":
        if o["rule"]:
            return None
        o["rdates"] = o["rdates"] + [o["start"] + D.timedelta(rng.randint(1, 9000), 3600)]
    else:
        return None
    if o["rule"] and (o["start"].hour, o["start"].minute) == (23, 59):
        return None
    return Z.Zone(zone.tzid, obs)


def add_null(rng, obs):
    for _ in range(rng.choice([1, 1, 2, 4])):
        off = rng.choice(obs)["to"]
        ts = sorted(D.datetime(rng.randint(1945, 2020), rng.randint(2, 12), rng.randint(1, 28), rng.randrange(24)) for _ in range(rng.choice([1, 1, 4])))
        obs.append(dict(kind="STANDARD", start=ts[0], frm=off, to=off, name="NUL", rule=None, rdates=ts[1:]))


def verify(ctx, rng, i):
    work = os.path.join(ctx.work, "tv")
    if os.path.isdir(work):
        shutil.rmtree(work)
    dirs = [os.path.join(work, "one"), os.path.join(work, "two")]
    for d in dirs:
        os.makedirs(d)
    a = rng.choice([1933, 1950, 1970, 2000])
    b = a + rng.choice([1, 10, 30, 80])
    names = ["Area/City", "Area/Deep/Town", "Plain", "Etc/GMT-%d" % rng.randrange(9), "Other/Area-City"]
    rng.shuffle(names)
    one, two = {}, {}
    for n in names[:rng.randint(1, 4)]:
        z = the_zone(rng, n)
        began = rng.random() < 0.25
        if began:
            z = Z.Zone(n, [dict(kind="STANDARD", start=D.datetime(a, 1, 1), frm=0, to=3600, name="X", rule=None, rdates=[])] + z.obs)
        if rng.random() < (0.6 if began else 0.2):
            obs = [dict(o) for o in z.obs]
            add_null(rng, obs)
            z = Z.Zone(n, obs)
        z2 = z
        if rng.random() < 0.6:
            z2 = alter(rng, z) or z
        if began and rng.random() < 0.6:
            obs = [o for o in z2.obs[1:] if o["name"] != "NUL"]
            z2 = Z.Zone(n, obs) if obs else z2
        if rng.random() < 0.2:
            z, z2 = z2, z
        k = rng.random()
        if k > 0.12:
            one[n] = z
        if k < 0.88:
            two[n] = z2
    for zs, d in ((one, dirs[0]), (two, dirs[1])):
        for n, z in zs.items():
            p = os.path.join(d, *n.split("/"))
            put(p + ".ics", "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//verif//EN\r\n%sEND:VCALENDAR\r\n" % z.text(order=rng))
        if rng.random() < 0.5:
            put(os.path.join(d, "notes.txt"), "BEGIN:NOTHING")
    args = rng.choice([["-v"], ["-q"], [], []])
    out, end = run("tzverify", *(args + ["--start", str(a), "--end=%d" % b] + dirs))
    where = lambda: "tzverify %s %d-%d of\n%s\n--- and ---\n%s\nprinted\n%s" % (" ".join(args), a, b, "".join(one[n].text() for n in sorted(one)), "".join(two[n].text() for n in sorted(two)), out[-3000:])
    ctx.seen((a, b, sorted((n, z.text()) for n, z in one.items()), sorted((n, z.text()) for n, z in two.items())), True, "%d-%d %r %r" % (a, b, sorted(one), sorted(two)))
    if not ctx.check(end is None, "verify-fails", lambda: "%r %s" % (end, where())):
        return
    quiet = args == ["-q"]
    missing = sorted(set(one) - set(two))
    ctx.count("missing", len(missing))
    m = re.findall(r"^TZIDs in calendar 1 not in calendar 2 files: (.*)$", out, re.M)
    ctx.check(m == ([", ".join(missing)] if missing else []), "verify-missing", lambda: "missing are %r, said %r %s" % (missing, m, where()))
    both = sorted(set(one) & set(two))
    ctx.check(re.findall(r"^Checking TZID: (.*)$", out, re.M) == ([] if quiet else both), "verify-checked", where)
    said = {}
    for l in out.split("\n"):
        m = re.match(r"In calendar ([12]) but not in calendar ([12]) tzid=([^:]*): (.*)$", l)
        if m:
            ctx.check(m.group(1) != m.group(2) and (m.group(3), m.group(1)) not in said, "verify-line", lambda: "%r %s" % (l, where()))
            said[(m.group(3), m.group(1))] = listed(m.group(4))
        m = re.match(r"Matched: (.*)$", l)
        if m:
            said[(m.group(1), "=")] = True
    for n in both:
        x1, x2 = one[n], two[n]
        if edge(x1, b) or edge(x2, b):
            ctx.count("at the end")
            continue
        ctx.count("compared")
        # names are no part of what is compared
        s1, s2 = set(o[:4] for o in within(x1, a, b)), set(o[:4] for o in within(x2, a, b))
        differ = False
        for w, have, no in (("1", s1, s2), ("2", s2, s1)):
            ctx.count("null onsets", len([o for o in have - no if o[2] == o[3]]))
            want = sorted(shown(o) for o in have - no if o[2] != o[3] and (o[1].year, o[1].month, o[1].day) != (a, 1, 1))
            start = set(shown(o) for o in have - no if (o[1].year, o[1].month, o[1].day) == (a, 1, 1) and o[2] != o[3])
            got = [g for g in said.get((n, w), []) if g not in start]
            ctx.check(sorted(got) == want, "verify-differences", lambda: "only in %s of %s: %r; said %r %s" % (w, n, want, got, where()))
            ctx.check([g[1:16] for g in got] == sorted(g[1:16] for g in got), "verify-order", lambda: "%r" % got)
            differ = differ or bool(want) or bool([g for g in said.get((n, w), [])])
        ctx.count("differing" if differ else "matched")
        ctx.check(bool(said.get((n, "="))) == (not differ and not quiet), "verify-matched", lambda: "%s: matched is %r, differences %r %s" % (n, said.get((n, "=")), differ, where()))
    ctx.check(not set(k[0] for k in said) - set(both), "verify-others", lambda: "%r %s" % (sorted(said), where()))
    shutil.rmtree(work)
    if i % 20 == 0:
        usage(ctx, rng, "tzverify", dirs)


CONTROLS = "".join(chr(c) for c in range(32) if c not in (9, 10, 13))


def lame(ctx, rng, m):
    """with a time zone that lacks an offset, and an event that uses it"""
    ctx.count("lame zones")
    tzid = "Test/Lame"
    zone = G.timezone(rng, tzid)
    gone = rng.choice(["TZOFFSETTO", "TZOFFSETFROM"])
    zone = R.comp("VTIMEZONE", zone[1], [R.comp(k[0], [p for p in k[1] if p[0] != gone], k[2]) for k in zone[2]])
    event = R.comp("VEVENT", [("UID", (), "TEXT", "lame"), ("DTSTAMP", (), "DATE-TIME", (2020, 1, 1, 0, 0, 0, "Z")), ("DTSTART", (("TZID", (tzid,)),), "DATE-TIME", G.datetime(rng, "")),
                              ("RRULE", (), "RECUR", (("FREQ", "DAILY"), ("UNTIL", (2300, 1, 1, 0, 0, 0, "Z"))))], [])
    return R.comp(m[0], m[1], list(m[2]) + [zone, event])


def validate(ctx, rng, i):
    # the zones of other data are none of this one's
    DB.createTimezoneDatabase(None)
    Calendar.parseText(P18.zones_text())
    vcard = rng.random() < 0.35
    m = V.card(rng) if vcard else G.calendar(rng, size=rng.choice([1, 1, 2, 3]))
    kind = ["sound", "spoiled", "broken", "control", "other"][i % 5]
    if kind == "spoiled":
        m = P18.spoil(rng, m, 0.3, ctx)
        if not vcard and i % 10 == 1:
            m = lame(ctx, rng, m)
    text = R.write(rng, m, vcard)
    if kind == "broken":
        f = P19.BREAK[(i // 5) % len(P19.BREAK)]
        if f in (P19.b_wrong_end, P19.b_swapped_ends, P19.b_inner, P19.b_value):
            vcard = False
            text = R.write(rng, G.calendar(rng, size=3))
        ls = f(rng, R.lines_of(text))
        if ls is None or ls == R.lines_of(text):
            raise Skip()
        text = "\r\n".join(ls) + "\r\n"
    where = lambda: "of\n%s" % text
    name = os.path.join(ctx.work, "data" + (".vcf" if vcard else ".ics"))
    if kind == "other":
        text = rng.choice(["", "hello", "BEGIN:VEVENT\r\nEND:VEVENT\r\n", "begin\r\n", G.text(rng).encode("utf-8") if isinstance(G.text(rng), unicode) else G.text(rng)])
        if "BEGIN:VC" in text:
            raise Skip()
    where_controls = []
    if kind == "control":
        # inside a value of text
        ls = R.lines_of(text)
        ks = [k for k, l in enumerate(ls) if re.match(r"(SUMMARY|DESCRIPTION|COMMENT|NOTE|FN|LOCATION):", l)]
        if not ks:
            ks = [len(ls) - 1]
            ls.insert(ks[0], ("NOTE" if vcard else "X-NOTE") + ":a note")
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(ks)
            p = ls[k].index(":") + 1
            ls[k] = ls[k][:p] + rng.choice(CONTROLS) + ls[k][p:]
        text = "\r\n".join(ls) + "\r\n"
        where_controls = [(ord(c), p) for p, c in enumerate(text) if c in CONTROLS]
    put(name, text)
    out, end = run("validator", name)
    ctx.seen((kind, text), True, "%s %s" % (kind, text[:300]))
    ctx.mark("kinds", kind)
    ls = out.split("\n")
    if kind in ("broken", "other"):
        ctx.count("failed")
        ctx.check(end == 1 and out.startswith("Failed to ") and "problems" not in out, "validate-refused", lambda: "ended with %r and printed %r %s" % (end, out, where()))
        return
    if not ctx.check(end is None, "validate-fails", lambda: "ended with %r (%s) and printed %r %s" % (end, getattr(end, "where", ""), out, where())):
        return
    if kind != "control":
        fix, bad, after = P18.judge(m, None, vcard)
        all_ = P18.multi(fix + bad)
        ctx.count("problems" if all_ else "clean")
        if all_:
            if ctx.check(ls[0].startswith("List of problems: [") and ls[0].endswith("]"), "validate-missed", lambda: "printed %r, expected %r %s" % (out, dict(all_), where())):
                got = eval(ls[0][len("List of problems: "):])
                ctx.check(P18.reported(ctx, got) == all_, "validate-problems", lambda: "printed %r, expected %r %s" % (out, dict(all_), where()))
        else:
            ctx.check(ls[0] == "No problems", "validate-invented", lambda: "printed %r %s" % (out, where()))
    else:
        ctx.count("controls")
    got = re.findall(r"^Control character (\d+) at position (\d+)$", "\n".join(ls[1:]), re.M)
    ctx.check([(int(a), int(b)) for a, b in got] == where_controls and len(ls) == 2 + len(where_controls), "validate-controls", lambda: "printed %r, control characters are %r %s" % (out, where_controls, where()))


def instances(ctx, rng, i):
    dateonly = rng.random() < 0.25
    utc = not dateonly and rng.random() < 0.4
    y = rng.choice([rng.randint(1950, 2040), 2000, 2096, 1899])
    s = D.datetime(y, rng.randint(1, 12), rng.randint(1, 28), *((0, 0, 0) if dateonly else (rng.randrange(24), rng.choice([0, 30, rng.randrange(60)]), rng.choice([0, 0, rng.randrange(60)]))))
    r = Q.gen_rule(rng, dateonly=dateonly)
    fmt = "%Y%m%d" if dateonly else "%Y%m%dT%H%M%SZ" if utc else "%Y%m%dT%H%M%S"
    short = r["freq"] in ("YEARLY", "MONTHLY") and not (r.get("byhour") or r.get("byminute") or r.get("bysecond"))
    until = None
    r.pop("until", None)
    if not r.get("count"):
        if rng.random() < (0.4 if short else 1):
            if rng.random() < 0.5:
                r["count"] = rng.choice([1, 2, 5, 20, 50])
            else:
                r["until"] = s + D.timedelta(days=rng.choice([0, 1, 10, 100, 400]) if r["freq"] not in ("HOURLY", "MINUTELY", "SECONDLY") else 0, seconds=0 if dateonly else rng.randrange(4000))
                until = iso(r["until"], fmt)
    m = Q.first_match(r, s, 400)
    if m is None or m.year - s.year > 4:
        raise Skip()
    if m != s:
        ctx.count("moved")
        s = m
        if r.get("until") is not None and r["until"] < s:
            r["until"] = s
        until = iso(r["until"], fmt) if r.get("until") else None
    if (s.month, s.day) == (2, 29):
        raise Skip()
    end = D.datetime(s.year + 100, s.month, s.day, s.hour, s.minute, s.second)
    want = Q.expand(r, s, end)
    text = Q.to_text(r, until, rng)
    out, e = run("instances", iso(s, fmt), text)
    ctx.count("rules")
    ctx.count("instances", len(want))
    ctx.mark("freq", r["freq"])
    ctx.seen((s, text), len(want) > 1, "%s %s" % (s, text))
    if not ctx.check(e is None, "instances-fails", lambda: "%r of %s %s" % (e, s, text)):
        return
    ls = out.split("\n")
    st = iso(s, fmt)
    if not ctx.check(len(ls) == 4 and ls[0] == "DTSTART:" + st and ls[1] == "RRULE:" + text and ls[2].startswith("Instances: "), "instances-form", lambda: "printed %r" % out[:400]):
        return
    got = ls[2][len("Instances: "):].split(", ")
    w = [iso(x, fmt) for x in want]
    # the start is listed whether or not the rule names it
    ctx.check(got == w, "instances", lambda: "DTSTART:%s RRULE:%s: missing %r, not there %r, %d and %d" % (st, text, sorted(set(w) - set(got))[:5], sorted(set(got) - set(w))[:5], len(w), len(got)))


def iso(t, fmt):
    s = "%04d%02d%02d" % (t.year, t.month, t.day)
    return s if fmt == "%Y%m%d" else s + "T%02d%02d%02d" % (t.hour, t.minute, t.second) + ("Z" if fmt.endswith("Z") else "")
