# -*- coding: utf-8 -*-
"""C25: timezone data made from tzdata source keeps the offsets the source states."""
import contextlib
import datetime as D
import os
import re
import sys
import refical as R
import refrrule
import reftzdata as T
from vskip import Skip
from pycalendar.timezonedb import TimezoneDatabase as DB
from pycalendar.icalendar.calendar import Calendar

HERE = os.path.dirname(os.path.abspath(__file__))
RULE = ("the Zone and Rule lines of a whole tzdata release, as released and with their years, days, times, offsets and order changed, and made-up ones, spelled with any whitespace, comments and order, over any range of years, read by tzconvert; "
        "its expansion and its VTIMEZONE (read with an independent reader of observances and rules) are compared with an independent reading of the lines around every transition and between; distinct by zone text and years")
REQUIRE = {"zones": 100, "instants": 20000, "transitions": 3000, "expanded": 3000, "real": 50, "changed": 50, "made-up": 50, "standard-clock": 200, "utc-clock": 200, "half-way": 20, "late-start": 30, "asked-before": 50, "unchanging": 4, "numeric-save": 5, "rrules": 200, "rdates": 200, "shifted-day": 5, "rewritten": 100, "lines changed": 300, "lines the same": 80}
PLAN = [("real", 100, 900), ("changed", 110, 6000), ("made_up", 140, 6000), ("rewritten", 160, 5000)]
ASSUMPTIONS = ["24:00 is kept as 23:59:59, so the second before such a change is not looked at; day forms with <=, times after 24:00 or before 0:00, %z formats and years beyond the last one asked for are not covered, nor is a weekday on or after the 22nd of February or later; the time before the second Zone line is not (the generator leaves local mean time out)"]


def setup(ctx):
    DB.createTimezoneDatabase(None)
    with open(os.path.join(HERE, "tzdata.zi")) as f:
        text = f.read()
    ctx.rules, ctx.zones, cur = {}, {}, None
    for l in text.split("\n"):
        f = l.split("#")[0].split()
        if not f:
            continue
        if f[0] == "R":
            ctx.rules.setdefault(f[1], []).append(f[1:])
        elif f[0] == "Z":
            cur = f[1]
            ctx.zones[cur] = [f[2:]]
        elif f[0] != "L":
            ctx.zones[cur].append(f)
    ctx.names = sorted(n for n in ctx.zones if all(plain(r) for z in ctx.zones[n] for r in ctx.rules.get(z[1], [])) and all(len(z) < 7 or not z[5:] or True for z in ctx.zones[n]))
    ctx.names = sorted(n for n in ctx.names if all(usual(z) for z in ctx.zones[n]))


def plain(r):
    """a rule line within what is covered"""
    secs, _m = T.at(r[6])
    return "<=" not in r[5] and 0 <= secs <= 86400 and secs % 60 == 0


def usual(z):
    return "%z" not in z[2]


def clock(s, secs=False):
    """2s is 2:00s, as in the files of a release"""
    m = re.match("^(-?)([0-9:]+)([wsugz]?)$", s)
    p = m.group(2).split(":")
    if len(p) == 1:
        p.append("00")
    p[1] = "%02d" % int(p[1])
    if len(p) > 2:
        p[2] = "%02d" % int(p[2])
    return m.group(1) + ":".join(p) + m.group(3)


MON = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
DAY = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")


def day(s):
    if s.startswith("last"):
        return "last" + DAY[T.pick(T.WDAYS, s[4:])]
    m = re.match("^([A-Za-z]+)>=([0-9]+)$", s)
    return "%s>=%s" % (DAY[T.pick(T.WDAYS, m.group(1))], m.group(2)) if m else s


def rule_line(rng, r):
    to = r[2]
    to = "only" if to and "only".startswith(to) else "max" if to.startswith("ma") else to
    f = ["Rule", r[0], r[1], to, "-", MON[T.pick(T.MONTHS, r[4])], day(r[5]), clock(r[6]), r[7] if r[7] == "0" else clock(r[7]), r[8]]
    return sep(rng, f) + note(rng)


def sep(rng, f):
    s = f[0]
    for x in f[1:]:
        s += rng.choice(["\t", "\t", " ", "\t\t", "  ", " \t"]) + x
    return s


def note(rng):
    return rng.choice(["", "", "", "\t# by decree of 1 Jan", " # x", "\t#none"])


def zone_lines(rng, name, zs):
    out = []
    for k, z in enumerate(zs):
        f = [clock(z[0]) if ":" in z[0] or rng.random() < 0.8 else z[0], z[1] if not T.re.match("^-?[0-9]", z[1]) else clock(z[1]), z[2]]
        u = z[3:]
        if u:
            f.append(u[0])
            if len(u) > 1:
                f.append(MON[T.pick(T.MONTHS, u[1])])
            if len(u) > 2:
                f.append(day(u[2]))
            if len(u) > 3:
                f.append(clock(u[3]))
        if k:
            if rng.random() < 0.15:
                out.append(rng.choice(["", "# within a zone", "#"]))
            out.append("\t\t\t" + sep(rng, f) + note(rng))
        else:
            out.append("Zone" + rng.choice(["\t", " "]) + sep(rng, [name] + f) + note(rng))
    return out


def source(rng, names, ctx_rules, zones):
    """the text of a file with these zones and the rules they need, in any order"""
    blocks = []
    need = set(z[1] for n in names for z in zones[n] if z[1] in ctx_rules)
    for r in need:
        ls = list(ctx_rules[r])
        if rng.random() < 0.3:
            rng.shuffle(ls)
        blocks.append([rule_line(rng, x) for x in ls])
    for n in names:
        blocks.append(zone_lines(rng, n, zones[n]))
    rng.shuffle(blocks)
    out = ["# made for a test"]
    for b in blocks:
        out += b
        out += rng.choice([[], [""], ["# a comment", ""], ["", "", "# Rule not a rule"]])
    return "\n".join(out) + "\n"


@contextlib.contextmanager
def quiet():
    was = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        yield
    finally:
        sys.stdout.close()
        sys.stdout = was


def to_dt(s):
    return D.datetime(int(s[:4]), int(s[4:6]), int(s[6:8]), int(s[9:11]), int(s[11:13]), int(s[13:15]))


def off(s):
    v = int(s[1:3]) * 3600 + int(s[3:5]) * 60 + (int(s[5:7]) if len(s) > 5 else 0)
    return -v if s[0] == "-" else v


def observances(ctx, text, tzid, last):
    """[(utc, from, to)] of a VTIMEZONE"""
    res = []
    inside = None
    seen = False
    for l in R.lines_of(text):
        if l == "BEGIN:VTIMEZONE":
            seen = False
        if l == "TZID:" + tzid:
            seen = True
        if not seen:
            continue
        if l in ("BEGIN:STANDARD", "BEGIN:DAYLIGHT"):
            inside = {"RDATE": []}
        elif l in ("END:STANDARD", "END:DAYLIGHT"):
            frm, to = off(inside["TZOFFSETFROM"]), off(inside["TZOFFSETTO"])
            start = to_dt(inside["DTSTART"])
            ons = set([start])
            if "RRULE" in inside:
                ctx.count("rrules")
                r = {}
                for part in inside["RRULE"].split(";"):
                    k, v = part.split("=")
                    if k == "FREQ":
                        r["freq"] = v
                    elif k == "UNTIL":
                        r["until"] = to_dt(v) + D.timedelta(seconds=frm)
                    elif k == "BYDAY":
                        r["byday"] = [(int(x[:-2]) if x[:-2] else 0, refrrule.DAYS.index(x[-2:])) for x in v.split(",")]
                    else:
                        r[k.lower()] = [int(x) for x in v.split(",")]
                ons |= set(refrrule.expand(r, start, D.datetime(last, 1, 1)))
                if "byyearday" in r or "bymonthday" in r:
                    ctx.count("shifted-day")
            for d in inside["RDATE"]:
                ctx.count("rdates")
                ons |= set(to_dt(x) for x in d.split(","))
            res += [(t - D.timedelta(seconds=frm), frm, to) for t in ons]
            inside = None
        elif inside is not None:
            k, v = l.split(":", 1)
            if k == "RDATE":
                inside[k].append(v)
            else:
                inside[k] = v
    return sorted(set(res))


def judge(ctx, rng, name, text, rules, lines, what):
    from zonal.tzconvert import tzconvert
    tr = T.expand(rules, lines, 2110)
    lo = 1800 if rng.random() < 0.7 else rng.randint(1850, 2015)
    hi = max(lo + 1, rng.choice([2018, 2018, 2030, 2040, rng.randint(1930, 2060)]))
    path = os.path.join(ctx.work, "src")
    with open(path, "w") as f:
        f.write(text)
    conv = tzconvert()
    with quiet():
        conv.parse(path)
    where = lambda: "zone %s, years %d-%d, of\n%s" % (name, lo, hi, text[:6000])
    if rng.random() < 0.3:
        # asked before, about other years
        ctx.count("asked-before")
        conv.expandZone(name, lo, rng.choice([1950, 1990, 2012, 2070]))
    got = conv.expandZone(name, lo, hi)
    vtz = conv.vtimezones(lo, hi, [name])
    ctx.count("zones")
    ctx.count(what)
    ctx.seen((text, lo, hi), True, text[:300])
    # the changes as they are listed
    listed = []
    for t, frm, to in got:
        ctx.count("expanded")
        listed.append((D.datetime(t.getYear(), t.getMonth(), t.getDay(), t.getHours(), t.getMinutes(), t.getSeconds()) - D.timedelta(seconds=frm), frm, to))
    obs = observances(ctx, vtz, name, hi)
    first = D.datetime(lo, 1, 1)
    if len(lines) > 1:
        lmt = max(k for k, z in enumerate(lines) if k == 0 or z.fmt == "LMT")
        since = ([t[0] for t in tr if t[4] > lmt] + [None])[0]
        if since is None:
            raise Skip()
    else:
        since = D.datetime(1800, 1, 3)
    begin = max(first + D.timedelta(2), since)
    if lo > 1800:
        ctx.count("late-start")
    end = D.datetime(hi, 1, 1) - D.timedelta(2)
    if begin >= end:
        return
    whole = set(t[0] for t in tr[1:] if isinstance(t[5], T.Rule) and t[5].at == 86400)
    ends = [l for l in lines if l.until]
    pts = [begin, end]
    for t in tr[1:]:
        if begin <= t[0] < end:
            ctx.count("transitions")
            if isinstance(t[5], T.Rule):
                if t[5].mode == "s":
                    ctx.count("standard-clock")
                if t[5].mode == "u":
                    ctx.count("utc-clock")
            pts += [t[0], t[0] - D.timedelta(seconds=1 + (t[0] in whole)), t[0] + D.timedelta(rng.randint(1, 60))]
            if rng.random() < 0.3:
                pts.append(t[0] - D.timedelta(seconds=rng.randint(3, 7200)))
    for t in obs + listed:
        if begin <= t[0] < end:
            pts += [t[0] + D.timedelta(seconds=1), t[0] - D.timedelta(seconds=2)]
    for _ in range(20):
        pts.append(begin + D.timedelta(rng.randint(0, (end - begin).days), rng.randint(0, 86399)))
    # what is known only from the first change that is listed on, when the years start late
    for kind, lst in (("expansion", listed), ("vtimezone", obs)):
        known = begin
        if lo > 1800 or not lst:
            known = None
            for t in tr[1:]:
                if t[0] >= first and (t[4] > 0 or len(lines) == 1):
                    known = t[0]
                    break
            if known is None:
                ctx.count("unchanging")
                known = begin
            known = max(known, begin)
        for u in pts:
            if u < known or u >= end:
                continue
            ctx.count("instants")
            want = T.offset(tr, u)[1]
            a = [t for t in lst if t[0] <= u]
            if not a:
                if not ctx.check(False, kind + "-nothing", lambda: "%s has no offset at %s UTC, it is %s; %s" % (kind, u, want, where())):
                    return
                continue
            if not ctx.check(a[-1][2] == want, kind, lambda: "%s: at %s UTC %s, not %s %r; %s\n%s" % (kind, u, a[-1][2], want, a[-3:], where(), vtz)):
                return
        # each change starts from what was before it
        for p, q in zip(lst, lst[1:]):
            if begin <= p[0] and q[0] < end and not ctx.check(p[2] == q[1], kind + "-from", lambda: "%s: %r then %r; %s\n%s" % (kind, p, q, where(), vtz)):
                return


def real(ctx, rng, i):
    n = ctx.names[(i * 7 + rng.randrange(3)) % len(ctx.names)]
    others = rng.sample(ctx.names, rng.choice([0, 0, 1, 2]))
    names = [n] + [x for x in others if x != n]
    text = source(rng, names, ctx.rules, ctx.zones)
    rules, zones, _l = T.read(text)
    judge(ctx, rng, n, text, rules, zones[n], "real")


def year(rng, s, d):
    return str(int(s) + d)


def changed(ctx, rng, i):
    n = rng.choice(ctx.names)
    zs = [list(z) for z in ctx.zones[n]]
    rules = dict((z[1], [list(r) for r in ctx.rules[z[1]]]) for z in zs if z[1] in ctx.rules)
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.random()
        if k < 0.35 and rules:
            r = rng.choice(rules[rng.choice(sorted(rules))])
            c = rng.randrange(4)
            if c == 0:
                r[6] = rng.choice(["0:00", "1:00", "2:00", "3:00", "23:00", "24:00", "0:01"]) + rng.choice(["", "s", "u"])
            elif c == 1:
                r[5] = rng.choice(["last" + rng.choice(DAY), "%s>=%d" % (rng.choice(DAY), rng.choice([1, 2, 8, 9, 15, 21, 22])), str(rng.choice([1, 1, rng.randint(2, 27), 30]))])
            elif c == 2:
                r[4] = rng.choice(MON)
            else:
                r[7] = rng.choice(["0", "1:00", "0:30", "2:00", "0:20"])
        elif k < 0.7:
            d = rng.choice([-60, -30, 30, 60, 15, 180, -300])
            for z in zs:
                v = T.hms(z[0]) + d * 60
                v = max(-13 * 3600, min(14 * 3600, v))
                z[0] = ("-" if v < 0 else "") + "%d:%02d" % (abs(v) // 3600, abs(v) // 60 % 60) + (":%02d" % (abs(v) % 60) if v % 60 else "")
        elif len(zs) > 1:
            z = rng.choice(zs[:-1])
            z[3:] = [z[3]] + rng.choice([[], ["Jan", "1"], ["Apr", "1", "0:00"], ["Oct", "lastSun", "1:00u"], ["Mar", "Sun>=8", "2:00"], ["Jul", str(rng.randint(1, 28)), "0:00s"]])
    if rng.random() < 0.3 and len(zs) > 2:
        del zs[rng.randint(1, len(zs) - 2)]
    us = [int(z[3]) for z in zs[:-1]]
    if us != sorted(us) or len(set(us)) != len(us):
        raise Skip()
    text = source(rng, [n], rules, {n: zs})
    if any(r[4] == "Feb" and (re.search(">=2[2-9]", r[5]) or r[5] in ("29", "30")) for x in rules.values() for r in x):
        raise Skip()
    rr, zz = understood(text)
    if not sane(rr, zz[n]):
        raise Skip()
    judge(ctx, rng, n, text, rr, zz[n], "changed")


def understood(text):
    try:
        rr, zz, _l = T.read(text)
        for n in rr:
            for r in rr[n]:
                for y in range(r.lo, min(r.hi, 2110) + 1):
                    r.in_year(y)
    except ValueError:      # no such day in some year
        raise Skip()
    return rr, zz


def sane(rules, lines):
    """changes lie apart, as in any real history"""
    tr = T.expand(rules, lines, 2070, True)
    # a zone's end at the very moment of a change at 24:00 is a second after it here
    ends = set(l.until for l in lines if l.until)
    if any(r.at == 86400 and r.in_year(t.year) == t for t in ends for r in sum(rules.values(), []) if r.lo <= t.year - (t.month == 1) <= r.hi):
        return False
    u = [t[0] for t in tr[1:]]
    return all((b - a).days >= 7 for a, b in zip(u, u[1:])) and u == sorted(u)


def make(ctx, rng):
    """a made-up source: its text, and the name of its zone"""
    rules = {}
    names = ["Aa", "Bb"][:rng.choice([1, 1, 2])]
    for n in names:
        rs = []
        y = rng.randint(1905, 1985)
        while y < 2030:
            span = rng.choice([0, 1, 3, 8, 20])
            to = "max" if y + span > 2020 else "only" if span == 0 else str(y + span)
            save = rng.choice(["1:00", "1:00", "1:00", "0:30", "2:00"])
            a, b = rng.choice([("Mar", "Oct"), ("Apr", "Sep"), ("Mar", "Nov"), ("May", "Aug"), ("Oct", "Feb"), ("Nov", "Mar"), ("Jun", "Dec")])
            mode = rng.choice(["", "", "s", "u"])
            for mon, sv, let in ((a, save, "D"), (b, "0", "S")):
                o = rng.choice(["lastSun", "lastSun", "last" + rng.choice(DAY), "Sun>=1", "%s>=%d" % (rng.choice(DAY), rng.choice([1, 8, 15, 22, 2, 9, 16, 5, 20])), str(rng.choice([1, 1, rng.randint(2, 27), 30]))])
                rs.append([n, str(y), to, "-", mon, o, rng.choice(["0:00", "1:00", "2:00", "2:00", "3:00", "23:00", "24:00"]) + mode, sv, let])
            y += span + 1 + rng.choice([0, 0, 0, 4])
            if to == "max":
                break
        rules[n] = rs
    base = rng.choice([-720, -600, -300, -210, -60, 0, 60, 120, 330, 345, 570, 720, 780])
    zs = []
    y = rng.randint(1880, 1925)
    n = rng.choice([1, 2, 3, 4])
    for k in range(n):
        o = base + (0 if rng.random() < 0.6 else rng.choice([-60, 60, 30]))
        z = [("-" if o < 0 else "") + "%d:%02d" % (abs(o) // 60, abs(o) % 60)]
        q = rng.random()
        if k == 0 and n > 1:
            z = [("-" if o < 0 else "") + "%d:%02d:%02d" % (abs(o) // 60, abs(o) % 60, rng.randint(1, 59)), "-", "LMT"]
        elif q < 0.65:
            z += [rng.choice(names), "X%sT"]
        elif q < 0.85 or n == 1:
            z += ["-", "XST"]
        else:
            z += [rng.choice(["1:00", "0:30"]), "XDT"]
            ctx.count("numeric-save")
        if k < n - 1:
            z += [str(y)] + rng.choice([[], ["Jan"], ["Jun", "1"], ["Apr", "lastSun"], ["Oct", "Sun>=1", "2:00"], [rng.choice(MON), str(rng.randint(1, 28)), rng.choice(["0:00", "2:00s", "1:00u", "12:00"])], ["Sep", "last" + rng.choice(DAY), "2:00"]])
            y += rng.choice([2, 5, 14, 30, 47])
        zs.append(z)
        if base % 60:
            ctx.count("half-way")
    name = rng.choice(["Test/Made", "Aa/Bb/Cc", "Nowhere"])
    text = source(rng, [name], rules, {name: zs})
    if any(r[4] == "Feb" and (re.search(">=2[2-9]", r[5]) or r[5] in ("29", "30")) for x in rules.values() for r in x):
        raise Skip()
    return text, name


def made_up(ctx, rng, i):
    text, name = make(ctx, rng)
    rr, zz = understood(text)
    if not sane(rr, zz[name]):
        raise Skip()
    judge(ctx, rng, name, text, rr, zz[name], "made-up")


def read(ctx, text):
    from zonal.tzconvert import tzconvert
    path = os.path.join(ctx.work, "src")
    with open(path, "w") as f:
        f.write(text)
    conv = tzconvert()
    with quiet():
        conv.parse(path)
    return conv


def written(conv):
    return "".join("%s\n" % x for x in list(conv.rules.values()) + list(conv.zones.values()))


def rows(text):
    """the fields of every line, of each rule by name and of each zone"""
    out = {}
    cur = None
    for l in text.split("\n"):
        f = l.split("#")[0].split()
        if not f:
            continue
        if f[0] == "Rule":
            out.setdefault(("Rule", f[1]), []).append(f[2:10])
        elif f[0] == "Zone":
            cur = out.setdefault(("Zone", f[1]), [])
            cur.append(f[2:])
        else:
            cur.append(f)
    return out


def rewritten(ctx, rng, i):
    """what is read from source lines can be written as such lines, which say the same; lines that differ in any field are not the same"""
    text, name = make(ctx, rng)
    if rng.random() < 0.4:
        n = rng.choice(ctx.names)
        text += source(rng, [n], ctx.rules, ctx.zones)
    conv = read(ctx, text)
    out = written(conv)
    ctx.count("rewritten")
    ctx.seen(("rewritten", text), True, text[:300])
    want, got = rows(text), rows(out)
    ctx.check(got == want, "rewritten", lambda: "%r of\n%s\nwritten as\n%s" % ([(k, want.get(k), got.get(k)) for k in sorted(set(want) | set(got)) if want.get(k) != got.get(k)][:3], text[:3000], out[:3000]))
    again = read(ctx, out)
    ctx.eq((sorted(again.zones), sorted(again.rules), sorted(conv.getZoneNames())), (sorted(conv.zones), sorted(conv.rules), sorted(k[1] for k in want if k[0] == "Zone")), "rewritten-names", out[:2000])
    for a, b in ((conv.zones, again.zones), (conv.rules, again.rules)):
        for k in a:
            ctx.count("lines the same")
            ctx.check(a[k] == b[k] and not a[k] != b[k] and str(a[k]) == str(b[k]), "rewritten-differs", lambda: "%s\nand\n%s" % (a[k], b[k]))
    # one field changed
    for _n in range(4):
        ls = out.split("\n")
        ks = [k for k, l in enumerate(ls) if l.split()]
        k = rng.choice(ks)
        f = ls[k].split("\t")
        zone = not f[0].startswith("Rule")
        at = [j for j in range(1, len(f)) if f[j] and j != (4 if f[0] == "Rule" else None)]
        j = rng.choice([j for j in at if f[0] == "Rule" and j > 1 or f[0] != "Rule" and j >= (1 if f[0].startswith("Zone") else 3)])
        f[j] = {"-": "+", "0": "1:00"}.get(f[j], f[j] + "0" if f[j][-1:].isdigit() else f[j] + "X")
        ls[k] = "\t".join(f)
        try:
            other = read(ctx, "\n".join(ls))
        except Exception:
            continue
        same = [x for a, b in ((conv.zones, other.zones), (conv.rules, other.rules)) for x in a if x in b and a[x] == b[x]]
        diff = [x for a, b in ((conv.zones, other.zones), (conv.rules, other.rules)) for x in a if x in b and a[x] != b[x]]
        ctx.count("lines changed")
        ctx.check(len(diff) == 1 and len(same) == len(conv.zones) + len(conv.rules) - 1, "changed-same", lambda: "different are %r and the same %r with %r in\n%s" % (diff, same, ls[k], out[:3000]))
