# -*- coding: utf-8 -*-
"""Reference reading of tzdata Rule and Zone lines, as zic(8) describes them (no shared structure with the code
under test). Times are naive datetimes; offsets are seconds."""
import datetime as D
import re

MONTHS = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")
WDAYS = ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")
ONE = D.timedelta(1)


def S(n):
    return D.timedelta(seconds=n)


def pick(names, s):
    m = [i for i, n in enumerate(names) if n.lower().startswith(s.lower())]
    assert len(m) == 1, s
    return m[0]


def hms(s):
    neg = s.startswith("-")
    v = [int(x) for x in s.lstrip("-").split(":")] + [0, 0]
    t = v[0] * 3600 + v[1] * 60 + v[2]
    return -t if neg else t


def at(s):
    """(seconds, mode): mode in w s u"""
    m = re.match("^(-?[0-9:]+)([wsugz]?)$", s)
    k = m.group(2) or "w"
    return hms(m.group(1)), "u" if k in "ugz" else k


def on(y, mo, s):
    first = D.date(y, mo, 1)
    if s.startswith("last"):
        wd = pick(WDAYS, s[4:])
        d = (D.date(y + mo // 12, mo % 12 + 1, 1)) - ONE
        while d.weekday() != wd:
            d -= ONE
        return d
    for op, step in ((">=", ONE), ("<=", -ONE)):
        if op in s:
            a, b = s.split(op)
            wd = pick(WDAYS, a)
            d = first + (int(b) - 1) * ONE
            while d.weekday() != wd:
                d += step
            return d
    return D.date(y, mo, int(s))


def when(d, secs):
    return D.datetime(d.year, d.month, d.day) + S(secs)


class Rule(object):
    def __init__(self, f):
        self.name, lo, hi, _type, self.month, self.on, a, save, self.letter = f[:9]
        self.lo = int(lo)
        self.hi = self.lo if "only".startswith(hi) else 9999 if len(hi) > 1 and "maximum".startswith(hi) else int(hi)
        self.at, self.mode = at(a)
        self.save = hms(save)
        self.mo = pick(MONTHS, self.month) + 1

    def in_year(self, y):
        return when(on(y, self.mo, self.on), self.at)


class Line(object):
    def __init__(self, f):
        self.off = hms(f[0])
        self.rule = f[1]
        self.fmt = f[2]
        u = f[3:]
        self.until = None
        self.mode = "w"
        if u:
            y = int(u[0])
            mo = pick(MONTHS, u[1]) + 1 if len(u) > 1 else 1
            d = on(y, mo, u[2]) if len(u) > 2 else D.date(y, mo, 1)
            secs, self.mode = at(u[3]) if len(u) > 3 else (0, "w")
            self.until = when(d, secs)


def read(text):
    """rules by name, zones by name, links {name: target}"""
    rules, zones, links = {}, {}, {}
    cur = None
    for l in text.split("\n"):
        l = l.split("#")[0]
        f = l.split()
        if not f:
            continue
        if cur is not None and l[0] in " \t-0123456789":
            zones[cur].append(Line(f))
        elif f[0] in ("Rule", "R"):
            rules.setdefault(f[1], []).append(Rule(f[1:]))
            cur = None
        elif f[0] in ("Zone", "Z"):
            cur = f[1]
            zones[cur] = [Line(f[2:])]
        elif f[0] in ("Link", "L"):
            links[f[2]] = f[1]
            cur = None
        else:
            raise ValueError(l)
        if cur is not None and zones[cur][-1].until is None:
            cur = None
    return rules, zones, links


def utc(t, mode, off, save):
    if mode == "u":
        return t
    return t - S(off) - (S(save) if mode == "w" else S(0))


def abbr(fmt, letter, save):
    if "%s" in fmt:
        return fmt.replace("%s", "" if letter == "-" else letter)
    if "/" in fmt:
        return fmt.split("/")[1 if save else 0]
    return fmt


def expand(rules, lines, last=2100, raw=False):
    """[(utc, offset, save, abbreviation, index of the zone line, what)] in order: the first has utc None"""
    res = [(None, lines[0].off, 0, lines[0].fmt, 0, "start")]
    start = None
    for i, z in enumerate(lines):
        save = 0
        end = None
        if z.rule == "-" or z.rule.lstrip("-")[:1].isdigit():
            save = 0 if z.rule == "-" else hms(z.rule)
            e = (start, z.off + save, save, abbr(z.fmt, "-", save), i, "line")
            if start is None:
                res[0] = e
            else:
                res.append(e)
        else:
            todo = []
            for r in rules[z.rule]:
                for y in range(r.lo, min(r.hi, last) + 1):
                    todo.append((r.in_year(y), y, r))
            todo.sort(key=lambda x: x[0])
            head = (0, None)          # save and letter at the start
            for k, (t, _y, r) in enumerate(todo):
                u = utc(t, r.mode, z.off, save)
                if z.until is not None and u >= utc(z.until, z.mode, z.off, save):
                    break
                save = r.save
                if start is not None and u < start:
                    head = (r.save, r.letter)
                    continue
                if start is not None and head is not None and u > start:
                    res.append((start, z.off + head[0], head[0], None if head[1] is None else abbr(z.fmt, head[1], head[0]), i, "line"))
                head = None
                res.append((u, z.off + r.save, r.save, abbr(z.fmt, r.letter, r.save), i, r))
            if start is not None and head is not None:
                res.append((start, z.off + head[0], head[0], None if head[1] is None else abbr(z.fmt, head[1], head[0]), i, "line"))
        if z.until is not None:
            start = utc(z.until, z.mode, z.off, save)
    return res if raw else settle(res)


def settle(res):
    """a change the clocks would reach no later than the one before takes its place, as zic has it"""
    out = res[:1]
    for t in res[1:]:
        if len(out) > 1:
            was = out[-2][1]
            if t[0] + S(out[-1][1]) <= out[-1][0] + S(was):
                out[-1] = (out[-1][0],) + t[1:]
                continue
        out.append(t)
    return out


def offset(trans, u):
    v = trans[0]
    for t in trans[1:]:
        if t[0] > u:
            break
        v = t
    return v
