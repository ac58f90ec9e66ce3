# -*- coding: utf-8 -*-
"""Reference time zones: random zone histories, their VTIMEZONE text, and their exact offsets, computed
from a list of onsets with the standard library only."""
import bisect
import datetime as D
from refcal import nth_dow_in_month, mdays, posix, secs

HORIZON = 2120


def secs0(t):
    return t.toordinal() * 86400 + t.hour * 3600 + t.minute * 60 + t.second


class Zone(object):
    """obs: list of dicts kind, start(naive local), frm, to, name, rule=None|(month, n, wd, until_year|None), rdates=[]"""

    def __init__(self, tzid, obs):
        self.tzid = tzid
        self.obs = obs
        ons = []
        for o in obs:
            if o["rule"]:
                month, n, wd, until = o["rule"]
                for y in range(o["start"].year, (until or HORIZON) + 1):
                    d = nth_dow_in_month(y, month, n, wd)
                    ons.append((D.datetime(d.year, d.month, d.day, o["start"].hour, o["start"].minute, o["start"].second), o["frm"], o["to"], o["name"]))
            else:
                ons.append((o["start"], o["frm"], o["to"], o["name"]))
                for r in o["rdates"]:
                    ons.append((r, o["frm"], o["to"], o["name"]))
        # (utc onset, local onset, from, to, name)
        self.onsets = sorted(set((l - D.timedelta(seconds=f), l, f, t, n) for l, f, t, n in ons))
        self.usecs = [secs0(o[0]) for o in self.onsets]
        self.lsecs = [secs0(o[1]) for o in self.onsets]
        self.first = self.onsets[0]

    def at_utc(self, u):
        """offset and name in force at UTC instant u; None before the first onset"""
        k = bisect.bisect_right(self.usecs, secs0(u))
        if not k:
            return None
        o = self.onsets[k - 1]
        return (o[3], o[4])

    def local(self, u):
        return u + D.timedelta(seconds=self.at_utc(u)[0])

    def classify(self, l):
        """('plain', offset, name) | ('ambiguous', first offset, name) | ('gap', None, None) | ('before', None, None)"""
        ls = secs0(l)
        lo = bisect.bisect_left(self.usecs, ls - 5 * 86400)
        hi = bisect.bisect_right(self.usecs, ls + 5 * 86400)
        best = self.onsets[lo - 1] if lo else None
        near = set()
        for k in range(lo, hi):
            o = self.onsets[k]
            if self.lsecs[k] <= ls:
                best = o
            if abs(ls - self.lsecs[k]) < 3 * 86400:
                near.add(o[2])
                near.add(o[3])
        if not near:
            return ("before", None, None) if best is None else ("plain", best[3], best[4])
        cands = []
        for off in near:
            a = self.at_utc(l - D.timedelta(seconds=off))
            if a is None:
                return ("before", None, None)
            if a[0] == off:
                cands.append((l - D.timedelta(seconds=off), off, a[1]))
        cands.sort()
        if not cands:
            return ("gap", None, None)
        if len(cands) > 1:
            return ("ambiguous", cands[0][1], cands[0][2])
        return ("plain", cands[0][1], cands[0][2])

    def near_onset(self, u, hours=30):
        us = secs0(u)
        k = bisect.bisect_left(self.usecs, us)
        return any(abs(us - x) < hours * 3600 for x in self.usecs[max(0, k - 1):k + 1])

    def text(self, order=None):
        out = ["BEGIN:VTIMEZONE", "TZID:%s" % self.tzid]
        obs = list(self.obs)
        if order is not None:
            order.shuffle(obs)
        for o in obs:
            out.append("BEGIN:%s" % o["kind"])
            out.append("DTSTART:%s" % o["start"].strftime("%Y%m%dT%H%M%S"))
            out.append("TZOFFSETFROM:%s" % offtxt(o["frm"]))
            out.append("TZOFFSETTO:%s" % offtxt(o["to"]))
            if o["name"]:
                out.append("TZNAME:%s" % o["name"])
            if o["rule"]:
                month, n, wd, until = o["rule"]
                u = ""
                if until:
                    d = nth_dow_in_month(until, month, n, wd)
                    last = D.datetime(d.year, d.month, d.day, o["start"].hour, o["start"].minute, o["start"].second) - D.timedelta(seconds=o["frm"])
                    u = ";UNTIL=%s" % last.strftime("%Y%m%dT%H%M%SZ")
                out.append("RRULE:FREQ=YEARLY;BYMONTH=%d;BYDAY=%d%s%s" % (month, n, ("SU", "MO", "TU", "WE", "TH", "FR", "SA")[wd], u))
            if o["rdates"]:
                out.append("RDATE:%s" % ",".join(r.strftime("%Y%m%dT%H%M%S") for r in o["rdates"]))
            out.append("END:%s" % o["kind"])
        out.append("END:VTIMEZONE")
        return "\r\n".join(out) + "\r\n"


def offtxt(s):
    a = abs(s)
    return "%s%02d%02d%s" % ("-" if s < 0 else "+", a // 3600, a // 60 % 60, "%02d" % (a % 60) if a % 60 else "")


def make_zone(rng, tzid, first=1940):
    """A random but realistic zone history: eras with or without summer time, standard-offset changes,
    rule changes, one-off onsets listed by date."""
    south = rng.random() < 0.35
    std = rng.choice([0, 3600, -18000, -28800, 19800, 20700, 36000, 43200, -34200, -43200, 49500, 10800]) if rng.random() < 0.8 else 900 * rng.randint(-48, 52)
    obs = []
    # local mean time and the first standard onset
    lmt = std + rng.choice([0, 0, rng.randint(-1800, 1800)])
    y = first + rng.randint(0, 15)
    start_md = (7, 1) if south else (1, 1)

    def nm(off, dst):
        return "%s%s%d" % ("D" if dst else "S", "m" if off < 0 else "p", abs(off) // 60)
    obs.append(dict(kind="STANDARD", start=D.datetime(y, start_md[0], start_md[1], 0, 0, 0), frm=lmt, to=std, name=nm(std, 0), rule=None, rdates=[]))
    eras = rng.randint(1, 4)
    for e in range(eras):
        last = e == eras - 1
        length = rng.randint(2, 18)
        y2 = y + length
        kind = rng.choice(["rule", "rule", "rule", "none", "rdate"])
        if last and kind == "rdate":
            kind = "rule"
        if kind != "none":
            delta = rng.choice([3600, 3600, 3600, 1800, 7200])
            dst = std + delta
            if south:
                sm, em = rng.choice([9, 10, 11]), rng.choice([2, 3, 4])
            else:
                sm, em = rng.choice([3, 4, 5]), rng.choice([9, 10, 11])
            sn, swd, en, ewd = rng.choice([1, 2, 4, -1]), rng.choice([0, 0, 0, 4, 5, 6]), rng.choice([1, 3, -1, -2]), rng.choice([0, 0, 0, 4, 6])
            st = rng.choice([(2, 0, 0), (1, 0, 0), (0, 0, 0), (3, 0, 0), (2, 0, 0)])
            et = rng.choice([(2, 0, 0), (3, 0, 0), (2, 0, 0), (4, 0, 0)])
            # first year of the era: southern eras begin in July with daylight start that same year
            sy0 = y
            ey0 = y + 1 if south else y
            sy1 = y2 - 1
            ey1 = y2 if south else y2 - 1
            d0 = nth_dow_in_month(sy0, sm, sn, swd)
            d1 = nth_dow_in_month(ey0, em, en, ewd)
            ds = D.datetime(d0.year, d0.month, d0.day, *st)
            de = D.datetime(d1.year, d1.month, d1.day, *et)
            if kind == "rule":
                obs.append(dict(kind="DAYLIGHT", start=ds, frm=std, to=dst, name=nm(dst, 1), rule=(sm, sn, swd, None if last else sy1), rdates=[]))
                obs.append(dict(kind="STANDARD", start=de, frm=dst, to=std, name=nm(std, 0), rule=(em, en, ewd, None if last else ey1), rdates=[]))
            else:
                sr, er = [], []
                for k in range(1, length):
                    # one onset each year, day of the month varies freely
                    sr.append(D.datetime(sy0 + k, sm, rng.randint(1, 28), *st))
                    er.append(D.datetime(ey0 + k, em, rng.randint(1, 28), *et))
                obs.append(dict(kind="DAYLIGHT", start=ds, frm=std, to=dst, name=nm(dst, 1), rule=None, rdates=sr))
                obs.append(dict(kind="STANDARD", start=de, frm=dst, to=std, name=nm(std, 0), rule=None, rdates=er))
        if not last:
            y = y2
            new = std
            if rng.random() < 0.6:
                new = std + rng.choice([1800, -1800, 3600, -3600, 900, 7200])
                if not -43200 <= new <= 50400:
                    new = std
            if new != std or rng.random() < 0.5:
                obs.append(dict(kind="STANDARD", start=D.datetime(y, start_md[0], start_md[1], 0, 0, 0), frm=std, to=new, name=nm(new, 0), rule=None, rdates=[]))
            std = new
    return Zone(tzid, obs)


def eastern(tzid="Test/Eastern"):
    return Zone(tzid, [
        dict(kind="STANDARD", start=D.datetime(1967, 1, 1, 0, 0, 0), frm=-18000, to=-18000, name="EST", rule=None, rdates=[]),
        dict(kind="DAYLIGHT", start=D.datetime(1967, 4, 30, 2, 0, 0), frm=-18000, to=-14400, name="EDT", rule=(4, -1, 0, 1986), rdates=[]),
        dict(kind="STANDARD", start=D.datetime(1967, 10, 29, 2, 0, 0), frm=-14400, to=-18000, name="EST", rule=(10, -1, 0, 2006), rdates=[]),
        dict(kind="DAYLIGHT", start=D.datetime(1987, 4, 5, 2, 0, 0), frm=-18000, to=-14400, name="EDT", rule=(4, 1, 0, 2006), rdates=[]),
        dict(kind="DAYLIGHT", start=D.datetime(2007, 3, 11, 2, 0, 0), frm=-18000, to=-14400, name="EDT", rule=(3, 2, 0, None), rdates=[]),
        dict(kind="STANDARD", start=D.datetime(2007, 11, 4, 2, 0, 0), frm=-14400, to=-18000, name="EST", rule=(11, 1, 0, None), rdates=[]),
    ])


def fixed(tzid, off):
    return Zone(tzid, [dict(kind="STANDARD", start=D.datetime(1900, 1, 1, 0, 0, 0), frm=off, to=off, name="FIX", rule=None, rdates=[])])


def sydney(tzid="Test/Sydney"):
    return Zone(tzid, [
        dict(kind="STANDARD", start=D.datetime(1950, 7, 1, 0, 0, 0), frm=36000, to=36000, name="AEST", rule=None, rdates=[]),
        dict(kind="DAYLIGHT", start=D.datetime(2008, 10, 5, 2, 0, 0), frm=36000, to=39600, name="AEDT", rule=(10, 1, 0, None), rdates=[]),
        dict(kind="STANDARD", start=D.datetime(2009, 4, 5, 3, 0, 0), frm=39600, to=36000, name="AEST", rule=(4, 1, 0, None), rdates=[]),
    ])


def calendar_text(zones, comps=""):
    return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//verif//EN\r\n%s%sEND:VCALENDAR\r\n" % ("".join(z.text() for z in zones), comps)
