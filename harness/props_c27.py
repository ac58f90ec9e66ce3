# -*- coding: utf-8 -*-
"""C27: the directory of timezone files that is generated is complete and is usable as a timezone database."""
import datetime as D
import os
import re
import shutil
import props_c25 as P
import reftzdata as T
import refical as R
from vskip import Skip
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase as DB

RULE = ("selections of the zones of a tzdata release and links between them (to links, to nothing, with names that contain one another), Windows aliases from a supplemental data file, filters and years, written into a scratch directory that is new, "
        "empty or full of older files; the files found there, their TZIDs, the link list and the offsets the timezone database then gives for zones, links and aliases are compared with an independent reading of the source; every path removed or written is recorded; distinct by source and options")
REQUIRE = {"runs": 60, "zone-files": 200, "link-files": 150, "dangling": 20, "aliases": 60, "old-files": 60, "offsets": 3000, "removed": 60, "written": 400, "filtered": 10, "no-links": 5, "utc-names": 10}
PLAN = [("directories", 130, 2500)]
ASSUMPTIONS = ["a link to a link counts on the name it points at sorting before it or being a zone: others are reported as missing, as are links to zones not selected", "offsets are looked at from the last local mean time on, away from changes at 24:00",
               "removing and writing are watched through os.remove, os.unlink, os.rmdir, os.makedirs, os.mkdir, os.rename, shutil.rmtree and open, and let through inside the scratch directory only"]


def setup(ctx):
    P.setup(ctx)
    # this interpreter looks for an XML reader that is not installed: the one of the JDK takes its place
    from xml.parsers import expat
    try:
        import xml.etree.cElementTree as X
        X.fromstring("<a/>")
    except:     # a Java exception
        expat._xerces_parser_name = expat._mangled_xerces_parser_name = "com.sun.org.apache.xerces.internal.parsers.SAXParser"


class Escape(Exception):
    pass


class Watch(object):
    """records what is removed and written, and lets nothing outside of one directory through"""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.removed, self.written, self.outside = [], [], []

    def inside(self, path, log):
        p = os.path.realpath(os.path.abspath(path))
        if p == self.root or p.startswith(self.root + os.sep):
            log.append(p)
            return True
        self.outside.append(p)
        return False

    def __enter__(self):
        import __builtin__
        self.was = [(m, n, getattr(m, n)) for m, n in ((os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "makedirs"), (os, "mkdir"), (os, "rename"), (shutil, "rmtree"), (__builtin__, "open"))]

        def guard(f, log):
            def g(path, *a, **k):
                if not self.inside(path, log):
                    raise Escape(path)
                return f(path, *a, **k)
            return g

        def opener(f):
            def g(path, mode="r", *a, **k):
                if set(mode) & set("wa+") and path != os.devnull and not self.inside(path, self.written):
                    raise Escape(path)
                return f(path, mode, *a, **k)
            return g
        for m, n, f in self.was:
            if n == "open":
                setattr(m, n, opener(f))
            else:
                setattr(m, n, guard(f, self.removed if n in ("remove", "unlink", "rmdir", "rmtree") else self.written))
        return self

    def __exit__(self, *a):
        for m, n, f in self.was:
            setattr(m, n, f)


def found(base):
    res = {}
    for root, _d, files in os.walk(base):
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, base)] = f.read()
    return res


def link_names(rng, zones):
    """[(link, target)]"""
    res = []
    pool = ["Old/Name", "Alias", "Zulu", "Area/Sub/Deep", "GB", "A", "US/Somewhere", "Etc/Other", "Aa/Zero", "aaa", "bB", "Bbb"]
    for n in rng.sample(pool, rng.randint(1, 6)):
        k = rng.random()
        if k < 0.65 or not res:
            res.append((n, rng.choice(zones)))
        elif k < 0.8:
            res.append((n, rng.choice(res)[0]))
        else:
            res.append((n, rng.choice(["Nowhere/Known", "Gone", zones[0] + "x"])))
    if rng.random() < 0.4:
        z = rng.choice(zones)
        res.append((rng.choice([z + "2", z + "/Suburb" if False else z + "_New", "Pre" + z.split("/")[-1]]), z))
    if rng.random() < 0.3:
        res.append((rng.choice(WINDOWS[:2]).replace(" ", "_"), rng.choice(zones)))
    return res


WINDOWS = ["UTC-11", "Aliased_Time", "W. Test Standard Time", "Eastern Standard Time", "UTC-02", "Central Asia Standard Time", "Dateline Standard Time", "Tom's Time", "A & B Time"]


def esc(s):
    return s.replace("&", "&amp;").replace('"', "&quot;")


def windows(rng, zones, links):
    """(text, [(alias, target)])"""
    rows, want = [], []
    for n in rng.sample(WINDOWS, rng.randint(1, 5)):
        z = rng.choice(zones + ["Gone/Away"])
        rows.append((n, "001", z))
        want.append((n, z))
        if rng.random() < 0.6:
            rows.append((n, rng.choice(["US", "GB", "ZZ"]), rng.choice(zones)))
    if rng.random() < 0.3:
        rows.append((rng.choice(WINDOWS), "DE", rng.choice(zones)))
    out = ['<?xml version="1.0" encoding="UTF-8" ?>', '<supplementalData><version number="$Revision$"/><windowsZones><mapTimezones otherVersion="7e00402" typeVersion="2016i">']
    out += ['<!-- x --><mapZone other="%s" territory="%s" type="%s"/>' % (esc(a), t, esc(z)) for a, t, z in rows]
    out.append("</mapTimezones></windowsZones></supplementalData>")
    return "\n".join(out), want


def retitled(text, old, new):
    """the file of a zone under another name"""
    res = []
    for l in R.lines_of(text):
        if l in ("TZID:" + old, "X-LIC-LOCATION:" + old):
            l = l[:-len(old)] + new
        res.append(l)
    return res


def directories(ctx, rng, i):
    from zonal.tzconvert import tzconvert
    base = os.path.join(ctx.work, "zones%d" % i)
    os.makedirs(base)
    out = os.path.join(base, rng.choice(["out", "a b", "zone.info"]))
    names = sorted(rng.sample(ctx.names, rng.randint(1, 6)))
    zs = dict((n, ctx.zones[n]) for n in names)
    if rng.random() < 0.35:
        # names whose abbreviations are the same, as those of EST or UTC are
        for n in rng.sample(["EST", "UTC", "GMT", "Etc/UTC", "WET"], rng.randint(1, 2)):
            zs[n] = [[{"EST": "-5:00"}.get(n, "0:00"), "-", n.split("/")[-1]]]
            ctx.count("utc-names")
    if rng.random() < 0.4:
        # a name that continues another
        zs[rng.choice(names) + rng.choice(["_West", "2", "/Sub", "-1"])] = [["%d:%02d" % (rng.randint(1, 11), rng.choice([0, 30])), "-", "XYZ"]]
    names = sorted(zs)
    links = link_names(rng, names)
    text = P.source(rng, names, ctx.rules, zs)
    text += "".join("Link\t%s\t%s%s\n" % (t, n, P.note(rng)) for n, t in links)
    src = os.path.join(base, "src")
    with open(src, "w") as f:
        f.write(text)
    parts = [src]
    lo, hi = (1800, 2018) if rng.random() < 0.7 else (rng.randint(1850, 1950), rng.choice([2012, 2030]))
    use_links = rng.random() < 0.9
    aliases, wfile = [], None
    if rng.random() < 0.7:
        wtext, aliases = windows(rng, names, links)
        wfile = os.path.join(base, "windowsZones.xml")
        with open(wfile, "w") as f:
            f.write(wtext)
    chosen = None
    if rng.random() < 0.3:
        chosen = rng.sample(names, rng.randint(1, len(names)))
        longest = max(names, key=len)
        if rng.random() < 0.6 and longest not in chosen:
            chosen = [longest]
        ctx.count("filtered")
    outside = os.path.join(base, "keep.ics")
    with open(outside, "w") as f:
        f.write("keep")
    if rng.random() < 0.7:
        for n in rng.sample(["junk.ics", "Old/gone.ics", "links.txt", "Area/Sub/x.ics", "Deep/Er/Still/y.txt", names[0] + ".ics"], rng.randint(1, 5)):
            p = os.path.join(out, n)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, "w") as f:
                f.write("old")
            ctx.count("old-files")
    where = lambda: "years %d-%d links %s filter %r windows %r: %s" % (lo, hi, use_links, chosen, aliases, text[-2500:])
    conv = tzconvert()
    w = Watch(out)
    with P.quiet():
        for p in parts:
            conv.parse(p)
        with w:
            conv.generateZoneinfoFiles(out, lo, hi, links=use_links, windowsAliases=wfile, filterzones=chosen)
    ctx.count("runs")
    ctx.count("removed", len(w.removed))
    ctx.count("written", len(w.written))
    ctx.seen((text, lo, hi, use_links, repr(chosen), repr(aliases)), True, text[-300:])
    ctx.check(not w.outside, "outside", lambda: "touched %r; %s" % (w.outside, where()))
    with open(outside) as f:
        ctx.eq(f.read(), "keep", "neighbour", "a file beside the directory")
    got = found(out)
    keep = [n for n in names if not chosen or n in chosen]
    # which links there are: the first of a name counts for an alias, the last for a Link line
    table = {}
    for n, t in links:
        table[n] = t
    if wfile is not None and use_links:
        for n, t in aliases:
            table.setdefault(n, t)
    if not use_links:
        table = {}
        ctx.count("no-links")
    want = dict((n, n) for n in keep)
    listed = []
    for n in sorted(table):
        if table[n] in want:
            want[n] = want[table[n]]
            listed.append((n, table[n]))
        else:
            ctx.count("dangling")
    files = set(n + ".ics" for n in want) | (set(["links.txt"]) if use_links else set())
    ctx.check(set(got) == files, "files", lambda: "has %r too many and %r too few; %s" % (sorted(set(got) - files), sorted(files - set(got)), where()))
    if use_links and "links.txt" in got:
        ctx.eq(got["links.txt"].split("\n") if got["links.txt"] else [], ["%s\t%s" % x for x in listed], "link-list", "links.txt")
    with P.quiet():
        again = tzconvert()
        for p in parts:
            again.parse(p)
    rules, zones, _l = T.read("\n".join(l for l in text.split("\n") if not l.startswith("Link")))
    DB.createTimezoneDatabase(out)
    try:
        for n in sorted(want):
            data = got.get(n + ".ics")
            if data is None:
                continue
            z = want[n]
            ctx.count("zone-files" if n == z else "link-files")
            if n in WINDOWS:
                ctx.count("aliases")
            own = retitled(again.vtimezones(lo, hi, [z]), z, n)
            if not ctx.check(R.lines_of(data) == own, "file-link" if n != z else "file-zone", lambda: "file of %s (%s) is %r, not %r" % (n, z, data, own)):
                continue
            offsets(ctx, rng, n, rules, zones[z], lo, hi, where)
    finally:
        DB.createTimezoneDatabase(None)
    # a second time, over the first
    if rng.random() < 0.3:
        w = Watch(out)
        with P.quiet():
            with w:
                again.generateZoneinfoFiles(out, lo, hi, links=use_links, windowsAliases=wfile, filterzones=chosen)
        ctx.check(not w.outside, "outside", lambda: "touched %r; %s" % (w.outside, where()))
        ctx.check(found(out) == got, "again", lambda: "a second run gives other files; %s" % where())
    shutil.rmtree(base)


def offsets(ctx, rng, name, rules, lines, lo, hi, where):
    tr = T.expand(rules, lines, 2050)
    lmt = max([0] + [k for k, z in enumerate(lines) if z.fmt == "LMT"])
    first = D.datetime(lo, 1, 1)
    begin = first + D.timedelta(2)
    if len(lines) > 1:
        since = ([t[0] for t in tr if t[4] > lmt] + [None])[0]
        if since is None:
            return
        begin = max(begin, since)
    known = [t[0] for t in tr[1:] if t[0] >= first and (t[4] > lmt or len(lines) == 1)]
    if lo > 1800 and known:
        begin = max(begin, known[0])
    end = D.datetime(hi, 1, 1) - D.timedelta(2)
    if end - begin < D.timedelta(10):
        return
    changes = [t[0] for t in tr[1:] if begin <= t[0] < end]
    pts = [begin + D.timedelta(rng.randint(1, (end - begin).days - 1), rng.randint(0, 86399)) for _ in range(8)]
    for c in rng.sample(changes, min(4, len(changes))):
        pts += [c + D.timedelta(seconds=1), c - D.timedelta(seconds=3)]
    tz = Timezone(utc=False, tzid=name)
    for u in pts:
        if u < begin:
            continue
        ctx.count("offsets")
        dt = DateTime(u.year, u.month, u.day, u.hour, u.minute, u.second, tzid=Timezone(utc=True))
        got = tz.timeZoneSecondsOffset(dt, True)
        want = T.offset(tr, u)[1]
        if not ctx.check(got == want, "offset", lambda: "%s at %s UTC: %s, not %s; %s" % (name, u, got, want, where())):
            return
