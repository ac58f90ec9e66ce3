# -*- coding: utf-8 -*-
"""C21: the timezone database keeps to its directory, and every timezone it gives is the one that name means."""
import __builtin__
import datetime as D
import io
import os
import shutil
import refical as R
import reftz
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase as DB
from pycalendar.icalendar.calendar import Calendar

RULE = ("histories of questions (timezone, standard or not, offset, name, calendar with the timezone, date-times using it), of calendars read that bring their own timezones, of clearing and of changing the directory, over two "
        "scratch directories of timezone files - good, broken, empty, misnamed, in sub-directories - given in several spellings and surrounded by files that must not be read, with names that lead out of the directory, are absolute, "
        "empty, very long or hold a null; every answer is compared with a model of files and merged timezones, and every file opened is recorded; distinct by model state and question")
REQUIRE = {"asked": 4000, "found": 900, "standard": 80, "merged": 200, "escapes": 500, "refused": 500, "opened": 300, "broken": 150, "offsets": 150, "cleared": 80, "ops": 10, "paths": 5, "copies": 150}
PLAN = [("histories", 400, 7000)]
ASSUMPTIONS = ["the directories do not change while in use, and hold no links", "a name that is not known stays so until the database is cleared or a calendar with it is read; which of several timezones in one file can be asked for is not judged",
               "the files read are watched through open, io.open and os.open"]

OPENED = []
_open, _ioopen, _osopen = __builtin__.open, io.open, os.open


def watch(f):
    def g(path, *a, **k):
        OPENED.append(path)
        return f(path, *a, **k)
    return g


def setup(ctx):
    pass


NAMES = ["Plain", "Area/City", "Area/Sub/Deep", "Etc/GMT+5", "Two Words", "caf\xc3\xa9/Zone", "a.b"]
BROKEN = {"Broken": lambda z: z.text().replace("END:VTIMEZONE", "END:VEVENT"), "Cut": lambda z: reftz.calendar_text([z])[:140], "Empty": lambda z: "", "Hello": lambda z: "hello\n",
          "BadValue": lambda z: reftz.calendar_text([z]).replace("TZOFFSETTO:", "TZOFFSETTO:x"), "BadLine": lambda z: reftz.calendar_text([z]).replace("TZOFFSETTO:", "TZOFFSETTO"),
          "Misnamed": lambda z: reftz.calendar_text([z]).replace("TZID:Misnamed", "TZID:Other name"), "Bytes": lambda z: "\x00\xff\xfe" * 50}


def files(rng, root, which):
    """name -> zone, as found in that directory"""
    good = {}
    base = os.path.join(root, which)
    for n in rng.sample(NAMES, rng.randint(3, 6)):
        good[n] = reftz.fixed(n, 900 * rng.randint(-40, 40)) if rng.random() < 0.6 else rng.choice([reftz.eastern, reftz.sydney])(n)
        put(base, n, reftz.calendar_text([good[n]]))
    for n, f in BROKEN.items():
        put(base, n, f(reftz.fixed(n, 3600)))
    return good


def put(base, name, text, ext=".ics"):
    p = os.path.join(base, name + ext)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with _open(p, "wb") as f:
        f.write(text)
    return p


def spelled(rng, path):
    k = rng.randrange(6)
    d, b = os.path.split(path)
    return k, (path, path + "/", d + "//" + b, os.path.join(path, "..", b), os.path.relpath(path), d + "/./" + b + "//")[k]


def histories(ctx, rng, i):
    root = os.path.join(ctx.work, "tz%d" % ctx.shard)
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    old = DB.sTimezoneDatabase
    __builtin__.open, io.open, os.open = watch(_open), watch(_ioopen), watch(_osopen)
    try:
        run(ctx, rng, os.path.realpath(root))
    finally:
        __builtin__.open, io.open, os.open = _open, _ioopen, _osopen
        DB.sTimezoneDatabase = old
        shutil.rmtree(root)


def run(ctx, rng, root):
    have = {"db": files(rng, root, "db"), "db2": files(rng, root, "db2")}
    outside = []
    for n in ("db-private/Secret", "Outside", "dbx", "db2x/Secret"):
        put(root, n, reftz.calendar_text([reftz.fixed(x, 7200) for x in (n, "../" + n, os.path.join(root, n), "Secret", "Outside")]))
    # a file that can be named only with its extension
    put(os.path.join(root, "db"), "Noext", reftz.calendar_text([reftz.fixed("Noext", 7200)]), "")
    escapes = ["../Outside", "../db-private/Secret", "../dbx", "Area/../../Outside", "./../Outside", os.path.join(root, "Outside"), "/" + os.path.join(root, "Outside"), "../db2/Plain", "../../Outside", "..//Outside", "Area/City/../../../Outside",
               os.path.join(root, "db", "Plain"), "../db2x/Secret", "-private/Secret"]
    odd = ["", ".", "..", "/", "Area", "Plain.ics", "Noext", "plain\n", "x" * 400, "Pla\0in", "Area/../Plain", "../db/Plain", "Plain/", "Area//City", "*", "Pl?in", "~", "Nowhere/Land", "UTC0", u"Area/City\u20ac"]
    state = {"dir": None, "known": {}}

    def lookup(n):
        """(zone, standard) or None: what the name means now"""
        if n not in state["known"]:
            z = have[state["dir"]].get(n) if state["dir"] else None
            state["known"][n] = (z, True) if z is not None else None
        return state["known"][n]

    def create(move=False):
        d = rng.choice(["db", "db", "db2", "db2", "db2", None])
        if d is None:
            DB.createTimezoneDatabase(None)
        else:
            k, p = spelled(rng, os.path.join(root, d))
            ctx.mark("paths", k)
            if move:
                DB.getTimezoneDatabase().setPath(p)
                DB.clearTimezoneDatabase()
            else:
                DB.createTimezoneDatabase(p)
        state.update(dir=d, known={})
        del OPENED[:]
        return "directory %s" % d

    log = [create()]
    for _ in range(rng.choice([8, 20, 40])):
        op = rng.choice(["get"] * 5 + ["std", "std", "offset", "offset", "name", "calendar", "date", "merge", "merge", "clear", "create", "move"])
        if op in ("create", "move") and rng.random() < 0.6 or op == "clear" and rng.random() < 0.5:
            continue
        kind = rng.choice(["good", "good", "good", "good", "good", "mem", "escape", "odd", "broken"])
        n = rng.choice({"good": NAMES, "mem": ["Own/A", "Own/B"], "escape": escapes, "odd": odd, "broken": sorted(BROKEN)}[kind])
        ctx.mark("ops", op)
        log.append("%s %r" % (op, n))
        where = lambda: "after %s" % "; ".join(log[-40:])
        if op in ("create", "move"):
            log[-1] = create(op == "move")
            continue
        if op == "clear":
            DB.clearTimezoneDatabase()
            state["known"] = {}
            del OPENED[:]
            ctx.count("cleared")
            continue
        if op == "merge":
            if kind in ("odd", "escape"):
                n = rng.choice(["Own/A", "Own/B", "../Outside"])
            if not isinstance(n, str) or n in BROKEN:
                continue
            z = reftz.fixed(n, 60 * rng.randint(-600, 600))
            log[-1] = "read a calendar with %r at %d" % (n, z.obs[0]["to"])
            cal = Calendar.parseText(reftz.calendar_text([z]))
            if lookup(n) is None:
                state["known"][n] = (z, False)
                ctx.count("merged")
            # what happens to the calendar later is its own affair
            tz = cal.getTimezone(n)
            if rng.random() < 0.5:
                tz.removeProperties("TZID")
                tz.removeAllComponent()
                ctx.count("copies")
            continue
        want = lookup(n)
        ctx.count("asked")
        ctx.seen((op, n if isinstance(n, str) else repr(n), state["dir"], want and (want[0].text(), want[1]), sorted(k for k, v in state["known"].items() if v)), True, "; ".join(log[-6:]))
        if kind == "escape":
            ctx.count("escapes")
        if kind == "broken":
            ctx.count("broken")
        t = D.datetime(rng.randint(1995, 2040), rng.choice([1, 7]), rng.randint(5, 25), rng.randint(0, 23), 0, 0)
        dt = DateTime(t.year, t.month, t.day, t.hour, 0, 0)
        try:
            if op == "get":
                got = DB.getTimezone(n)
                got2 = DB.getTimezone(n)
                ctx.check((got is None) == (got2 is None) and (got is None or got == got2), "changed", lambda: "%r asked twice gave %s and %s %s" % (n, got, got2, where()))
            elif op == "std":
                a = DB.isStandardTimezone(n)
                ctx.check(bool(a) == bool(want and want[1]), "standard", lambda: "%r standard: %r, expected %r %s" % (n, a, bool(want and want[1]), where()))
                ctx.count("standard", int(bool(a)))
                got = DB.getTimezone(n)
            elif op == "offset":
                a = DB.getTimezoneOffsetSeconds(n, dt)
                got = DB.getTimezone(n)
                w = want[0].classify(t)[1] if want else 0
                ctx.count("offsets", int(want is not None))
                ctx.check(a == w, "offset", lambda: "%r at %s: offset %r, expected %r %s" % (n, t, a, w, where()))
            elif op == "name":
                a = DB.getTimezoneDescriptor(n, dt)
                got = DB.getTimezone(n)
                w = "(%s)" % want[0].classify(t)[2] if want else ""
                ctx.check(a == w, "descriptor", lambda: "%r at %s: name %r, expected %r %s" % (n, t, a, w, where()))
            elif op == "calendar":
                cal = DB.getTimezoneInCalendar(n)
                got = cal and cal.getTimezone(n)
                ctx.check((cal is None) == (want is None), "calendar", lambda: "a calendar with %r: %r, expected %r %s" % (n, cal, want, where()))
                if cal is not None:
                    c = R.canon(str(cal))
                    ctx.check(c[0][0] == "VCALENDAR" and [k[0] for k in c[0][2]] == ["VTIMEZONE"] and "VERSION" in [p[0] for p in c[0][1]] and not sum(cal.validate(), []), "calendar", lambda: "%r gave the calendar %s" % (n, cal))
                    same = R.canon(got.getText())
                    got.removeAllComponent()
                    got.removeProperties("TZID")
                    cal.removeAllComponent()
                    got = DB.getTimezone(n)
                    ctx.count("copies")
                    ctx.check(got is not None and R.canon(got.getText()) == same, "copies", lambda: "changing the calendar with %r changed the database: %s" % (n, got))
            else:
                if not n or not isinstance(n, str):
                    continue
                dt = DateTime(t.year, t.month, t.day, t.hour, 0, 0, tzid=Timezone(utc=False, tzid=n))
                a = dt.getPosixTime()
                got = DB.getTimezone(n)
                w = (t - D.datetime(1970, 1, 1)).total_seconds() - (want[0].classify(t)[1] if want else 0)
                ctx.check(a == w, "date-time", lambda: "%s in %r: %r, expected %r %s" % (t, n, a, w, where()))
        except Exception as e:
            ctx.viol("fails-" + e.__class__.__name__, "asking for %r raised %r %s" % (n, e, where()))
            continue
        if want is None:
            ctx.check(got is None, "invented" if kind != "escape" else "escaped", lambda: "%r gave a timezone, expected none %s:\n%s" % (n, where(), got))
            ctx.count("refused")
        else:
            ctx.count("found")
            if ctx.check(got is not None, "lost", lambda: "no timezone %r, expected %s %s" % (n, "the file" if want[1] else "the merged one", where())):
                ctx.check(R.canon(got.getText()) == R.canon(want[0].text()), "content", lambda: "%r gave\n%s\nexpected\n%s %s" % (n, got, want[0].text(), where()))
        base = os.path.join(root, state["dir"] or "none", "")
        seen = {}
        for p in OPENED:
            p = os.path.abspath(p) if isinstance(p, basestring) and "\0" not in p else ""
            if p.startswith(root + "/"):
                ctx.count("opened")
                if not p.startswith(base):
                    ctx.viol("read-outside", "%s was read, outside %s %s" % (p, base, where()))
                seen[p] = seen.get(p, 0) + 1
        for p, k in seen.items():
            names = [x for x in state["known"] if "\0" not in x and os.path.abspath(os.path.join(base, x + ".ics")) == p]
            if k > max(1, len(names)):
                ctx.viol("read-again", "%s was read %d times since the database was cleared %s" % (p, k, where()))
