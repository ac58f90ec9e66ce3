# -*- coding: utf-8 -*-
"""C23: a calendar's answers agree with its components after any sequence of adding, removing and renaming."""
import datetime as D
import props_c13 as P
import props_c16 as C16
import refical as R
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from refcal import *
from vskip import Skip

RULE = ("histories on one calendar: components with and without recurrence, overridden instances before, without and after their masters, several of one identity, without UID, to-dos and timezones are added, removed as objects, by key and by type, all removed, "
        "put back, renamed to new, used and back to earlier UIDs, copied; after every step its components, masters, instances by UID, instance times, keys and expansion are compared with a model and with the same calendar read afresh; distinct by history")
REQUIRE = {"steps": 2500, "add": 600, "remove": 400, "remove-key": 100, "remove-type": 60, "remove-all": 60, "rename": 300, "rename-used": 60, "put-back": 150, "copy": 60, "overrides": 800, "hidden": 300, "instances": 8000, "no-uid": 60}
PLAN = [("histories", 550, 5000)]
ASSUMPTIONS = ["identities are changed through changeUID only, and UIDs are not shared by components of different types", "which of several equal components is removed is not judged"]

setup = P.setup
HEAD = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//v//EN\r\n"


def one_of(c, n):
    v = [p[3] for p in c[1] if p[0] == n]
    return v[0] if v else None


def histories(ctx, rng, i):
    clock = rng.choice([("utc", None), ("floating", None), ("zone", P.ZONES[0])])
    anchor = D.datetime(rng.randint(1995, 2045), rng.randint(1, 12), rng.randint(1, 28), 9, 0, 0)
    win = Period(P.mk(clock[0], clock[1], (anchor - D.timedelta(30)).replace(hour=0)), P.mk(clock[0], clock[1], (anchor + D.timedelta(60)).replace(hour=0)))
    texts = []
    for n in range(rng.randint(2, 4)):
        comps, _f, _r = C16.gen_event(ctx, rng, "u%d" % n, clock, anchor)
        if rng.random() < 0.2:
            comps = [[l.replace("VEVENT", "VTODO").replace("DTEND", "DUE") for l in c] for c in comps]
        texts += comps
    if rng.random() < 0.3:
        texts.append(["BEGIN:VEVENT", "DTSTAMP:20200101T000000Z", C16.prop("DTSTART", clock[0], clock[1], anchor), "END:VEVENT"])
        ctx.count("no-uid")
    if rng.random() < 0.3:
        texts.append(list(rng.choice(texts)))
    if rng.random() < 0.3:
        texts.append(["BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "END:VFREEBUSY"])
    if rng.random() < 0.3:
        texts.append(["BEGIN:X-THING", "UID:x", "END:X-THING"])
    texts = ["".join(l + "\r\n" for l in t) for t in texts]
    pool = [(t, R.canon(HEAD + t + "END:VCALENDAR\r\n")[0][2][0]) for t in texts]
    rng.shuffle(pool)
    k = rng.randint(0, len(pool))
    cal = Calendar.parseText(HEAD + "".join(t for t, _m in pool[:k]) + "END:VCALENDAR\r\n") if rng.random() < 0.8 else None
    model = [m for _t, m in pool[:k]]
    if cal is None:
        cal, model = Calendar(), []
        cal.setProperties({})
        for p in Calendar.parseText(HEAD + "END:VCALENDAR\r\n").getProperties().values():
            for q in p:
                cal.addProperty(q)
    out = [m for m in [p[1] for p in pool] if m not in model]
    kept = []
    log = ["%d components" % len(model)]
    ctx.seen(None, False) if 0 else None
    uids = ["u0", "u1", "u2", "u3", "new", "f"]
    for _ in range(rng.choice([4, 8, 14])):
        where = lambda: "after %s on %s" % ("; ".join(log), "".join(t for t, _m in pool)[:3000])
        op = rng.choice(["add"] * 4 + ["remove"] * 3 + ["remove-key", "remove-type", "remove-all", "rename", "rename", "put-back", "put-back", "copy"])
        if op in ("remove-type", "remove-all") and rng.random() < 0.5:
            continue
        try:
            objs = [(o, R.canon(HEAD + o.getText() + "END:VCALENDAR\r\n")[0][2][0]) for o in cal.getComponents()]
            if op == "add":
                m = rng.choice(out) if out else rng.choice(pool)[1]
                t = [x for x, y in pool if y == m]
                t = t[0] if t else rng.choice(pool)[0]
                m = R.canon(HEAD + t + "END:VCALENDAR\r\n")[0][2][0]
                o = Calendar.parseText(HEAD + t + "END:VCALENDAR\r\n").getComponents()[0]
                o.setParentComponent(cal)
                cal.addComponent(o)
                model.append(m)
            elif op == "put-back":
                if not kept:
                    continue
                o, m = kept.pop(rng.randrange(len(kept)))
                cal.addComponent(o)
                model.append(m)
            elif op == "remove":
                if not objs:
                    continue
                o, m = rng.choice(objs)
                same = len([1 for x in model if x == m]) > 1
                cal.removeComponent(o)
                model.remove(m)
                if not same:
                    kept.append((o, m))
            elif op == "remove-key":
                if not objs:
                    continue
                o, m = rng.choice(objs)
                key = o.getMapKey()
                f = cal.getComponentByKey(key)
                same = [x for x in objs if x[0].getMapKey() == key]
                if not ctx.check(f is same[0][0], "by-key", lambda: "getComponentByKey gives %s for the key of %s %s" % (f, o, where())):
                    return
                cal.removeComponentByKey(key)
                model.remove(same[0][1])
            elif op == "remove-type":
                t = rng.choice(["VEVENT", "VTODO", "vevent", "VFREEBUSY", "X-THING"])
                cal.removeAllComponent(t)
                model = [m for m in model if m[0] != t.upper()]
            elif op == "remove-all":
                cal.removeAllComponent()
                model = []
            elif op == "rename":
                old = rng.choice([one_of(m, "UID") for m in model if one_of(m, "UID")] or ["u0"]) if rng.random() < 0.9 else rng.choice(uids)
                new = rng.choice(uids)
                typ = set(m[0] for m in model if one_of(m, "UID") in (old, new))
                if len(typ) > 1:
                    continue
                if [1 for m in model if one_of(m, "UID") == new]:
                    ctx.count("rename-used")
                cal.changeUID(old, new)
                model = [R.comp(m[0], [(p[0], p[1], p[2], new) if p[0] == "UID" else p for p in m[1]], m[2]) if one_of(m, "UID") == old else m for m in model]
                op = "rename %s to %s" % (old, new)
            elif op == "copy":
                cal, was = cal.duplicate(), cal
                was.removeAllComponent()
                kept = []
        except Exception as e:
            ctx.viol("fails-" + e.__class__.__name__, "%s raised %r %s" % (op, e, where()))
            return
        log.append(op)
        ctx.count("steps")
        ctx.count(op.split(" ")[0])
        if not agree(ctx, rng, cal, model, win, where):
            return
    ctx.seen((tuple(log), tuple(t for t, _m in pool)), True, "; ".join(log))


def agree(ctx, rng, cal, model, win, where):
    txt = cal.getText(includeTimezones=Calendar.NO_TIMEZONES)
    got = R.canon(txt)[0]
    want = R.comp(got[0], got[1], model)
    if not ctx.check(got == want, "components", lambda: "the calendar has %s %s" % (R.diff(want, got), where())):
        return False
    for t in ("VEVENT", "VTODO", "VFREEBUSY", "vevent", "X-THING", "VJOURNAL"):
        n = sum(1 for m in model if m[0] == t.upper())
        a = (cal.countComponents(t), cal.hasComponent(t), len(cal.getComponents(t)))
        if not ctx.check(a == (n, n > 0, n), "counts", lambda: "count, has and get say %r of %s, expected %d %s" % (a, t, n, where())):
            return False
    # masters and instances
    recs = [m for m in model if m[0] in ("VEVENT", "VTODO")]
    masters = [m for m in recs if one_of(m, "RECURRENCE-ID") is None]
    a = cal.masterComponent()
    if not ctx.check((a is None) == (not masters), "master", lambda: "masterComponent() is %s %s" % (a, where())):
        return False
    ok = True
    for uid in set(one_of(m, "UID") for m in recs) | set(["u0", "new", "nobody"]):
        if uid is None:
            continue
        w = sorted([m for m in recs if one_of(m, "UID") == uid and one_of(m, "RECURRENCE-ID") is not None])
        ctx.count("overrides", len(w))
        items, ids = [], []
        cal.getRecurrenceInstancesItems("VEVENT", uid, items)
        cal.getRecurrenceInstancesIds("VEVENT", uid, ids)
        g = sorted(R.canon(HEAD + o.getText() + "END:VCALENDAR\r\n")[0][2][0] for o in items)
        ok = ctx.check(g == w, "instances", lambda: "the overridden instances of %s are %d: %r, expected %r %s" % (uid, len(g), [one_of(m, "RECURRENCE-ID") for m in g], [one_of(m, "RECURRENCE-ID") for m in w], where())) and ok
        x = sorted(tuple(int(n) for n in (d.getYear(), d.getMonth(), d.getDay())) for d in ids)
        y = sorted(one_of(m, "RECURRENCE-ID")[:3] for m in w)
        ok = ctx.check(x == y, "ids", lambda: "the instance times of %s are %r, expected %r %s" % (uid, x, y, where())) and ok
        inside = [o for o in items if not any(o is c for c in cal.getComponents())]
        ok = ctx.check(not inside, "strange", lambda: "an instance of %s is no component of the calendar %s" % (uid, where())) and ok
    # keys are those it has when read again
    again = Calendar.parseText(txt)

    def keys(c):
        return sorted((o.getType(), str(o.getMapKey())) for o in c.getComponents() if o.getType() in ("VEVENT", "VTODO") and o.getUID())
    ok = ctx.check(keys(cal) == keys(again), "keys", lambda: "the keys of components are %r, and read again %r %s" % (keys(cal), keys(again), where())) and ok

    # what it shows is what it shows when read again
    def shown(c):
        r = []
        c.getVEvents(win, r)
        return sorted((x.getOwner().getUID() or "", x.getInstanceStart().getText(), x.getInstanceEnd().getText(), x.getOwner().getSummary() or "") for x in r)
    a, b = shown(cal), shown(again)
    ctx.count("instances", len(a))
    ctx.count("hidden", sum(1 for m in masters if [o for o in recs if one_of(o, "UID") == one_of(m, "UID") and o is not m]))
    return ctx.check(a == b, "expansion", lambda: "it shows %r, and read again %r %s" % ([x for x in a if x not in b], [x for x in b if x not in a], where())) and ok
