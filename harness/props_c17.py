# -*- coding: utf-8 -*-
"""C17: duplicates are equal and independent."""
import json
import re
import refical as R
import icalgen as G
import vcardgen as V
import views
from vskip import Skip
from pycalendar.componentbase import ComponentBase
from pycalendar.datetime import DateTime
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.componentexpanded import ComponentExpanded
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.parser import ParserContext
from pycalendar.period import Period
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty
from pycalendar.timezonedb import TimezoneDatabase

RULE = ("random calendars, vCards, components, properties and values, fresh or used (expanded, asked, written); duplicated, compared with the original and with a fresh reading by all public questions, text, JSON, XML and expansions, "
        "then 1-5 public changes to objects reached from one side while the other is watched, in both directions; distinct by text and changes")
REQUIRE = {"wholes": 60, "components": 200, "properties": 700, "parts": 500, "part-kinds": 20, "reached": 20000, "changes": 1500, "change-kinds": 18, "expanded": 30, "overridden": 40, "component-kinds": 15, "value-kinds": 12, "held": 400}
PLAN = [("wholes", 110, 6000), ("components", 290, 12000), ("parts", 90, 6000), ("properties", 1000, 60000), ("reached", 1600, 20000)]
ASSUMPTIONS = ["objects are reached through public questions only; the clock-dependent answers are left out", "components without UID are compared without regard to their order"]

FINE = (definitions.eRecurrence_SECONDLY, definitions.eRecurrence_MINUTELY, definitions.eRecurrence_HOURLY)
KIND = re.compile(r"[a-zA-Z]+\(\)|[A-Z]{3,}")
WINDOW = {"SECONDLY": 120, "MINUTELY": 7200, "HOURLY": 3 * 86400}


def window(comp):
    start = comp.getStart().duplicate()
    n = 400 * 86400
    for p in comp.getProperties("RRULE") + comp.getProperties("EXRULE"):
        for f in WINDOW:
            if "FREQ=" + f in str(p):
                n = min(n, WINDOW[f])
    end = start.duplicate()
    if end.isDateOnly():
        end.offsetDay(max(1, n // 86400))
    else:
        end.offsetSeconds(n)
    return Period(start, end)


def expansions(cal, where):
    out = []
    for c in cal.getComponents():
        if hasattr(c, "expandPeriod") and c.getType() in ("VEVENT", "VTODO", "VJOURNAL"):
            items = []
            if c.getStart().isDateOnly() and any("FREQ=" + f in str(p) for f in WINDOW for p in c.getProperties("RRULE") + c.getProperties("EXRULE")):
                # not a rule for dates
                continue
            try:
                c.expandPeriod(window(c), items)
            except Exception as e:
                items = []
                out.append("raises " + e.__class__.__name__)
            out.append([(views.plain(i.getInstanceStart(), where), views.plain(i.getInstanceEnd(), where), i.recurring(), where.get(id(i.getOwner()), "outside"), where.get(id(i.getTrueMaster()), "outside")) for i in items])
    return out


def whole(cal, expand=False):
    """all a caller sees of a calendar or vCard"""
    where = views.paths(cal)
    out = [views.view(cal, where), str(cal).split("\r\n"), cal.getTextJSON().split("\n")]
    if isinstance(cal, Calendar):
        uids = sorted(set(c.getUID() for c in cal.getComponents()))
        index = []
        for u in uids:
            items, ids = [], []
            cal.getRecurrenceInstancesItems("VEVENT", u, items)
            cal.getRecurrenceInstancesIds("VEVENT", u, ids)
            index.append((u, sorted(where.get(id(i), "outside") for i in items), sorted(map(str, ids))))
        zones = [(t.getID(), where.get(id(cal.getTimezone(t.getID())), "outside")) for t in cal.getComponents("VTIMEZONE")]
        out += [index, zones, views.plain(cal.masterComponent(), where), cal.getMethod()]
        if expand:
            out.append(expansions(cal, where))
    return out


def anonymous(cal):
    return any(not c.getUID() for c in cal.getComponents() if hasattr(c, "getUID") and c.getType() != "VTIMEZONE")


def canonical(w, vcard):
    """without the order of text"""
    return [w[0], R.canon("\r\n".join(w[1]), vcard)[0]] + w[3:]


def use(rng, obj):
    """caches get filled"""
    for _ in range(rng.choice([0, 0, 1, 3])):
        k = rng.randrange(4)
        if k == 0:
            str(obj)
        elif k == 1 and isinstance(obj, Calendar):
            expansions(obj, {})
        elif k == 2:
            views.view(obj)
        elif k == 3 and isinstance(obj, Calendar):
            for c in obj.getComponents("VTIMEZONE"):
                c.getTimezoneOffsetSeconds(DateTime(rng.randint(1990, 2030), rng.randint(1, 12), 1, 12, 0, 0))


def changes(ctx, rng, obj, n):
    done = []
    for _ in range(n):
        # what can be reached may change
        r = views.reach(obj)
        ctx.count("reached", len(r))
        # rare kinds as often as common ones
        kinds = {}
        for how, x in r:
            kinds.setdefault((x.__class__.__name__, tuple(KIND.findall(how)[-1:])), []).append((how, x))
        how, x = rng.choice(kinds[rng.choice(sorted(kinds, key=repr))] if rng.random() < 0.6 else r)
        try:
            k = views.change(rng, x)
        except Exception:
            # the object no longer takes it
            k = None
        if k:
            ctx.count("changes")
            ctx.mark("change-kinds", k)
            done.append("%s %s" % (k, how))
    return done


def model(ctx, rng):
    vcard = rng.random() < 0.2
    if vcard:
        m = V.card(rng)
    else:
        m = G.calendar(rng, size=rng.choice([1, 2, 3]))
        if rng.random() < 0.5:
            # an event with overridden instances
            uid = "u%d" % rng.randint(1, 9)
            subs = [G.recurring(rng, "VEVENT", uid=uid)]
            for n in range(rng.randint(1, 3)):
                rid = ("RECURRENCE-ID", (("RANGE", ("THISANDFUTURE",)),) if rng.random() < 0.2 else (), "DATE-TIME", G.datetime(rng))
                subs.append(G.recurring(rng, "VEVENT", uid=uid, rid=rid))
                ctx.count("overridden")
            m = R.comp(m[0], m[1], list(m[2]) + subs)
    return vcard, m, R.write(rng, m, vcard)


def fresh(vcard, text):
    return Card.parseText(text) if vcard else Calendar.parseText(text)


def wholes(ctx, rng, i):
    TimezoneDatabase.clearTimezoneDatabase()
    vcard, m, text = model(ctx, rng)
    orig = fresh(vcard, text)
    use(rng, orig)
    expand = not vcard and rng.random() < 0.5
    dup = orig.duplicate()
    if rng.random() < 0.3:
        dup = dup.duplicate()
    other = fresh(vcard, text)
    seen = [whole(x, expand) for x in (other, orig, dup)]
    loose = vcard is False and anonymous(orig)
    if loose:
        seen = [canonical(x, vcard) for x in seen]
    ctx.count("wholes")
    ctx.count("expanded", int(expand))
    for c in orig.getComponents():
        ctx.mark("component-kinds", c.getType())
        for s in c.getComponents():
            ctx.mark("component-kinds", s.getType())
    ctx.check(seen[1] == seen[0], "original-changed", "%s\n%s" % (views.difference(seen[0], seen[1]), text))
    ctx.check(seen[2] == seen[0], "duplicate-differs", "%s\n%s" % (views.difference(seen[0], seen[2]), text))
    ctx.check(dup == orig and orig == dup and not dup != orig, "duplicate-not-equal", text)
    # either side may be changed
    a, b, which = (orig, dup, "original") if rng.random() < 0.5 else (dup, orig, "duplicate")
    done = changes(ctx, rng, a, rng.randint(1, 5))
    now = whole(b, expand)
    if loose:
        now = canonical(now, vcard)
    ctx.check(now == seen[0], "shared-after-change-of-" + which, "%s: %s\n%s" % (done, views.difference(seen[0], now), text))
    ctx.seen((text, tuple(done)), True, text)


def components(ctx, rng, i):
    """a component out of its calendar"""
    TimezoneDatabase.clearTimezoneDatabase()
    vcard, m, text = model(ctx, rng)
    if vcard:
        return properties(ctx, rng, i)
    cal = fresh(False, text)
    use(rng, cal)
    comps = cal.getComponents()
    if not comps:
        return
    orig = rng.choice(comps)
    n = comps.index(orig)
    subs = orig.getComponents()
    if subs and rng.random() < 0.4:
        orig = rng.choice(subs)
    ctx.count("components")
    ctx.mark("component-kinds", orig.getType())
    target = Calendar() if rng.random() < 0.5 else None
    dup = orig.duplicate(parent=target) if target is not None else orig.duplicate()
    ctx.check(dup.getParentComponent() is target, "parent", text)
    if target is not None:
        target.addComponent(dup)
    before = views.view(orig)
    mine = views.view(dup)
    ctx.check(mine == before, "component-differs", "%s\n%s" % (views.difference(before, mine), orig))
    ctx.check(sorted(R.lines_of(str(dup))) == sorted(R.lines_of(str(orig))), "component-text", "%s\n%s" % (dup, orig))
    ctx.check(dup == orig and not dup != orig, "component-not-equal", str(orig))
    whole_before = whole(cal)
    if rng.random() < 0.5:
        done = changes(ctx, rng, target if target is not None else dup, rng.randint(1, 5))
        now = whole(cal)
        if anonymous(cal):
            now, whole_before = canonical(now, False), canonical(whole_before, False)
        ctx.check(now == whole_before, "shared-after-change-of-copy", "%s: %s\n%s" % (done, views.difference(whole_before, now), text))
    else:
        done = changes(ctx, rng, cal if rng.random() < 0.5 else orig, rng.randint(1, 5))
        now = views.view(dup)
        ctx.check(now == mine, "shared-after-change-of-source", "%s: %s\n%s" % (done, views.difference(mine, now), text))
    ctx.seen((text, n, tuple(done)), True, text)


def wipe(j):
    for v in j.values() if isinstance(j, dict) else j:
        if isinstance(v, (list, dict)):
            wipe(v)
    if isinstance(j, dict):
        j.clear()
    else:
        del j[:]


def look(x):
    j = []
    x.writeJSON(j)
    text = json.dumps(j, sort_keys=True)
    # what was written is the caller's
    wipe(j)
    return (x.getText(), text, x.getName(), x.getGroup(), views.answers(x, {}), views.plain(x.getParameters(), {}))


ODD = ["TEL;HOME:1", "N:a;b;c;d;e;f", "ADR:1;2;3;4;5;6;7;8"]


def properties(ctx, rng, i):
    vcard = rng.random() < 0.35
    p = V.prop(rng, rng.choice(V.NAMES)) if vcard else None
    if vcard:
        line = R.w_prop(rng, p, True)
    else:
        while True:
            m = G.calendar(rng, size=1)
            ps = list(m[1]) + [q for c in m[2] for q in c[1]]
            if ps:
                break
        line = R.w_prop(rng, rng.choice(ps))
    cls = VProperty if vcard else Property
    odd = vcard and rng.random() < 0.05
    if odd:
        line = rng.choice(ODD)
    keep = ParserContext.INVALID_ADR_N_VALUES
    try:
        if odd:
            ParserContext.INVALID_ADR_N_VALUES = ParserContext.PARSER_ALLOW
        orig = cls.parseText(line)
    finally:
        ParserContext.INVALID_ADR_N_VALUES = keep
    ctx.count("properties")
    ctx.mark("value-kinds", orig.getValue().__class__.__name__)
    dup = orig.duplicate()

    a, b = look(orig), look(dup)
    ctx.check(a == b, "property-differs", "%r: %s" % (line, views.difference(a, b)))
    ctx.check(dup == orig and not dup != orig and hash(dup) == hash(orig), "property-not-equal", repr(line))
    x, y, which = (orig, dup, "original") if rng.random() < 0.5 else (dup, orig, "duplicate")
    done = changes(ctx, rng, x, rng.randint(1, 3))
    now = look(y)
    ctx.check(now == a, "property-shared-after-change-of-" + which, "%s: %r: %s" % (done, line, views.difference(a, now)))
    ctx.seen((line, tuple(done)), True, line)


FULL = [
    (False, "RRULE;X-A=1,2:FREQ=YEARLY;INTERVAL=2;COUNT=9;BYSECOND=1,2;BYMINUTE=3,4;BYHOUR=5,6;BYDAY=MO,-1TU;BYMONTHDAY=1,-1;BYMONTH=3,4;BYSETPOS=1,-1;WKST=SU"),
    (False, "EXRULE:FREQ=YEARLY;UNTIL=20300101T000000Z;BYYEARDAY=5,-5;BYWEEKNO=1,20;BYDAY=SA,SU;BYSETPOS=2"),
    (False, "RDATE;VALUE=PERIOD;X-A=1;X-B=2,3:20200101T000000Z/PT1H,20200102T000000Z/20200102T030000Z"),
    (False, "EXDATE;TZID=Any/Zone:20200101T000000,20200102T000000"),
    (False, "FREEBUSY;FBTYPE=BUSY:20200101T000000Z/PT1H,20200102T000000Z/PT2H"),
    (False, "TRIGGER;RELATED=END:-PT15M"),
    (False, "CATEGORIES;LANGUAGE=en:a,b,c"),
    (False, "GEO:1.5;2.5"),
    (False, "REQUEST-STATUS:2.0;Success;more"),
    (False, "ATTENDEE;CN=a;MEMBER=\"x\",\"y\":mailto:a@example.com"),
    (False, "DTSTART;TZID=Any/Zone:20200101T000000"),
    (True, "grp.N;X-A=1,2:a;b,c;d,e;f;g"),
    (True, "ADR;TYPE=home,work:1;2;3,4;5;6;7;8"),
    (True, "ORG:a;b;c"),
    (True, "GEO:1.5;2.5"),
    (True, "NICKNAME:a,b"),
    (True, "REV:20200101T000000Z"),
    (True, "TZ:-05:30"),
]


def reached(ctx, rng, i):
    """one after the other, each thing that is held by properties which hold as much as they can"""
    vcard, line = FULL[i % len(FULL)]
    cls = VProperty if vcard else Property
    orig = cls.parseText(line)
    if rng.random() < 0.5:
        look(orig)
    dup = orig.duplicate()
    a, b = look(orig), look(dup)
    ctx.check(a == b, "property-differs", "%r: %s" % (line, views.difference(a, b)))
    n = i // len(FULL)
    x, y, which = (orig, dup, "original") if n % 4 == 3 else (dup, orig, "duplicate")
    held = views.reach(x)
    ctx.count("reached", len(held))
    how, z = held[n % len(held)]
    try:
        k = views.change(rng, z)
    except Exception:
        k = None
    if not k:
        raise Skip()
    ctx.count("held")
    ctx.mark("change-kinds", k)
    now = look(y)
    ctx.check(now == a, "property-shared-after-change-of-" + which, "%s %s: %r: %s" % (k, how, line, views.difference(a, now)))
    ctx.seen((line, k, how), True, "%s: %s %s" % (line, k, how))


def parts(ctx, rng, i):
    """whatever else has duplicates, as reached from a calendar or vCard, and expanded instances"""
    TimezoneDatabase.clearTimezoneDatabase()
    vcard, m, text = model(ctx, rng)
    obj = fresh(vcard, text)
    use(rng, obj)
    things = [(how, x) for how, x in views.reach(obj) if hasattr(x, "duplicate") and not isinstance(x, ComponentBase)]
    for c in [] if vcard else obj.getComponents():
        if hasattr(c, "getRecurrenceSet") and c.getRecurrenceSet() is not None:
            things.append(("getRecurrenceSet()", c.getRecurrenceSet()))
        if hasattr(c, "getStart"):
            things.append(("Period", Period(c.getStart().duplicate(), c.getEnd().duplicate())))
            things.append(("FreeBusy", FreeBusy(rng.randrange(4), Period(c.getStart().duplicate(), c.getEnd().duplicate()))))
            things.append(("getTimezone()", c.getStart().getTimezone()))
        if c.getType() == "VEVENT":
            things.append(("ComponentExpanded", ComponentExpanded(c, c.getStart())))
    where = views.paths(obj)

    def look(x):
        out = [x.__class__.__name__, views.plain(x, where), views.answers(x, where)]
        if isinstance(x, Recurrence):
            items = []
            x.expand(DateTime(2012, 3, 1, 0, 0, 0) if x.getFreq() in FINE else DateTime(2010, 3, 1, 1, 2, 3), Period(DateTime(2012, 3, 1, 0, 0, 0), DateTime(2012, 3, 1, 0, 3, 0) if x.getFreq() in FINE else DateTime(2012, 5, 1, 0, 0, 0)), items)
            out.append(map(str, items))
        return out
    # one of each class, then some
    rng.shuffle(things)
    chosen, classes = [], set()
    for how, x in things:
        if x.__class__ not in classes or len(chosen) < 15:
            classes.add(x.__class__)
            chosen.append((how, x))
    for how, x in chosen[:25]:
        ctx.count("parts")
        ctx.mark("part-kinds", x.__class__.__name__)
        if rng.random() < 0.3:
            look(x)
        dup = x.duplicate()
        a, b = look(x), look(dup)
        ctx.check(a == b, "part-differs", "%s: %s\n%s" % (how, views.difference(a, b), text))
        if "__eq__" in dir(x.__class__):
            ctx.check(dup == x and x == dup and not dup != x, "part-not-equal", "%s: %s\n%s" % (how, a, text))
        y, z, which = (x, dup, "original") if (how, x) == chosen[:25][-1] or rng.random() < 0.1 else (dup, x, "duplicate")
        done = changes(ctx, rng, y, rng.randint(1, 2))
        now = look(z)
        ctx.check(now == a, "part-shared-after-change-of-" + which, "%s %s: %s\n%s" % (how, done, views.difference(a, now), text))
        if y is x:
            # others may contain it
            break
    ctx.seen((text, i), True, text)
