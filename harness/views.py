# -*- coding: utf-8 -*-
"""What callers can see of an object through its public questions, and the mutable objects they can reach."""
import inspect
import re
from pycalendar.componentbase import ComponentBase
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.multivalue import MultiValue
from pycalendar.parameter import Parameter
from pycalendar.period import Period
from pycalendar.property import PropertyBase
from pycalendar.timezone import Timezone
from pycalendar.value import Value

QUESTION = re.compile(r"^(get|is|has|use|recurring$|can|count)")
# text is compared on its own; keys and trees are not values; answers that depend on the clock
SKIP = frozenset((
    "getComponents", "getProperties", "getMapKey", "getSortKey", "getMasterKey", "getText", "getTextXML", "getTextJSON", "getNow", "getNowUTC", "getToday", "getXMLText", "getJSONText",
    "getCompletionState", "isNow", "getParentComponent", "getMimeComponentName", "getLocaleDate", "getTime", "getPosixTime", "getStartofYear", "hasProperty", "getParameters", "getUnknown"))

_questions = {}


def questions(cls):
    if cls not in _questions:
        names = []
        for n, f in inspect.getmembers(cls):
            if QUESTION.match(n) and n not in SKIP and inspect.ismethod(f) and f.im_self is None:
                spec = inspect.getargspec(f)
                if len(spec.args) - len(spec.defaults or ()) == 1:
                    names.append(n)
        _questions[cls] = names
    return _questions[cls]


def paths(root, path="", out=None):
    """component -> its place"""
    out = {} if out is None else out
    out[id(root)] = path or "/"
    for n, c in enumerate(root.getComponents()):
        paths(c, "%s/%s%d" % (path, c.getType(), n), out)
    return out


def plain(x, where, depth=0):
    if x is None or isinstance(x, (bool, int, long, float, str, unicode)):
        return x
    if isinstance(x, DateTime):
        tz = x.getTimezone()
        return ("datetime", x.getText(), x.isDateOnly(), tz.getUTC(), tz.getTimezoneID())
    if isinstance(x, Duration):
        return ("duration", x.getText(), x.getTotalSeconds())
    if isinstance(x, (Period, Recurrence)):
        return (x.__class__.__name__, x.getText())
    if isinstance(x, Timezone):
        return ("zone", x.getUTC(), x.getTimezoneID())
    if isinstance(x, ComponentBase):
        return ("component", where.get(id(x), "outside"))
    if isinstance(x, (PropertyBase, Value)):
        return (x.__class__.__name__, x.getText())
    if isinstance(x, Parameter):
        return (x.getName(), tuple(x.getValues()))
    if isinstance(x, RecurrenceSet):
        return tuple(plain(v, where, depth) for v in (x.getRules(), x.getExrules(), x.getDates(), x.getExdates(), x.getPeriods(), x.getExperiods()))
    if isinstance(x, (list, tuple)):
        return [plain(v, where, depth) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v, where, depth) for v in x), key=repr)
    if isinstance(x, dict):
        return sorted(((plain(k, where, depth), plain(v, where, depth)) for k, v in x.items()), key=repr)
    if depth < 3:
        return (x.__class__.__name__, answers(x, where, depth + 1))
    return x.__class__.__name__


def answers(x, where, depth=0):
    out = []
    for n in questions(x.__class__):
        try:
            a = plain(getattr(x, n)(), where, depth)
        except Exception as e:
            a = "raises " + e.__class__.__name__
        out.append((n, a))
    return out


def view(c, where=None):
    """everything a component answers, with its properties in order and its sub-components"""
    where = paths(c) if where is None else where
    props = sorted((n, [str(p) for p in ps]) for n, ps in c.getProperties().items())
    return (c.getType(), props, answers(c, where), [view(s, where) for s in c.getComponents()])


def difference(a, b, path=""):
    """first difference of two plain structures"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d / %d items: %r / %r" % (path, len(a), len(b), a, b)
        for n, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, "%s/%s" % (path, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else n))
            if d:
                return d
        return None
    return None if a == b and type(a) == type(b) else "%s: %r / %r" % (path, a, b)


def reach(x, out=None, depth=0):
    """the mutable objects a caller can get at, in a fixed order: [(how, object)]"""
    out = [] if out is None else out
    seen = set()

    def go(x, how, depth):
        if x is None or isinstance(x, (bool, int, long, float, str, unicode)) or depth > 9:
            return
        if id(x) in seen and not isinstance(x, tuple):
            return
        seen.add(id(x))
        if isinstance(x, tuple):
            for n, v in enumerate(x):
                go(v, "%s[%d]" % (how, n), depth + 1)
            return
        if isinstance(x, (list, dict)):
            out.append((how, x))
            for k, v in sorted(x.items(), key=lambda kv: repr(kv[0])) if isinstance(x, dict) else enumerate(x):
                go(v, "%s[%s]" % (how, k), depth + 1)
            return
        if not getattr(x.__class__, "__module__", "").startswith("pycalendar"):
            return
        out.append((how, x))
        if isinstance(x, ComponentBase):
            go(x.getProperties(), how + ".getProperties()", depth + 1)
            for n, c in enumerate(x.getComponents()):
                go(c, "%s/%s%d" % (how, c.getType(), n), depth)
        if isinstance(x, PropertyBase):
            go(x.getParameters(), how + ".getParameters()", depth + 1)
        if isinstance(x, (DateTime, Duration, Timezone)):
            return
        for n in questions(x.__class__):
            try:
                a = getattr(x, n)()
            except Exception:
                continue
            if not isinstance(a, ComponentBase):
                go(a, "%s.%s()" % (how, n), depth + 1)
    go(x, "", depth)
    return out


def change(rng, x):
    """change an object as a caller may; the name of what was done or None"""
    if isinstance(x, DateTime):
        k = rng.randrange(4)
        if k == 0:
            x.offsetDay(3)
        elif k == 1:
            x.setYear(x.getYear() + 1)
        elif k == 2:
            x.setTimezoneID("Mutant/Zone")
        else:
            x.setDateOnly(not x.isDateOnly())
        return "DateTime%d" % k
    if isinstance(x, Duration):
        x.setDuration(4242)
        return "Duration"
    if isinstance(x, Period):
        change(rng, x.getStart())
        return "Period"
    if isinstance(x, Timezone):
        x.setTimezoneID("Mutant/Zone")
        x.setUTC(False)
        return "Timezone"
    if isinstance(x, Recurrence):
        k = rng.randrange(3)
        if k == 0:
            x.setInterval(x.getInterval() + 5)
        elif k == 1:
            x.setUseCount(True)
            x.setUseUntil(False)
            x.setCount(77)
        else:
            x.setByMonth([2])
        return "Recurrence%d" % k
    if isinstance(x, RecurrenceSet):
        x.addDT(DateTime(1971, 2, 3, 4, 5, 6))
        return "RecurrenceSet"
    if isinstance(x, Parameter):
        k = rng.randrange(3)
        if k == 0:
            x.setValues(["mutant"])
        elif k == 1:
            x.addValue("mutant")
        else:
            x.setName("X-MUTANT")
        return "Parameter%d" % k
    if isinstance(x, MultiValue):
        if not x.getValues():
            return None
        x.addValue(x.getValues()[0].duplicate())
        return "MultiValue"
    if isinstance(x, Value):
        v = x.getValue()
        if isinstance(v, (str, unicode)):
            x.setValue("mutant")
        elif isinstance(v, (int, long, float)):
            x.setValue(v + 1)
        elif isinstance(v, tuple):
            x.setValue(("mutant",) + v[1:])
        elif v is not None and hasattr(v, "duplicate"):
            v = v.duplicate()
            change(rng, v)
            x.setValue(v)
        else:
            return None
        return "Value"
    if isinstance(x, PropertyBase):
        k = rng.randrange(3)
        if k == 0:
            x.addParameter(Parameter("X-MUTANT", "1"))
        elif k == 1:
            x.setName("X-MUTANT")
        else:
            for p in x.getParameters().keys()[:1]:
                x.removeParameters(p)
        return "Property%d" % k
    if isinstance(x, ComponentBase):
        k = rng.randrange(5)
        ps = sorted(x.getProperties())
        if k == 0:
            x.addProperty(x.sPropertyType("X-MUTANT", "1"))
        elif k == 1 and ps:
            x.removeProperties(rng.choice(ps))
        elif k == 2 and ps:
            x.removeProperty(x.getProperties(rng.choice(ps))[0])
        elif k == 3 and x.getComponents():
            x.removeComponent(rng.choice(x.getComponents()))
        elif hasattr(x, "setUID") and x.getUID():
            x.setUID("mutant-uid")
        else:
            return None
        return "Component%d" % k
    if isinstance(x, list):
        if not x:
            x.append("mutant")
        elif rng.random() < 0.5:
            x.append(x[0])
        else:
            del x[0]
        return "list"
    if isinstance(x, dict):
        if rng.random() < 0.5 and x:
            del x[sorted(x)[0]]
        else:
            x["X-MUTANT"] = []
        return "dict"
    return None
