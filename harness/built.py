# -*- coding: utf-8 -*-
"""Properties made with the library's constructors and setters from a reference model of a property."""
import refical as R
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.parameter import Parameter
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.value import Value
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.vcard.adr import Adr
from pycalendar.vcard.n import N
from vskip import Skip

TYPES = {"TEXT": Value.VALUETYPE_TEXT, "URI": Value.VALUETYPE_URI, "CAL-ADDRESS": Value.VALUETYPE_CALADDRESS, "BINARY": Value.VALUETYPE_BINARY, "UNKNOWN": Value.VALUETYPE_UNKNOWN, "VCARD": Value.VALUETYPE_VCARD}


def moment(v, zone=None):
    if len(v) == 3:
        return DateTime(*v)
    z = v[6]
    if z and z != "Z":
        s = (int(z[1:3]) * 60 + int(z[3:5])) * 60
        dt = DateTime(*v[:6])
        dt.setTimezoneID(-s if z[0] == "-" else s)
        return dt
    tz = Timezone(utc=True) if z == "Z" else Timezone(tzid=zone) if zone else None
    return DateTime(v[0], v[1], v[2], v[3], v[4], v[5], tzid=tz)


def native(rng, t, v, zone):
    """the library's own object for a value of a type"""
    if t in ("DATE", "DATE-TIME"):
        return moment(v, zone)
    if t == "DURATION":
        return Duration(duration=v)
    if t == "PERIOD":
        a = moment(v[0], zone)
        return Period(a, moment(v[1], zone)) if isinstance(v[1], tuple) else Period(a, duration=Duration(duration=v[1]))
    if t == "RECUR":
        r = Recurrence()
        r.parse(R.w_recur(rng, v))
        return r
    if t == "INTEGER":
        return v
    if t == "UTC-OFFSET":
        return UTCOffsetValue(v)
    if t == "REQUEST-STATUS":
        return list(v)
    if t in TYPES:
        return v
    raise Skip()


def value(rng, p, vcard=False):
    """what is given to the constructor, and the type to be named with it"""
    name, par, t, v = p
    name = name.split(".")[-1]
    zone = dict(par).get("TZID", (None,))[0]
    default = (R.VDEFAULT if vcard else R.DEFAULT).get(name)
    if name in (R.VMULTI if vcard else R.MULTI):
        if t not in ("DATE", "DATE-TIME", "PERIOD") + (("TEXT",) if vcard else ()):
            raise Skip()
        return [native(rng, t, x, zone) for x in v], None
    if vcard and t == "ADR":
        return Adr(*[x[0] if len(x) == 1 else x for x in v]), None
    if vcard and t == "N":
        return N(*[x[0] if len(x) == 1 else x for x in v]), None
    if vcard and t == "ORG":
        return rng.choice([list, tuple])(v), None
    if vcard and t == "GEO":
        return rng.choice([list, tuple])([float(x) for x in v]), None
    x = native(rng, t, v, zone)
    if t in TYPES:
        if default is None and t == "TEXT":
            # there is nothing to tell it from a value of no known type
            raise Skip()
        if isinstance(x, str) and rng.random() < 0.3:
            try:
                x = x.decode("utf-8")
            except UnicodeDecodeError:
                pass
        return x, TYPES[t] if t != default or rng.random() < 0.3 else None
    return x, None


def make(rng, p, vcard=False):
    """the property as made by the constructor, or given its value later, with its parameters added in one of the ways there are"""
    name, par, t, v = p
    group = None
    if "." in name:
        group, name = name.split(".", 1)
    x, vt = value(rng, p, vcard)
    late = rng.random() < 0.3
    if vcard:
        q = VProperty(group if not late else None, name, x, vt) if vt is not None or rng.random() < 0.5 else VProperty(group=group if not late else None, name=name, value=x)
        if late:
            q.setGroup(group)
    else:
        q = Property(name, x, vt) if vt is not None else Property(name, x)
    todo = [(k, vs) for k, vs in par if k != "TZID"]
    how = rng.randrange(4)
    if how == 0 and not q.getParameters():
        q.setParameters(dict((k, [Parameter(k, list(vs))]) for k, vs in todo))
    else:
        for k, vs in todo:
            vs = list(vs)
            if how == 1 and len(vs) > 1:
                a = Parameter(k, vs[0])
                for w in vs[1:]:
                    a.addValue(w)
            elif how == 2:
                a = Parameter(k, ["other"] + vs)
                a.removeValue("other")
            else:
                a = Parameter(k, vs[0] if len(vs) == 1 else vs)
            if rng.random() < 0.5:
                q.addParameter(a)
            else:
                if rng.random() < 0.3:
                    q.addParameter(Parameter(k, "old"))
                q.replaceParameter(a)
    return q
