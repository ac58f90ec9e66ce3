# -*- coding: utf-8 -*-
"""Reference reader and writer of jCal (RFC 7265) and jCard (RFC 7095) for the models of refical."""
import json
import refical as R


def b(x):
    return x.encode("utf-8") if isinstance(x, unicode) else x


def r_value(vtype, x):
    x = b(x) if not isinstance(x, (list, dict)) else x
    if vtype in ("DATE", "DATE-TIME"):
        if x[4:5] != "-" or "T" in x and (x[13:14] != ":" or "+" in x and x[-3] != ":"):
            raise ValueError("not an extended date %r" % x)
        return R.c_dt(x)
    if vtype == "UTC-OFFSET":
        if ":" not in x:
            raise ValueError("not an extended offset %r" % x)
        return R.c_offset(x)
    if vtype == "DURATION":
        return R.c_dur(x)
    if vtype == "PERIOD":
        a, e = [b(y) for y in x]
        return (r_value("DATE-TIME", a), R.c_dur(e) if e[:1] in "P+-" else r_value("DATE-TIME", e))
    if vtype == "INTEGER":
        if isinstance(x, bool) or not isinstance(x, (int, long)):
            raise ValueError("not a number %r" % (x,))
        return int(x)
    if vtype == "FLOAT":
        return num(x)
    if vtype == "GEO":
        return tuple(num(y) for y in x)
    if vtype == "BOOLEAN":
        return {True: "TRUE", False: "FALSE"}.get(x, x) if isinstance(x, bool) else x
    if vtype == "TIME":
        return x.replace(":", "")
    if vtype == "REQUEST-STATUS":
        return tuple(b(y) for y in x)
    if vtype in ("N", "ADR"):
        return tuple(tuple(b(z) for z in y) if isinstance(y, list) else (b(y),) for y in x)
    if vtype == "ORG":
        return tuple(b(y) for y in x) if isinstance(x, list) else (x,)
    if vtype == "RECUR":
        d = {}
        for k, v in x.items():
            k = b(k).upper()
            l = v if isinstance(v, list) else [v]
            if k == "UNTIL":
                d[k] = r_value("DATE-TIME", v)
            elif k in ("FREQ", "WKST"):
                d[k] = b(v)
            elif k in ("COUNT", "INTERVAL"):
                d[k] = int(v)
            elif k == "BYDAY":
                d[k] = R.c_recur("BYDAY=" + ",".join(b(y) for y in l))[0][1]
            else:
                d[k] = tuple(sorted(int(y) for y in l))
        if d.get("INTERVAL") == 1:
            del d["INTERVAL"]
        if d.get("WKST") == "MO":
            del d["WKST"]
        return tuple(sorted(d.items()))
    if not isinstance(x, str):
        raise ValueError("not a string %r" % (x,))
    return x


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, long, float)):
        raise ValueError("not a number %r" % (x,))
    return R.c_float(repr(x) if isinstance(x, float) else str(x))


def r_prop(j, vcard=False):
    if len(j) < 4:
        raise ValueError("short property %r" % (j,))
    name = b(j[0])
    if name != name.lower() or b(j[2]) != b(j[2]).lower():
        raise ValueError("upper case in %r" % (j[:3],))
    name = name.upper()
    vtype = b(j[2]).upper()
    params = {}
    group = ""
    for k, v in j[1].items():
        k = b(k)
        if k != k.lower() or k == "value":
            raise ValueError("bad parameter name %r" % k)
        if vcard and k == "group":
            group = b(v)
            continue
        params[k.upper()] = tuple(sorted(b(y) for y in v)) if isinstance(v, list) else (b(v),)
    dflt = (R.VDEFAULT if vcard else R.DEFAULT).get(name)
    if dflt in R.RAWTYPES and vtype in ("FLOAT", "TEXT"):
        vtype = dflt
    if dflt == "VCARD" and vtype == "UNKNOWN":
        vtype = "VCARD"
    if name in (R.VMULTI if vcard else R.MULTI):
        val = tuple(r_value(vtype, x) for x in j[3:])
    else:
        if len(j) != 4:
            raise ValueError("several values in %r" % (j,))
        val = r_value(vtype, j[3])
    return ((group.lower() + "." if group else "") + name, tuple(sorted(params.items())), vtype, val)


def r_comp(j, vcard=False):
    if vcard:
        if len(j) != 2:
            raise ValueError("bad component")
        j = list(j) + [[]]
    elif len(j) != 3:
        raise ValueError("bad component")
    if b(j[0]) != b(j[0]).lower():
        raise ValueError("upper case in %r" % j[0])
    return R.comp(b(j[0]).upper(), [r_prop(p, vcard) for p in j[1]], [r_comp(c) for c in j[2]])


def canon(text, vcard=False):
    return r_comp(json.loads(text), vcard)

# ---------------------------------------------------------------- model -> jCal


def u(x):
    return x.decode("utf-8")


def w_dt(v):
    return ("%04d-%02d-%02d" if len(v) == 3 else "%04d-%02d-%02dT%02d:%02d:%02d%s") % (v if len(v) < 7 or len(v[6]) < 2 else v[:6] + (v[6][:3] + ":" + v[6][3:],))


def w_num(x):
    return float(x) if "." in x or "E" in x else int(x)


def w_value(rng, vtype, v):
    if vtype in ("DATE", "DATE-TIME"):
        return w_dt(v)
    if vtype == "UTC-OFFSET":
        return R.w_offset(v, True)
    if vtype == "DURATION":
        return R.w_dur(rng, v)
    if vtype == "PERIOD":
        return [w_dt(v[0]), w_dt(v[1]) if isinstance(v[1], tuple) else R.w_dur(rng, v[1])]
    if vtype == "INTEGER":
        return v
    if vtype == "FLOAT":
        return w_num(v)
    if vtype == "GEO":
        return [w_num(x) for x in v]
    if vtype in ("REQUEST-STATUS", ):
        return [u(x) for x in v]
    if vtype in ("N", "ADR"):
        return [[u(y) for y in x] if len(x) > 1 else u(x[0]) for x in v]
    if vtype == "ORG":
        return [u(x) for x in v] if len(v) > 1 else u(v[0])
    if vtype == "RECUR":
        d = {}
        for k, x in v:
            if k == "UNTIL":
                x = w_dt(x)
            elif k == "BYDAY":
                x = [("%d" % n if n else "") + w for n, w in x]
            elif isinstance(x, tuple):
                x = list(x)
            if isinstance(x, list) and len(x) == 1 and rng.random() < 0.7:
                x = x[0]
            d[k.lower()] = x
        return d
    return u(v)


JTYPE = {"GEO": "float", "REQUEST-STATUS": "text", "N": "text", "ADR": "text", "ORG": "text", "VCARD": "unknown"}


def w_prop(rng, p, vcard=False):
    name, params, vtype, val = p
    par = {}
    if "." in name and vcard:
        g, name = name.split(".", 1)
        par["group"] = g
    for k, v in params:
        par[k.lower()] = [u(x) for x in v] if len(v) > 1 else u(v[0])
    vals = val if name in (R.VMULTI if vcard else R.MULTI) else [val]
    return [name.lower(), par, JTYPE.get(vtype, vtype.lower())] + [w_value(rng, vtype, x) for x in vals]


def w_comp(rng, c, vcard=False):
    props = [w_prop(rng, p, vcard) for p in c[1]]
    kids = [w_comp(rng, k) for k in c[2]]
    rng.shuffle(props)
    rng.shuffle(kids)
    return [c[0].lower(), props] + ([] if vcard and rng.random() < 0.5 else [kids])


def write(rng, c, vcard=False):
    return json.dumps(w_comp(rng, c, vcard), ensure_ascii=rng.random() < 0.5).encode("utf-8")
