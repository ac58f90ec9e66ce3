# -*- coding: utf-8 -*-
"""Random vCards as reference models (see refical)."""
import refical as R
import icalgen as G

TEXTS = ["FN", "NICKNAME", "LABEL", "EMAIL", "MAILER", "TITLE", "ROLE", "CATEGORIES", "NOTE", "SORT-STRING", "CLASS", "TEL", "NAME"]
NAMES = TEXTS + ["N", "ADR", "ADR", "ORG", "ORG", "GEO", "URL", "SOURCE", "BDAY", "REV", "PHOTO", "LOGO", "SOUND", "KEY", "TZ", "AGENT", "X-FOO", "X-BAR", "X-ABDATE", "IANA-THING"]
XTYPES = ["UNKNOWN", "UNKNOWN", "TEXT", "URI", "DATE", "DATE-TIME", "INTEGER", "FLOAT", "BINARY", "BOOLEAN", "TIME"]
ALT = {"BDAY": ["DATE", "DATE", "DATE-TIME"], "REV": ["DATE-TIME", "DATE-TIME", "DATE"], "PHOTO": ["BINARY", "URI"], "LOGO": ["BINARY", "URI"], "SOUND": ["BINARY", "URI"], "KEY": ["BINARY", "TEXT"], "TZ": ["UTC-OFFSET", "TEXT"]}


def struct(rng, n):
    items = []
    for _ in range(n):
        if rng.random() < 0.35:
            items.append(("",))
        elif rng.random() < 0.25:
            items.append(tuple(G.text(rng) if rng.random() < 0.7 else "" for _ in range(rng.randint(2, 4))))
        else:
            items.append((G.text(rng),))
    return tuple(items)


def params(rng, p):
    res = {}
    while rng.random() < p:
        k = rng.choice(["TYPE", "TYPE", "LANGUAGE", "X-P", "X-LIST", "CHARSET", "PREF"])
        if k == "TYPE":
            res[k] = tuple(sorted(rng.sample(["home", "work", "pref", "voice", "internet", "cell", "X-Other"], rng.randint(1, 3))))
        else:
            res[k] = tuple(sorted(rng.choice(G.PWORDS) for _ in range(rng.choice([1, 1, 2]))))
    return res


def prop(rng, name, vtype=None, ps=0.35):
    if vtype is None:
        vtype = rng.choice(ALT[name]) if name in ALT else R.VDEFAULT[name] if name in R.VDEFAULT else rng.choice(XTYPES)
    par = params(rng, ps)
    if vtype == "BINARY":
        par["ENCODING"] = (rng.choice("bB"),)
    if vtype in ("N", "ADR"):
        val = struct(rng, 5 if vtype == "N" else 7)
    elif vtype == "ORG":
        val = tuple(G.text(rng) for _ in range(rng.choice([1, 1, 2, 3])))
    elif vtype == "VCARD":
        val = rng.choice(["BEGIN:VCARD\\nFN:Susan Thomas\\nEND:VCARD\\n", "CID:JQPUBLIC.part3.960129T083020.xyzMail@host3.com"])
    elif vtype == "BINARY":
        val = rng.choice(["AAEC", "QUJDRA==", "/+8=" * 40, "AbCdEf" * rng.randint(1, 60)])
    elif vtype == "UTC-OFFSET":
        val = rng.choice([-1, 1]) * (rng.choice([0, 1, 5, 9, 13]) * 3600 + rng.choice([0, 0, 30, 45]) * 60)
    elif name in R.VMULTI:
        val = tuple(G.text(rng) or "x" for _ in range(rng.choice([1, 1, 2, 4])))
    else:
        val = G.value(rng, vtype)
        if vtype == "DATE-TIME" and rng.random() < 0.4:
            # with an offset, to the minute
            val = val[:6] + ("%s%02d%02d" % (rng.choice("+-"), rng.choice([1, 3, 5, 11, 12]), rng.choice([0, 0, 15, 20, 30, 45])),)
    if rng.random() < 0.15 and name not in ("VERSION", "PRODID"):
        name = rng.choice(["item1", "A", "group-2"]) + "." + name
        name = name.split(".")[0].lower() + "." + name.split(".")[1]
    return G.norm((name, tuple(sorted(par.items())), vtype, val))


def card(rng):
    ps = [("VERSION", (), "TEXT", "3.0"), prop(rng, "FN"), prop(rng, "N")]
    if rng.random() < 0.5:
        ps.append(("PRODID", (), "TEXT", "-//x, y; z//EN"))
    if rng.random() < 0.7:
        ps.append(("UID", (), "TEXT", G.atom(rng) + rng.choice(["", ",;:"])))
    for _ in range(rng.choice([0, 2, 5, 12])):
        ps.append(prop(rng, rng.choice(NAMES)))
    return R.comp("VCARD", ps, [])


def obj_value(p):
    v = p.getValue()
    n = v.__class__.__name__
    if n in ("NValue", "AdrValue"):
        return tuple(x if isinstance(x, tuple) else (x,) for x in v.getValue().getValue())
    if n == "OrgValue":
        x = v.getValue()
        return x if isinstance(x, tuple) else (x,)
    return G.obj_value(v)
