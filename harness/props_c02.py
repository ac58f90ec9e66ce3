# -*- coding: utf-8 -*-
"""C02: line folding."""
import refical as R
import icalgen as G
from cStringIO import StringIO
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.parameter import Parameter
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty

RULE = ("properties of every length around the fold limits with 1-4 byte characters placed so that each fold falls on every byte of them, long names, parameters and structured values, bytes that are not UTF-8; every "
        "physical line written is measured; and the same calendar folded anywhere (also inside characters, one octet per line, tabs, CRLF or LF, read from strings and from files) is read; distinct by line")
REQUIRE = {"physical_lines": 9000, "folded": 3000, "at_byte": 12, "line_len": 6, "refolded": 150, "not_utf8": 100}
PLAN = [("exact", 600, 6000), ("random", 900, 40000), ("reading", 200, 10000)]

CHARS = ["a", "\xc3\xa9", "\xe4\xbc\x9a", "\xf0\x9f\x8e\x89"]


def is_utf8(s):
    try:
        s.decode("utf-8")
        return True
    except UnicodeError:
        return False


def look(ctx, out, what):
    """the physical lines of an output; gives back the logical lines"""
    ctx.check(out.endswith("\r\n"), "no-final-line-end", repr(out[-80:]))
    phys = out.split("\r\n")[:-1]
    ctx.count("physical_lines", len(phys))
    good = is_utf8(out.replace("\r\n ", ""))
    logical = []
    for l in phys:
        ctx.check(len(l) <= 75, "line-too-long", "%d octets: %r (%s)" % (len(l), l, what))
        ctx.check("\n" not in l and "\r" not in l, "bare-line-break", "%r (%s)" % (l, what))
        if good:
            ctx.check(is_utf8(l), "fold-inside-character", "%r (%s)" % (l, what))
        if l[:1] == " ":
            ctx.check(len(l) > 1, "empty-continuation", what)
            if logical:
                logical[-1] += l[1:]
                ctx.count("folded")
                ctx.mark("line_len", min(len(l), 78) if len(l) > 69 else "short")
            else:
                ctx.viol("starts-with-continuation", what)
        else:
            ctx.check(len(l) > 0, "blank-line", what)
            logical.append(l)
    return logical


def exact(ctx, rng, i):
    """a character of k bytes across byte position p, of the first, second or third line"""
    k = 1 + i % 4
    pos = 66 + (i // 4) % 14 + 74 * ((i // 56) % 3)
    extra = (i // 168) % 4
    cls = Property if i % 3 else VProperty
    name = ["SUMMARY", "NOTE"][cls is VProperty]
    head = len(name) + 1
    pad = pos - head
    txt = "b" * max(pad, 0) + CHARS[k - 1] * rng.choice([1, 2, 40]) + "c" * (extra * 25)
    p = cls(name, txt) if cls is Property else VProperty(None, name, txt)
    out = p.getText()
    got = look(ctx, out, repr(txt))
    ctx.mark("at_byte", "%d/%d" % (k, (pos - 74) % 74 if pos >= 74 else pos))
    ctx.check(got == [name + ":" + txt], "folded-text-differs", "%r -> %r" % (txt, got))
    q = cls.parseText(got[0]) if got else None
    ctx.check(q is not None and q.getValue().getValue() == txt, "unfolded-value-differs", repr(txt))
    ctx.seen((name, txt), True, txt)


def chunk(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice("ab ,;\\:\"") * rng.choice([1, 5, 30, 73, 74, 75])
    if r < 0.8:
        return rng.choice(CHARS) * rng.choice([1, 2, 10, 40])
    return rng.choice(G.WORDS)


def random(ctx, rng, i):
    s = "".join(chunk(rng) for _ in range(rng.randint(1, 6)))
    bad = rng.random() < 0.15
    if bad:
        k = rng.randint(0, len(s))
        s = s[:k] + rng.choice(["\xff", "\x80", "\xbf" * 90, "\xc3", "\xf0\x9f", "\xa9" * 200]) + s[k:]
        ctx.count("not_utf8")
    s = s.replace("\n", "")
    kind = rng.choice(["text", "uri", "multi", "param", "name", "vcard", "struct", "list", "photo"])
    val = s
    if kind == "text":
        p = Property(rng.choice(["SUMMARY", "DESCRIPTION", "UID"]), s)
    elif kind == "uri":
        p = Property("URL", s.replace("\\", ""))
    elif kind == "multi":
        p = Property("CATEGORIES")
        p.setValue([s, s])
    elif kind == "param":
        p = Property("SUMMARY", "v")
        p.addParameter(Parameter("X-P", s.replace("\\", "")))
    elif kind == "name":
        p = Property("X-" + "N" * rng.randint(1, 120), s)
    elif kind == "vcard":
        p = VProperty("item1", "NOTE", s)
    elif kind == "struct":
        p = VProperty.parseText("N:" + ";".join(R.entext(x) for x in (s, "", s)))
    elif kind == "photo":
        val = "AbC/+9" * rng.randint(0, 100) + "=="
        p = VProperty.parseText("PHOTO;ENCODING=b;X-R=%s:%s" % (rng.choice("rs\xc3") .replace("\xc3", "\xc3\xa9") * rng.choice([1, 30, 70, 200]), val))
    else:
        p = Property.parseText("EXDATE:" + ",".join("20%02d0101T000000Z" % n for n in range(rng.randint(1, 60))))
    p.addParameter(Parameter("X-Q", "q" * rng.choice([1, 20, 70]))) if rng.random() < 0.3 else None
    out = p.getText()
    got = look(ctx, out, "%s %r" % (kind, s))
    if ctx.check(len(got) == 1, "one-content-line", "%r" % out):
        name, params, raw = R.split_line(got[0])
        if kind in ("text", "name", "vcard"):
            ctx.eq(R.untext(raw) if kind != "name" else raw, val, "folded-text-differs", kind)
        elif kind == "uri":
            ctx.eq(raw, val.replace("\\", ""), "folded-text-differs", kind)
        elif kind == "multi":
            ctx.eq([R.untext(x) for x in R._splitesc(raw, ",")], [val, val], "folded-text-differs", kind)
        elif kind == "photo":
            ctx.eq(raw, val, "folded-text-differs", kind)
        elif kind == "param":
            ctx.eq([v for k, v in params if k == "X-P"], [[val.replace("\\", "")]], "folded-text-differs", kind)
        elif kind == "struct":
            ctx.eq([R.untext(x) for x in R._splitesc(raw, ";")][:3], [val, "", val], "folded-text-differs", kind)
    ctx.seen((kind, s), True, out)


def fold_anyhow(rng, lines):
    nl = rng.choice(["\r\n", "\n"])
    mode = rng.choice(["octet", "rare", "often", "mixed"])
    out = ""
    for l in lines:
        cur = l[:1]
        for c in l[1:]:
            if mode == "octet" or (mode == "often" and rng.random() < 0.2) or (mode == "rare" and rng.random() < 0.01) or (mode == "mixed" and rng.random() < 0.05):
                cur += nl + rng.choice(" \t")
            cur += c
        out += cur + nl
    if rng.random() < 0.3:
        out = out[:-len(nl)]        # no line end after the last line
    return out


def reading(ctx, rng, i):
    if rng.random() < 0.7:
        model = G.calendar(rng, rng.choice([1, 1, 2]))
        cls = Calendar
        text = R.write(rng, model)
    else:
        cls = Card
        text = "BEGIN:VCARD\r\nVERSION:3.0\r\nFN:%s\r\nN:%s;;;;\r\nNOTE:%s\r\nTEL;TYPE=home:+1\r\nEND:VCARD\r\n" % tuple(R.entext(G.text(rng)) for _ in range(3))
    lines = R.lines_of(text)
    want = str(cls.parseText("\r\n".join(lines) + "\r\n"))
    got_lines = look(ctx, want, "whole calendar")
    ctx.check(got_lines == R.lines_of(want), "lines", want)
    for _n in range(3):
        f = fold_anyhow(rng, lines)
        r = rng.random()
        if r < 0.6:
            c = cls.parseText(f)
        elif r < 0.8:
            c = cls.parseTextData(StringIO(f))
        else:
            fn = "%s/f%d" % (ctx.work, i % 7)
            g = open(fn, "wb")
            g.write(f)
            g.close()
            c = cls.parseTextData(open(fn, "rb"))
        ctx.check(str(c) == want, "folding-changes-what-is-read", "%s\n--- read as\n%s" % (f, c))
        ctx.count("refolded")
    ctx.seen(text, True, text)
