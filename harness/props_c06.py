# -*- coding: utf-8 -*-
"""C06: vCard text round trip."""
import refical as R
import icalgen as G
import vcardgen as V
import built as B
from cStringIO import StringIO
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property

RULE = ("random vCards as reference models (all properties and value types, groups, structured names, addresses and organisations with component lists, VALUE overrides, TYPE lists, dates and offsets in both ISO forms), "
        "spelled in one of many allowed ways, parsed and written by the library and read back by the reference reader, alone and several in one stream; distinct by model")
REQUIRE = {"models": 300, "types": 12, "props": 4000, "groups": 100, "streams": 80, "api": 3000, "built": 700, "built types": 12}
PLAN = [("cards", 500, 25000), ("properties", 2000, 100000), ("streams", 120, 6000), ("built", 1200, 50000)]
ASSUMPTIONS = ["missing trailing components of N and ADR are read as empty ones; order of properties and of parameter values is not compared; group and property names compare without case"]


def api(ctx, props, model, text):
    want = {}
    for p in model[1]:
        g, n = p[0].split(".", 1) if "." in p[0] else ("", p[0])
        want.setdefault(n, []).append((g, repr(p[3]), p[1]))
    ctx.check(set(props) == set(want), "api-names", "%s vs %s in\n%s" % (sorted(props), sorted(want), text))
    for n in want:
        got = [((p.getGroup() or "").lower(), repr(V.obj_value(p)), tuple(sorted((k, tuple(sorted(x for a in v for x in a.getValues()))) for k, v in p.getParameters().items() if k != "VALUE"))) for p in props.get(n, [])]
        ctx.count("api", len(got))
        ctx.check(sorted(want[n]) == sorted(got), "api-value-" + n, "expected %s, accessors gave %s\n%s" % (sorted(want[n]), sorted(got), text))


def one(ctx, card, model, text):
    api(ctx, card.getProperties(), model, text)
    out = str(card)
    got = R.canon(out, True)
    if ctx.check(len(got) == 1, "one-card", out):
        if got[0] != model:
            ctx.viol("card-changed", "%s\ninput:\n%s\noutput:\n%s" % (R.diff(model, got[0]), text, out))
    c2 = Card.parseText(out)
    ctx.check(c2 == card, "reparsed-not-equal", out)
    ctx.check(sorted(R.lines_of(str(c2))) == sorted(R.lines_of(out)), "second-output-differs", "%s\n---\n%s" % (out, c2))
    for p in model[1]:
        ctx.mark("types", p[2])
        ctx.count("props")
        ctx.count("groups", int("." in p[0]))
    ctx.count("models")


def cards(ctx, rng, i):
    model = V.card(rng)
    text = R.write(rng, model, True, True)
    assert R.canon(text, True) == [model], R.diff(model, R.canon(text, True)[0])
    one(ctx, Card.parseText(text), model, text)
    ctx.seen(model, True, text)


def properties(ctx, rng, i):
    p = V.prop(rng, rng.choice(V.NAMES), ps=0.5)
    line = R.w_prop(rng, p, True)
    assert R.canon_prop(line, True) == p, (R.canon_prop(line, True), p)
    q = Property.parseText(line)
    ctx.count("props")
    ctx.mark("types", p[2])
    ctx.count("groups", int("." in p[0]))
    ctx.eq(V.obj_value(q), p[3], "property-value-" + p[2], line)
    out = q.getText()
    got = R.lines_of(out)
    if ctx.check(len(got) == 1, "property-one-line", "%r -> %r" % (line, out)):
        ctx.eq(R.canon_prop(got[0], True), p, "property-changed-" + p[2], line)
    q2 = Property.parseText(got[0])
    ctx.check(q2 == q and hash(q2) == hash(q), "property-reparsed-not-equal", "%r -> %r" % (line, out))
    ctx.seen(p, True, line)


def streams(ctx, rng, i):
    """several cards in one stream: each is read as it would be alone"""
    models = [V.card(rng) for _ in range(rng.randint(0, 4))]
    texts = [R.write(rng, m, True, True) for m in models]
    data = rng.choice(["", "\r\n", "\n"]).join(texts)
    if rng.random() < 0.5:
        got = Card.parseMultipleData(data, Card.sFormatText)
    else:
        got = Card.parseMultipleData(StringIO(data), "text/vcard")
    if ctx.check(len(got) == len(models), "stream-count", "%d cards read of %d\n%s" % (len(got), len(models), data)):
        for c, m, t in zip(got, models, texts):
            one(ctx, c, m, t)
    ctx.count("streams")
    ctx.seen(tuple(models), True, data)


def built(ctx, rng, i):
    """a property made with the constructors says and writes what it was given"""
    p = V.prop(rng, rng.choice(V.NAMES), ps=0.5)
    q = B.make(rng, p, True)
    out = q.getText()
    ctx.count("built")
    ctx.mark("built types", (p[2], p[0].split(".")[-1] in R.VMULTI))
    ctx.eq(V.obj_value(q), p[3], "built-value-" + p[2], "made of %r" % (p,))
    ctx.eq(q.getGroup(), p[0].split(".")[0] if "." in p[0] else None, "built-group", out)
    got = R.lines_of(out)
    if ctx.check(len(got) == 1, "built-one-line", "%r -> %r" % (p, out)):
        ctx.eq(R.canon_prop(got[0], True), p, "built-" + p[2], "made of %r" % (p,))
        q2 = Property.parseText(got[0])
        ctx.check(q2 == q and hash(q2) == hash(q), "built-reparsed-not-equal", "%r -> %r" % (p, out))
    d = q.duplicate()
    ctx.check(d == q and d.getText() == out, "built-duplicate", "%r -> %r" % (out, d.getText()))
    ctx.seen(("built", p), True, out)
