# -*- coding: utf-8 -*-
"""C07: jCard."""
import refical as R
import vcardgen as V
import refjson as J
import json
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property
from props_c06 import api

RULE = ("random vCards as reference models (as in C06) read from text and from jCard made by a reference writer, alone and as an array of several, written as jCard and as text; the jCard is read by a reference reader "
        "(groups, structured values, types, extended dates); distinct by model")
REQUIRE = {"models": 250, "types": 12, "props": 3000, "groups": 80, "several": 60}
PLAN = [("cards", 380, 20000), ("properties", 2000, 80000), ("several", 90, 5000)]
ASSUMPTIONS = ["AGENT values are carried as they are"]


def one(ctx, card, model, text):
    j = card.getText(format=Card.sFormatJSON)
    try:
        got = J.canon(j, True)
    except (ValueError, KeyError, IndexError, AttributeError) as e:
        ctx.viol("jcard-malformed", "%s in\n%s" % (e, j))
        got = model
    if got != model:
        ctx.viol("jcard-differs", "%s\n%s\n%s" % (R.diff(model, got), text, j))
    c2 = Card.parseData(j, format=Card.sFormatJSON)
    t2 = R.canon(str(c2), True)
    if t2 != [model]:
        ctx.viol("jcard-round-trip-text", "%s\n%s" % (R.diff(model, t2[0]), j))
    for p in model[1]:
        ctx.mark("types", p[2])
        ctx.count("props")
        ctx.count("groups", int("." in p[0]))
    ctx.count("models")


def cards(ctx, rng, i):
    model = V.card(rng)
    text = R.write(rng, model, True)
    card = Card.parseText(text)
    one(ctx, card, model, text)
    ref = J.write(rng, model, True)
    c3 = Card.parseJSONData(ref)
    api(ctx, c3.getProperties(), model, ref)
    t3 = R.canon(str(c3), True)
    if t3 != [model]:
        ctx.viol("jcard-read-differs", "%s\n%s" % (R.diff(model, t3[0]), ref))
    ctx.seen(model, True, text)


def properties(ctx, rng, i):
    p = V.prop(rng, rng.choice(V.NAMES), ps=0.5)
    q = Property.parseText(R.w_prop(rng, p, True))
    out = []
    q.writeJSON(out)
    js = json.loads(json.dumps(out))
    ctx.count("props")
    ctx.mark("types", p[2])
    if ctx.check(len(js) == 1, "one-property", repr(js)):
        try:
            got = J.r_prop(js[0], True)
        except (ValueError, KeyError, IndexError, AttributeError) as e:
            ctx.viol("jcard-malformed", "%s in %s" % (e, js))
            return
        ctx.eq(got, p, "jcard-property-" + p[2], json.dumps(js))
        q2 = Property.parseJSON(js[0])
        ctx.eq(V.obj_value(q2), p[3], "jcard-value-" + p[2], json.dumps(js))
        ctx.eq(R.canon_prop(R.lines_of(q2.getText())[0], True), p, "jcard-text-" + p[2], json.dumps(js))
    ctx.seen(p, True, repr(js))


def several(ctx, rng, i):
    models = [V.card(rng) for _ in range(rng.randint(0, 4))]
    data = json.dumps([J.w_comp(rng, m, True) for m in models])
    got = Card.parseMultipleData(data, Card.sFormatJSON)
    if ctx.check(len(got) == len(models), "several-count", "%d read of %d" % (len(got), len(models))):
        for c, m in zip(got, models):
            one(ctx, c, m, data)
    ctx.count("several")
    ctx.seen(tuple(models), True, data)
