#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the table below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, q, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))


S = "src/pycalendar/"
I = S + "icalendar/"

prop("C08", "Civil calendar arithmetic agrees with the Gregorian calendar",
     "Whatever sequence of edits, offsets and moves a date-time value goes through, its year, month, day, time, weekday, day of year, ISO week, validity and epoch time are those of the proleptic Gregorian calendar. "
     "Moves that set a week, weekday-in-month, weekday-in-year, month day or year day land on the day asked for, and stepping by a frequency lands on the next valid date at that step.",
     ["inputs", "histories"], "all dates from 1753 to 9990 and all sequences of field edits, offsets and calendar moves on them",
     "the tests sample a few dates per operation, mostly between 1995 and 2020, and never chain edits across century or ISO-year boundaries",
     [S + "datetime.py", S + "utils.py"],
     [("leap years, days since epoch", S + "utils.py: daysInMonth, leapDaysSince1970"), ("normalisation and moves", S + "datetime.py: normalise, setDayOfWeekInMonth, setWeekNo, setYearDay, recur")],
     "online reference-model monitor: every step of random edit walks is compared in all derived fields with an independent Gregorian model",
     "random walks, whole-year sweeps and field setters biased to century, leap, month-end and ISO-week-year boundaries")

prop("C09", "Ordering, equality and hashing of dates, durations and periods are coherent",
     "Comparing two date-times, durations or periods orders them exactly as the instants, lengths or bounds they denote; the six comparison operators agree with one another and form a total order. "
     "Values that compare equal have equal hashes, and a copy is equal to its original yet independent of it.",
     ["inputs"], "all pairs and triples of values of the same kind, across timezones, normal forms and duplicate or re-parsed copies",
     "tests compare a handful of pairs with one operator each; coherence of six operators, hash and copies quantifies over all pairs",
     [S + "datetime.py", S + "duration.py", S + "period.py"],
     [("comparison operators", S + "datetime.py: compareDateTime, __eq__, __hash__"), ("period order", S + "period.py: __lt__, __gt__")],
     "algebraic-law monitor with an independent instant computed by a reference zone model",
     "pairs biased to equal, adjacent and zone-shifted values; mixed floating/fixed comparisons are outside the claim")

prop("C10", "Durations and periods: exact grammar, exact arithmetic, exact interval algebra",
     "Every well-formed duration or period text is read to the length or interval it denotes and every value is written in a form that reads back to the same value; malformed texts are refused. "
     "Adding a duration to a date-time, and subtracting two date-times, are inverse to each other in elapsed seconds, and containment, before/after and overlap tests of periods follow half-open interval algebra.",
     ["inputs"], "all duration and period texts (well-formed and mutated), all signs and magnitudes, all instants and pairs of intervals",
     "tests cover a short list of literals; inverse laws and rejection hold over all values",
     [S + "duration.py", S + "period.py", S + "datetime.py"],
     [("grammar", S + "duration.py: parse, generate"), ("arithmetic", S + "datetime.py: __add__, __sub__"), ("interval tests", S + "period.py: isDateWithinPeriod, isPeriodOverlap")],
     "reference-model monitor: grammar recogniser and exact integer arithmetic against every observed parse, print and sum",
     "generated, mutated and arithmetic cases over the full sign/magnitude range")

prop("C13", "Recurrence rules expand to exactly the RFC 5545 occurrence set",
     "For a rule, a start and a window, the instances produced are exactly the members of the RFC 5545 recurrence set that fall in the window, in order, without duplicates, and of the same kind and timezone as the start. "
     "COUNT, UNTIL (in each of its forms), INTERVAL, WKST, BYSETPOS and negative positions are honoured over the whole life of the rule.",
     ["inputs"], "all rules over the RFC-supported BYxxx combinations, all starts of each kind, all windows",
     "tests fix a few dozen rule/start/window triples; the space of rule parts, boundary months and long horizons is unbounded",
     [I + "recurrence.py", S + "datetime.py"],
     [("set generation", I + "recurrence.py: generateYearlySet .. generateSecondlySet"), ("bounds", I + "recurrence.py: simpleExpand, complexExpand"), ("positions", S + "datetime.py: setDayOfWeekInMonth, setWeekNo, setYearDay, setMonthDay")],
     "differential monitor against an independent filter-based RFC 5545 expander",
     "random rules over seven frequencies and every BYxxx part; combinations the RFC leaves open are excluded (DESIGN.md)")

prop("C14", "A recurrence answer never depends on what was asked before",
     "Expanding a rule, a component's recurrence set or a calendar over a window gives the answer a freshly parsed copy would give, whatever windows, instance limits, aborted expansions, rule changes, start changes or duplications came before and whatever the caller did with earlier answers. "
     "Answers of adjoining windows concatenate to the answer of their union.",
     ["histories"], "all interleavings of expansions, limit aborts, setter calls, start edits, result edits and duplications on one live object",
     "tests expand an object once or twice; cached state only goes wrong over particular sequences",
     [I + "recurrence.py", I + "recurrenceset.py", I + "componentrecur.py"],
     [("expansion cache", I + "recurrence.py: expand, clear, _setAndclearIfChanged"), ("recurrence set", I + "recurrenceset.py: expand, changed")],
     "history monitor: each answer of a random operation history compared with a fresh object asked the same question",
     "histories of 4-9 operations on live rules, sets and calendars")

prop("C15", "A component's recurrence set is inclusions minus exclusions, exactly",
     "The instances of a component are DTSTART, every RRULE member, every RDATE value and period start, minus every EXDATE and EXRULE member, once each and in order, for any window. "
     "An exclusion given in another form of the same instant still excludes it, and an instance limit either aborts the expansion or leaves the answer unchanged.",
     ["inputs"], "all combinations and orders of recurrence properties, value kinds, timezones, windows and limits",
     "tests use at most one rule and a few dates; the set algebra is over arbitrary combinations",
     [I + "recurrenceset.py", S + "componentbase.py", I + "property.py", S + "utils.py"],
     [("set algebra", I + "recurrenceset.py: expand"), ("loading", S + "componentbase.py: loadValueRRULE, loadValueRDATE"), ("difference", S + "utils.py: set_difference")],
     "set-algebra monitor over the reference expander", "random recurrence sets of up to 3 RRULEs, RDATE/EXDATE lists, periods and EXRULEs")

prop("C16", "Calendar expansion shows each instance once, overrides applied, in order",
     "Asking a calendar for the events of a window returns every single event and override that overlaps it and every recurring instance that starts in it, each exactly once, with an overridden instance shown only through its override and RANGE overrides carried on to later instances. "
     "Each result has the start, end and owner the data specifies, and the list is in display order.",
     ["inputs"], "all calendars of single and recurring events with moved, stretched or range overrides, and all windows",
     "tests expand a few fixed calendars; the interplay of rules, overrides, exclusions, durations and windows is combinatorial",
     [I + "calendar.py", I + "componentrecur.py", I + "componentexpanded.py"],
     [("override removal", I + "componentrecur.py: expandPeriod"), ("instance times", I + "componentexpanded.py: initFromOwner"), ("order", I + "calendar.py: getVEvents")],
     "conservation and ordering monitor over expansion results against a reference model", "random calendars of 1-4 events with 0-4 overrides each")

exec(open(os.path.join(HERE, "meta2.py")).read() if os.path.exists(os.path.join(HERE, "meta2.py")) else "")

NOT_APPLICABLE = []


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in P:
        assert os.path.exists(os.path.join(ROOT, "harness", "props_%s.py" % p["id"].lower())), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": "runtime monitoring: " + p["tech"], "level": "exploration", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "Every check runs the real code of /repo/src in Jython workers under generated workloads; monitors live in harness/props_<id>.py. VERIF_SEED and VERIF_TIER are honoured. No hooks are needed in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    import re, ast
    out = [open(os.path.join(HERE, "DESIGN.head.md")).read().rstrip(), "", "## Properties", ""]
    caught = json.load(open(os.path.join(HERE, "caught.json"))) if os.path.exists(os.path.join(HERE, "caught.json")) else {}
    for p in P:
        src = open(os.path.join(ROOT, "harness", "props_%s.py" % p["id"].lower())).read()
        c = {}
        for n in ast.parse(re.sub(r"\bprint ", "0, ", src)).body if True else []:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "REQUIRE", "PLAN"):
                try:
                    c[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
                "* Decided by: %s." % p["tech"],
                "* Workload: %s." % c.get("RULE", "").rstrip("."),
                "* Bounds and cost: %s; cases per tier (quick/thorough): %s." % (p["note"], ", ".join("%s %d/%d" % x for x in c.get("PLAN", []))),
                "* The run is inconclusive (exit 2) unless the monitors observed at least: %s." % ", ".join("%s %s" % kv for kv in sorted(c.get("REQUIRE", {}).items())),
                "* Why tests cannot: %s." % p["why"].rstrip(".")]
        if c.get("ASSUMPTIONS"):
            out.append("* Assumptions: %s." % "; ".join(c["ASSUMPTIONS"]))
        out.append("")
    out += ["## Excluded domains", "", open(os.path.join(HERE, "DESIGN.excluded.md")).read().rstrip(), "",
            "## Defects found and repaired", "", "Each is a `fix:` commit in /repo; the check of the property reports it again if it returns.", ""]
    for l in open(os.path.join(ROOT, "KNOWN_FINDINGS")):
        if l.startswith("fixed:"):
            out.append("* " + l[7:].strip())
    fnd = [l for l in open(os.path.join(ROOT, "KNOWN_FINDINGS")) if l.startswith("finding:")]
    out += ["", "## Known findings (defects recorded, not repaired)", ""] + (["* " + l[9:].strip() for l in fnd] or ["None."])
    out += ["", "## Planted bugs and what catches them", "", "| bug | property | needs | result of the property's check | first violation keys |", "|---|---|---|---|---|"]
    sd = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        r = caught.get(b, {})
        out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), r.get("result", "?"), r.get("keys", "").replace("|", "/")))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
design()
