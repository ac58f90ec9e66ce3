exec(open("/verif/tools/bugs9.py").read().split("\nbug(")[0])
CAL = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\n%sEND:VCALENDAR\\r\\n"
V = T + '''
shutil.rmtree(root)
def cal(*lines):
    return Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x") + lines + ("END:VCALENDAR", "")))
def event(*lines):
    return cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", *(lines + ("END:VEVENT",)))
def ex(ok):
    sys.exit(0 if ok else 1)
'''
bug("c18-cancelled-last", "C18", S + "icalendar/componentrecur.py", '''                        if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:
''', '''                        if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED and prop is not self.findFirstProperty(propname):
''',
    "a STATUS:CANCELLED that comes before the other STATUS", "the two are not repaired",
    V + '''
c = event("STATUS:CANCELLED", "STATUS:CONFIRMED")
fixed, unfixed = c.validate(doFix=True)
ex(len(fixed) == 1 and not unfixed and str(c).count("STATUS:") == 1)
''')
bug("c18-until-local", "C18", S + "icalendar/componentrecur.py", '''            dtutc = self.mStart.duplicateAsUTC()
''', '''            dtutc = self.mStart.duplicate()
''',
    "an all-day UNTIL on an event whose start is in a timezone", "the repaired UNTIL has the local time marked as UTC",
    V + '''
DB.createTimezoneDatabase(None)
Calendar.parseText(tz("A/B", "-0900"))
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART;TZID=A/B:20200101T100000", "RRULE:FREQ=DAILY;UNTIL=20200110", "END:VEVENT")
c.validate(doFix=True)
ex("UNTIL=20200110T190000Z" in str(c))
''')
bug("c18-fixed-anyway", "C18", S + "componentbase.py", '''                if doFix:
                    self.addProperty(self.sPropertyType(propname, ""))
                    fixed.append(logProblem)
''', '''                if doFix or self.mProperties.get(propname) == []:
                    self.addProperty(self.sPropertyType(propname, ""))
                    fixed.append(logProblem)
                elif len(self.propertyCardinality_1_Fix_Empty) > 1 and propname == self.propertyCardinality_1_Fix_Empty[-1]:
                    pass
''',
    "an e-mail alarm without SUMMARY validated without repair", "the problem is not reported",
    V + '''
d = event("BEGIN:VALARM", "ACTION:EMAIL", "TRIGGER:-PT5M", "DESCRIPTION:x", "ATTENDEE:mailto:a@example.com", "END:VALARM")
ex(len(d.validate()[1]) == 1)
''')
bug("c18-todo-due", "C18", S + "icalendar/vtodo.py", '''        if self.hasProperty(definitions.cICalProperty_DURATION) and not self.hasProperty(definitions.cICalProperty_DTSTART):
''', '''        if self.hasProperty(definitions.cICalProperty_DURATION) and not self.hasProperty(definitions.cICalProperty_DTSTART) and not self.hasProperty(definitions.cICalProperty_DUE):
''',
    "a VTODO with DUE and DURATION and without DTSTART, validated without repair", "one of its two problems is not reported",
    V + '''
c = cal("BEGIN:VTODO", "UID:u", "DTSTAMP:20200101T000000Z", "DUE:20200102T000000Z", "DURATION:PT1H", "END:VTODO")
ex(len(c.validate()[1]) == 2)
''')
bug("c22-strip-while-walking", "C22", S + "icalendar/calendar.py", '''        for component in self.getComponents(definitions.cICalComponent_VTIMEZONE):
            tz = TimezoneDatabase.getTimezone(component.getID())
''', '''        for component in self.mComponents:
            if component.getType() != definitions.cICalComponent_VTIMEZONE:
                continue
            tz = TimezoneDatabase.getTimezone(component.getID())
''',
    "two standard timezones next to one another in the calendar", "the second stays",
    T + '''
put("db", "A/B", "+0100")
put("db", "A/C", "+0200")
DB.createTimezoneDatabase(os.path.join(root, "db"))
a, b = tz("A/B", "+0100"), tz("A/C", "+0200")
c = Calendar.parseText(a[:a.index("END:VCAL")] + b[b.index("BEGIN:VTIMEZ"):])
done(c.stripStandardTimezones() and str(c).count("BEGIN:VTIMEZONE") == 0)
''')
bug("c22-lend", "C22", S + "icalendar/calendar.py", '''                    dup = tz.duplicate()
                    self.addComponent(dup)
''', '''                    self.addComponent(tz)
''',
    "a calendar gets a timezone on output, and its copy of it is edited afterwards", "all other calendars get the edited timezone from then on",
    T + '''
put("db", "A/B", "+0100")
DB.createTimezoneDatabase(os.path.join(root, "db"))
s = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART;TZID=A/B:20200101T000000\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n"
c = Calendar.parseText(s)
was = c.getText(Calendar.ALL_TIMEZONES)
c.getTimezone("A/B").removeAllComponent()
done(Calendar.parseText(s).getText(Calendar.ALL_TIMEZONES) == was and "BEGIN:STANDARD" in was)
''')
bug("c22-nonstd-json", "C22", S + "icalendar/calendar.py", '''    def writeJSON(self, jobject, includeTimezones=None):
        # Make sure all required timezones are in this object
        self.includeMissingTimezones(includeTimezones=includeTimezones)
''', '''    def writeJSON(self, jobject, includeTimezones=None):
        # Make sure all required timezones are in this object
        self.includeMissingTimezones(includeTimezones=includeTimezones or None)
''',
    "JSON output asked for with all timezones, of a calendar that uses a standard one", "only the non-standard ones are in it",
    T + '''
put("db", "A/B", "+0100")
DB.createTimezoneDatabase(os.path.join(root, "db"))
s = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART;TZID=A/B:20200101T000000\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n"
done(all("vtimezone" in f(Calendar.parseText(s)).lower() for f in (lambda c: c.getTextJSON(Calendar.ALL_TIMEZONES), lambda c: c.getText(Calendar.ALL_TIMEZONES))))
''')
F = V + '''
from pycalendar.outputfilter import OutputFilter
from cStringIO import StringIO
def text(c, f):
    s = StringIO()
    c.generateFiltered(s, f)
    return s.getvalue()
'''
bug("c30-novalue-sticks", "C30", S + "outputfilter.py", '''        self.mProperties[name] = no_value
''', '''        self.mProperties[name] = no_value or any(self.mProperties.values())
''',
    "a filter with one property asked for without its value, and another with it afterwards", "the later ones lose their values",
    F + '''
f = OutputFilter("VCALENDAR")
f.addProperty("PRODID", True)
f.addProperty("VERSION", False)
t = text(event(), f)
ex("PRODID:\\r\\n" in t and "VERSION:2.0\\r\\n" in t)
''')
bug("c30-json-order", "C30", S + "componentbase.py", '''        elif filter.hasPropertyFilters():
            for key in keys:
                for prop in self.getProperties(key):
                    prop.writeJSONFiltered(jobject, filter)
''', '''        elif filter.hasPropertyFilters():
            for key in filter.mProperties:
                for prop in self.getProperties(key):
                    prop.writeJSONFiltered(jobject, filter)
''',
    "filtered JSON of a component with several of the named properties", "they come in any order, which depends on the names in the filter",
    F + '''
c = event("SUMMARY:x", "LOCATION:y", "CLASS:PUBLIC", "PRIORITY:1", "SEQUENCE:1", "STATUS:CONFIRMED", "TRANSP:OPAQUE")
f = OutputFilter("VCALENDAR")
g = OutputFilter("VEVENT")
names = ["UID", "DTSTART", "CLASS", "DTSTAMP", "LOCATION", "PRIORITY", "SEQUENCE", "STATUS", "SUMMARY", "TRANSP"]
for n in names:
    g.addProperty(n, False)
f.addSubComponent(g)
j = []
c.writeJSONFiltered(j, f)
ex([p[0].upper() for p in j[0][2][0][1]] == names)
''')
bug("c30-deeper-all", "C30", S + "componentbase.py", '''        elif filter.hasSubComponentFilters():
            for subcomp in self.sortedComponents():
                subfilter = filter.getSubComponentFilter(subcomp.getType())
                if subfilter is not None:
                    subcomp.generateFiltered(os, subfilter)
''', '''        elif filter.hasSubComponentFilters():
            for subcomp in self.sortedComponents():
                subfilter = filter.getSubComponentFilter(subcomp.getType())
                if subfilter is not None:
                    if subfilter.isAllProperties() and not subfilter.hasSubComponentFilters():
                        subcomp.generate(os)
                    else:
                        subcomp.generateFiltered(os, subfilter)
''',
    "a filter for all properties and no sub-components of a component that has some", "they are written",
    F + '''
c = event("BEGIN:VALARM", "ACTION:DISPLAY", "TRIGGER:-PT5M", "DESCRIPTION:x", "END:VALARM")
f = OutputFilter("VCALENDAR")
g = OutputFilter("VEVENT")
g.setAllProperties()
f.addSubComponent(g)
t = text(c, f)
ex("DTSTART" in t and "VALARM" not in t)
''')
