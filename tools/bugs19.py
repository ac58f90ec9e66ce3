exec(open("/verif/tools/bugs17.py").read().split('bug("c36-noon"')[0])
S = "src/pycalendar/"
bug("c10-end-unset", "C10", S + "period.py", '''        elif not self.mUseDuration and self.mEnd is None:
            self.getEnd()
''', '''        elif not self.mUseDuration and self.mEnd is None:
            pass
''',
    "a period given with a duration that is told to use an end", "it is written without its end",
    DT + '''
from pycalendar.period import Period
p = Period.parseText("20200101T000000Z/PT1H")
p.setUseDuration(False)
ex(p.getText() == "20200101T000000Z/20200101T010000Z")
''')
bug("c24-date-kind", "C24", S + "icalendar/calendar.py", '''        else:
            newdtstartValue.setDateOnly(True)

        newcomp.removeProperties(definitions.cICalProperty_DTSTART)
''', '''
        newcomp.removeProperties(definitions.cICalProperty_DTSTART)
''',
    "an instance of an all day event asked for with a date-time", "the instance has a time",
    DT + '''
c = cal(("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART;VALUE=DATE:20200110", "RRULE:FREQ=DAILY", "END:VEVENT"))
d = c.deriveComponent(DateTime(2020, 1, 12, 0, 0, 0))
ex("DTSTART;VALUE=DATE:20200112" in str(d))
''')
bug("c17-shown-copy", "C17", S + "icalendar/componentexpanded.py", "        other.mRecurring = self.mRecurring\n", "        other.mRecurring = self.mRecurring and self.mOwner.recurring()\n",
    "a copy of an instance that an override shows", "it is not one of a recurring event",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "DURATION:PT1H", "RRULE:FREQ=DAILY"), event("RECURRENCE-ID:20200112T120000Z", "DTSTART:20200112T140000Z", "DURATION:PT1H"))
l = []
c.getVEvents(w("20200112T000000Z", "20200113T000000Z"), l)
ex([x.duplicate().recurring() for x in l] == [x.recurring() for x in l] == [True])
''')
bug("c15-long-experiod", "C15", S + "icalendar/recurrenceset.py", '''        for iter in self.mExperiods:
            if range.isPeriodOverlap(iter):
''', '''        for iter in self.mExperiods:
            if range.isDateWithinPeriod(iter.getEnd()):
''',
    "an excluded period that goes on after the window", "its start is not left out",
    DT + '''
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.period import Period
r = Recurrence(); r.parse("FREQ=DAILY")
s = RecurrenceSet(); s.addRule(r); s.subtractPeriod(Period.parseText("20200105T000000/P9D"))
l = []
s.expand(U("20200101T000000"), w("20200101T000000", "20200110T000000"), l)
ex(U("20200105T000000") not in l)
''')
bug("c07-values", "C07", S + "property.py", "            values = jobject[3:]\n", "            values = jobject[3:] if len(jobject) != 5 else sorted(jobject[3:])\n",
    "a property with exactly two values that are not in alphabetical order", "they change places",
    DT + '''
from pycalendar.vcard.card import Card
c = Card.parseJSONData('["vcard", [["version", {}, "text", "3.0"], ["nickname", {}, "text", "b", "a"]]]')
ex("NICKNAME:b,a" in str(c))
''')
bug("c23-one-override", "C23", S + "icalendar/calendar.py", '''                self.mOverriddenComponentsByUID[uid].remove(component)
''', '''                self.mOverriddenComponentsByUID.pop(uid)
''',
    "one of several overrides of an event is removed", "the others are not found any more",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "RRULE:FREQ=DAILY"), event("RECURRENCE-ID:20200112T120000Z", "DTSTART:20200112T140000Z"), event("RECURRENCE-ID:20200113T120000Z", "DTSTART:20200113T140000Z"))
u = c.getComponents("VEVENT")[0].getUID()
c.removeComponent([x for x in c.getComponents("VEVENT") if x.getRecurrenceID() is not None][0])
ids = []
c.getRecurrenceInstancesIds("VEVENT", u, ids)
ex(len(ids) == 1)
''')
bug("c22-strip-first", "C22", S + "icalendar/calendar.py", '''                self.removeComponent(component)
                changed = True

        return changed
''', '''                self.removeComponent(component)
                changed = not changed

        return changed
''',
    "two standard timezones are taken out", "it says nothing was changed",
    DT + '''
from pycalendar.timezonedb import TimezoneDatabase
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    Z = "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VTIMEZONE\\r\\nTZID:%s\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19000101T000000\\r\\nTZOFFSETFROM:+0100\\r\\nTZOFFSETTO:+0100\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\nEND:VCALENDAR\\r\\n"
    os.mkdir(os.path.join(d, "T"))
    for n in ("A", "B"):
        with open(os.path.join(d, "T", n + ".ics"), "w") as f:
            f.write(Z % ("T/" + n,))
    TimezoneDatabase.createTimezoneDatabase(d)
    tz = lambda n: tuple((Z % n).split("\\r\\n")[3:-2])
    c = cal(tz("T/A"), tz("T/B"))
    standard = TimezoneDatabase.isStandardTimezone("T/A")
    r = c.stripStandardTimezones()
    ex(r == standard and (not standard or not c.getComponents("VTIMEZONE")))
finally:
    shutil.rmtree(d)
''')
bug("c02-tab-fold", "C02", S + "utils.py", "        if lines[1][0].isspace():\n", "        if lines[1][0] == \" \":\n",
    "a line that is folded with a tab", "it is not put together",
    DT + '''
try:
    c = cal(event("DTSTART:20200110T120000Z", "SUMMARY:ab", "\\tcd"))
    ex("SUMMARY:abcd" in str(c))
except Exception:
    ex(False)
''')
bug("c30-one-novalue", "C30", S + "outputfilter.py", "        return result is not None, result\n", "        return result is not None, bool(result) and len(self.mProperties) > 1\n",
    "a filter that names just one property, without its value", "the value is written",
    DT + '''
from pycalendar.outputfilter import OutputFilter
o = OutputFilter("VEVENT")
o.addProperty("SUMMARY", True)
ex(o.testPropertyValue("SUMMARY") == (True, True))
''')
bug("c20-adr-fix", "C20", S + "utils.py", '''        if ParserContext.INVALID_ADR_N_VALUES == ParserContext.PARSER_FIX:
            results = results[:maxsize]
''', '''        if ParserContext.INVALID_ADR_N_VALUES == ParserContext.PARSER_FIX:
            results = results[-maxsize:]
''',
    "an address or name with too many components that is to be fixed", "the first components are lost",
    DT + '''
from pycalendar.parser import ParserContext
from pycalendar.vcard.property import Property
ParserContext.INVALID_ADR_N_VALUES = ParserContext.PARSER_FIX
ex(tuple(Property.parseText("N:a;b;c;d;e;f").getValue().getValue().getValue()) == ("a", "b", "c", "d", "e"))
''')
bug("c11-descr-minutes", "C11", S + "icalendar/vtimezone.py", "                mins_offset = (tzoffset / 60) % 60\n", "                mins_offset = (tzoffset / 60) % 30\n",
    "a zone without names whose offset has 30 or more minutes", "it is described with other minutes",
    DT + '''
c = cal(("BEGIN:VTIMEZONE", "TZID:T/Z", "BEGIN:STANDARD", "DTSTART:19000101T000000", "TZOFFSETFROM:+0530", "TZOFFSETTO:+0530", "END:STANDARD", "END:VTIMEZONE"))
ex(c.getTimezoneDescriptor("T/Z", U("20200101T000000")) == "+0530")
''')
bug("c21-merge-replaces", "C21", S + "timezonedb.py", "        if self._getTimezone(tz.getID()) is None:\n            self.addTimezone(tz)", "        if tz.getID() not in self.stdtzcache:\n            self.addTimezone(tz)",
    "two calendars that define the same private timezone differently", "the name changes its meaning",
    DT + '''
from pycalendar.timezonedb import TimezoneDatabase
Z = lambda o: ("BEGIN:VTIMEZONE", "TZID:T/Z", "BEGIN:STANDARD", "DTSTART:19000101T000000", "TZOFFSETFROM:" + o, "TZOFFSETTO:" + o, "END:STANDARD", "END:VTIMEZONE")
cal(Z("+0100"))
cal(Z("+0200"))
ex(TimezoneDatabase.getTimezoneOffsetSeconds("T/Z", U("20200101T000000")) == 3600)
''')
bug("c09-zone-case", "C09", S + "timezone.py", "            return utc1 or stringutils.compareStringsSafe(tzid1, tzid2)\n", "            return utc1 or str(tzid1).lower() == str(tzid2).lower()\n",
    "two timezone names that differ in case only", "times in them are compared as if in the same zone",
    DT + '''
from pycalendar.timezone import Timezone
Z = lambda n, o: ("BEGIN:VTIMEZONE", "TZID:" + n, "BEGIN:STANDARD", "DTSTART:19000101T000000", "TZOFFSETFROM:" + o, "TZOFFSETTO:" + o, "END:STANDARD", "END:VTIMEZONE")
cal(Z("T/Z", "+0100"), Z("t/z", "+0200"))
a = DateTime(2020, 1, 1, 12, 0, 0, tzid=Timezone(tzid="T/Z"))
b = DateTime(2020, 1, 1, 12, 0, 0, tzid=Timezone(tzid="t/z"))
ex(a != b and b < a)
''')
