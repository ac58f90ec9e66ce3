exec(open("/verif/tools/bugs12.py").read().split("\nbug(")[0])
DT = V + '''
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
U = Timezone(utc=True)
def w(a, b):
    return Period(DateTime.parseText(a), DateTime.parseText(b))
def starts(c, a, b):
    r = []
    c.getVEvents(w(a, b), r)
    return [x.getInstanceStart().getText() for x in r]
'''
bug("c08-seconds-kept", "C08", S + "datetime.py", '''        if self.mSeconds != seconds:
            self.mSeconds = seconds
            self.changed()
''', '''        if self.mSeconds != seconds:
            self.mSeconds = seconds
''',
    "only the seconds set after the epoch time was asked for", "the epoch time stays what it was",
    DT + '''
d = DateTime(2020, 1, 1, 0, 0, 0, tzid=U)
a = d.getPosixTime()
d.setSeconds(30)
ex(d.getPosixTime() == a + 30)
''')
bug("c08-month-day-leap", "C08", S + "datetime.py", '''            return self.mDay - 1 - utils.daysInMonth(self.mMonth, self.mYear) == day
''', '''            return self.mDay - 1 - utils.days_in_month[self.mMonth] == day
''',
    "a day of February in a leap year asked by its negative position", "the answer is that of a common year",
    DT + '''
ex(DateTime(2020, 2, 29).isMonthDay(-1) and not DateTime(2020, 2, 28).isMonthDay(-1))
''')
bug("c08-next-same-day", "C08", S + "datetime.py", '''        if first_day > day:
            self.mDay += 7

        self.mDay += day - first_day
''', '''        if first_day >= day:
            self.mDay += 7

        self.mDay += day - first_day
''',
    "the next weekday on or after a day that is that weekday", "it is a week late",
    DT + '''
d = DateTime(2020, 1, 1)
d.setNextDayOfWeek(8, DateTime.WEDNESDAY)
ex(d.getText() == "20200108")
''')
bug("c08-last-weekday-leap", "C08", S + "datetime.py", '''            days_in_month = utils.daysInMonth(self.mMonth, self.mYear)
            first_day += days_in_month - 1
            first_day %= 7
''', '''            days_in_month = utils.daysInMonth(self.mMonth, self.mYear)
            first_day += utils.days_in_month[self.mMonth] - 1
            first_day %= 7
''',
    "the nth last weekday of February in a leap year", "it lands on another weekday",
    DT + '''
d = DateTime(2020, 2, 1)
d.setDayOfWeekInMonth(-1, DateTime.MONDAY)
ex(d.getText() == "20200224")
''')
bug("c09-period-end-form", "C09", S + "period.py", '''        return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
''', '''        return self.mStart == comp.mStart and self.mUseDuration == comp.mUseDuration and self.getEnd() == comp.getEnd()
''',
    "a period with an end and the same one with a duration", "neither is smaller and they are not equal",
    DT + '''
a = Period.parseText("20200101T000000Z/20200101T010000Z")
b = Period.parseText("20200101T000000Z/PT1H")
ex(a == b and not a < b and not a > b)
''')
bug("c09-zone-float", "C09", S + "timezone.py", '''        elif utc1 != utc2:
            return False
        else:
            return utc1 or stringutils.compareStringsSafe(tzid1, tzid2)

    @staticmethod
    def is_float''', '''        elif utc1 != utc2 and not (tzid1 or tzid2):
            return False
        else:
            return utc1 or stringutils.compareStringsSafe(tzid1, tzid2)

    @staticmethod
    def is_float''',
    "a UTC date-time compared with one in a timezone", "their clocks are compared, in one direction only",
    DT + '''
DB.createTimezoneDatabase(None)
Calendar.parseText(tz("A/B", "-0900"))
a = DateTime(2020, 1, 1, 12, 0, 0, tzid=U)
b = DateTime(2020, 1, 1, 10, 0, 0, tzid=Timezone(utc=False, tzid="A/B"))
ex(a < b and b > a and not b < a and not a > b)
''')
bug("c10-minutes-between", "C10", S + "duration.py", '''                    if (self.mMinutes != 0) or ((self.mHours != 0) and (self.mSeconds != 0)):
''', '''                    if self.mMinutes != 0:
''',
    "a duration of hours and seconds", "it is written as a text the grammar does not have",
    DT + '''
ex(Duration(hours=1, seconds=5).getText() == "PT1H0M5S")
''')
bug("c10-touching", "C10", S + "period.py", '''        return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)
''', '''        return not (self.mStart >= p.getEnd() or self.getEnd() < p.mStart)
''',
    "a period that ends where the other starts", "they overlap, in one direction",
    DT + '''
a = w("20200101T000000Z", "20200101T010000Z")
b = w("20200101T010000Z", "20200101T020000Z")
ex(not a.isPeriodOverlap(b) and not b.isPeriodOverlap(a))
''')
bug("c10-forward-kept", "C10", S + "duration.py", '''        self.mForward = seconds >= 0

        remainder = seconds
''', '''        self.mForward = seconds >= 0 or -seconds % 60 != 0 and -seconds < 60

        remainder = seconds
''',
    "a negative duration of less than a minute", "it is positive",
    DT + '''
a = DateTime(2020, 1, 1, 0, 0, 0, tzid=U)
b = DateTime(2020, 1, 1, 0, 0, 30, tzid=U)
ex((a - b).getTotalSeconds() == -30 and b + (a - b) == a)
''')
bug("c11-onset-at-start", "C11", I + "vtimezoneelement.py", '''            if self.mStart >= start:
                result = (self.mStart, offsetfrom, offsetto,)
''', '''            if self.mStart > start:
                result = (self.mStart, offsetfrom, offsetto,)
''',
    "a list of onsets from the very onset of an observance without rules on", "that onset is missing",
    DT + '''
DB.createTimezoneDatabase(None)
Calendar.parseText(tz("A/B", "-0900"))
z = DB.getTimezone("A/B")
s = z.getComponents()[0].getStart()
e = s.duplicate()
e.offsetYear(1)
ex(len(z.expandAll(s, e)) == 1)
''')
bug("c11-convert-local", "C11", S + "datetime.py", '''            offset_to = self.timeZoneSecondsOffset(relative_to_utc=True)
''', '''            offset_to = self.timeZoneSecondsOffset()
''',
    "a date-time moved to another timezone within the hours of its offset from one of its transitions", "it is another instant",
    DT + '''
DB.createTimezoneDatabase(None)
Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VTIMEZONE", "TZID:A/B",
    "BEGIN:STANDARD", "DTSTART:19701101T020000", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500", "TZNAME:S", "RRULE:FREQ=YEARLY;BYMONTH=11;BYDAY=1SU", "END:STANDARD",
    "BEGIN:DAYLIGHT", "DTSTART:19700308T020000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400", "TZNAME:D", "RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=2SU", "END:DAYLIGHT",
    "END:VTIMEZONE", "END:VCALENDAR", "")))
d = DateTime(2020, 3, 8, 4, 0, 0, tzid=U)
p = d.getPosixTime()
d.adjustTimezone(Timezone(utc=False, tzid="A/B"))
ex(d.getPosixTime() == p and d.getHours() == 23)
''')
bug("c12-shared-rules", "C12", I + "vtimezoneelement.py", '''        other.mRecurrences = self.mRecurrences.duplicate()
''', '''        other.mRecurrences = self.mRecurrences
''',
    "a rule of a duplicate of a timezone changed", "the original goes by it too",
    DT + '''
t = Calendar.parseText("\\r\\n".join(("BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VTIMEZONE", "TZID:A/B",
    "BEGIN:STANDARD", "DTSTART:19701101T020000", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500", "TZNAME:S", "RRULE:FREQ=YEARLY;BYMONTH=11;BYDAY=1SU", "END:STANDARD",
    "BEGIN:DAYLIGHT", "DTSTART:19700308T020000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400", "TZNAME:D", "RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=2SU", "END:DAYLIGHT",
    "END:VTIMEZONE", "END:VCALENDAR", ""))).getComponents()[0]
u = t.duplicate()
a, b = DateTime(2020, 1, 1, 0, 0, 0), DateTime(2022, 1, 1, 0, 0, 0)
want = len(u.expandAll(a, b))
for c in u.getComponents():
    for r in c.mRecurrences.getRules():
        r.setUseCount(True)
        r.setCount(1)
ex(want == 4 and len(t.expandAll(a, b)) == 4)
''')
bug("c13-53rd", "C13", I + "recurrence.py", '''                    for i in range(1, 54):
''', '''                    for i in range(1, 53):
''',
    "every such weekday of a year that has 53 of them", "the last is missing",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT1H", "RRULE:FREQ=YEARLY;BYDAY=WE", "END:VEVENT")
ex("20201230T100000Z" in starts(c, "20201220T000000Z", "20210101T000000Z"))
''')
bug("c14-count-cached", "C14", I + "recurrence.py", '''            # Exit if after period we want
            if range.isDateAfterPeriod(start_iter):
                return False

            # Add current one to list
''', '''            # Exit if after period we want
            if range.isDateAfterPeriod(start_iter):
                return self.mUseCount and ctr + 1 >= self.mCount

            # Add current one to list
''',
    "a rule with COUNT expanded up to its last instance, and then over it", "the last instance stays away",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT1H", "RRULE:FREQ=DAILY;COUNT=3", "END:VEVENT")
starts(c, "20200101T000000Z", "20200103T000000Z")
ex(len(starts(c, "20200101T000000Z", "20200110T000000Z")) == 3)
''')
bug("c14-bysetpos-kept", "C14", I + "recurrence.py", '''    def setBySetPos(self, by):
        self._setAndclearIfChanged("mBySetPos", by[:])
''', '''    def setBySetPos(self, by):
        self.mBySetPos = by[:]
''',
    "the positions of a rule changed after it was expanded", "the expansion stays that of the old ones",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT1H", "RRULE:FREQ=MONTHLY;BYDAY=WE,TH;BYSETPOS=1", "END:VEVENT")
starts(c, "20200101T000000Z", "20200301T000000Z")
c.getComponents()[0].getRecurrenceSet().getRules()[0].setBySetPos([-1])
ex("20200130T100000Z" in starts(c, "20200101T000000Z", "20200301T000000Z"))
''')
bug("c15-limit-exact", "C15", I + "recurrenceset.py", '''        if maxInstances and len(include) > maxInstances:
''', '''        if maxInstances and len(include) >= maxInstances:
''',
    "an expansion with exactly as many dates as the limit allows", "it is aborted",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT1H", "RDATE:20200102T100000Z,20200103T100000Z", "END:VEVENT")
r = []
e = c.getComponents()[0]
try:
    e.getRecurrenceSet().expand(e.getStart(), w("20200101T000000Z", "20200110T000000Z"), r, maxInstances=3)
except Exception:
    pass
ex(len(r) == 3)
''')
bug("c16-range-oldest", "C16", I + "componentrecur.py", '''                            for riter2 in reversed(future):
''', '''                            for riter2 in future:
''',
    "two overrides that each hold for this and future instances", "the first of them still holds after the second",
    DT + '''
M = ("UID:u", "DTSTAMP:20200101T000000Z", "DURATION:PT1H")
c = cal("BEGIN:VEVENT", "DTSTART:20200101T100000Z", "RRULE:FREQ=DAILY;COUNT=6", *(M + ("END:VEVENT",
    "BEGIN:VEVENT", "RECURRENCE-ID;RANGE=THISANDFUTURE:20200102T100000Z", "DTSTART:20200102T110000Z") + M + ("END:VEVENT",
    "BEGIN:VEVENT", "RECURRENCE-ID;RANGE=THISANDFUTURE:20200104T100000Z", "DTSTART:20200104T150000Z") + M + ("END:VEVENT",)))
ex("20200105T150000Z" in starts(c, "20200101T000000Z", "20200110T000000Z"))
''')
bug("c16-longer-first", "C16", I + "componentexpanded.py", '''                return cmp(e2.mInstanceEnd, e1.mInstanceEnd)
''', '''                return cmp(e1.mInstanceEnd, e2.mInstanceEnd)
''',
    "events that start together and end at different times", "the shorter is listed before the longer",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:a", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT1H", "END:VEVENT",
    "BEGIN:VEVENT", "UID:b", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT2H", "END:VEVENT")
r = []
c.getVEvents(w("20200101T000000Z", "20200110T000000Z"), r)
ex([x.getOwner().getUID() for x in r] == ["b", "a"])
''')
bug("c03-caret-n", "C03", S + "utils.py", '''                    decoded.append('^')
                    c = ''
''', '''                    decoded.append('^')
''',
    "a parameter value with a caret before an n or a quote", "the two become a line break or a quote",
    DT + '''
from pycalendar.icalendar.property import Property
from pycalendar.parameter import Parameter
p = Property("SUMMARY", "x")
p.addParameter(Parameter("X-A", "a^n^'b"))
q = Property.parseText(p.getText().replace("\\r\\n", ""))
ex(q.getParameterValue("X-A") == "a^n^'b")
''')
bug("c03-comma-first", "C03", S + "parameter.py", '''str.find(";") != -1 or str.find(",") != -1''', '''str.find(";") != -1 or str.find(",") > 0''',
    "a parameter value that starts with its only comma", "it is two values when read",
    DT + '''
from pycalendar.icalendar.property import Property
from pycalendar.parameter import Parameter
p = Property("SUMMARY", "x")
p.addParameter(Parameter("X-A", ",b"))
q = Property.parseText(p.getText().replace("\\r\\n", ""))
ex(q.getParameterValues("X-A") == [",b"])
''')
bug("c04-one-number", "C04", I + "recurrence.py", '''                if not isinstance(value, str) and not isinstance(value, unicode) and not isinstance(value, int):
''', '''                if not isinstance(value, str) and not isinstance(value, unicode):
''',
    "jCal with a BYxxx part that is one number", "it is refused",
    DT + '''
import json
j = json.dumps(["vcalendar", [["version", {}, "text", "2.0"], ["prodid", {}, "text", "x"]], [["vevent", [["uid", {}, "text", "u"],
    ["dtstart", {}, "date-time", "2020-01-01T10:00:00Z"], ["rrule", {}, "recur", {"freq": "YEARLY", "bymonth": 3}]], []]]])
try:
    c = Calendar.parseJSONData(j)
except Exception:
    ex(False)
ex("BYMONTH=3" in str(c))
''')
bug("c06-fourth-value", "C06", S + "utils.py", '''                    for bit in item[1:]:
                        os.write(",")
''', '''                    for bit in item[1:3]:
                        os.write(",")
''',
    "four or more values in one part of a name or address", "those from the fourth on are lost in writing",
    DT + '''
from pycalendar.vcard.card import Card
t = "BEGIN:VCARD\\r\\nVERSION:3.0\\r\\nFN:x\\r\\nN:a;b;c,d,e,f;;\\r\\nEND:VCARD\\r\\n"
ex("c,d,e,f" in str(Card.parseText(t)))
''')
bug("c20-status-ignore", "C20", I + "requeststatusvalue.py", '''in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
''', '''in (ParserContext.PARSER_FIX,):
''',
    "a REQUEST-STATUS with an escaped separator read in IGNORE mode", "the backslash stays in the code",
    DT + '''
from pycalendar.parser import ParserContext
from pycalendar.icalendar.property import Property
ParserContext.INVALID_REQUEST_STATUS_VALUE = ParserContext.PARSER_IGNORE
ParserContext.INVALID_ESCAPE_SEQUENCES = ParserContext.PARSER_ALLOW
p = Property.parseText("REQUEST-STATUS:2\\\\.0\\\\;Success")
ex("\\\\" not in p.getValue().getValue()[0])
''')
bug("c24-due-stays", "C24", I + "calendar.py", '''            definitions.cICalProperty_DTEND,
            definitions.cICalProperty_DUE,
        ):
            oldend''', '''            definitions.cICalProperty_DTEND,
        ):
            oldend''',
    "an instance derived from a recurring to-do with DUE", "it is due when the first one is",
    DT + '''
c = cal("BEGIN:VTODO", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DUE:20200101T120000Z", "RRULE:FREQ=DAILY;COUNT=3", "END:VTODO")
d = c.deriveComponent(DateTime.parseText("20200102T100000Z"))
ex("DUE:20200102T120000Z" in str(d))
''')
bug("c01-later-values-float", "C01", I + "property.py", '''                for item in self.mValue.getValues():
                    if isinstance(item, DateTimeValue):
                        item.getValue().setTimezoneID(tzid)
''', '''                for item in self.mValue.getValues()[:8]:
                    if isinstance(item, DateTimeValue):
                        item.getValue().setTimezoneID(tzid)
''',
    "a list of more than eight date-times in a timezone", "those from the ninth on are floating",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "DTSTART;TZID=A/B:20200101T100000", "EXDATE;TZID=A/B:" + ",".join(["202001%02dT100000" % i for i in range(2, 13)]), "END:VEVENT")
v = c.getComponents()[0].getProperties("EXDATE")[0].getMultiValue().getValues()
ex(all([x.getValue().getTimezoneID() == "A/B" for x in v]))
''')
bug("c07-org-one", "C07", S + "vcard/orgvalue.py", '''        jobject.append(self.mValue if isinstance(self.mValue, basestring) else list(self.mValue))
''', '''        jobject.append(self.mValue if isinstance(self.mValue, basestring) else [x for x in self.mValue if x])
''',
    "an ORG with an empty unit", "the following units move up in JSON",
    DT + '''
import json
from pycalendar.vcard.card import Card
t = "BEGIN:VCARD\\r\\nVERSION:3.0\\r\\nFN:x\\r\\nN:a;b;;;\\r\\nORG:a;;c\\r\\nEND:VCARD\\r\\n"
j = json.loads(Card.parseText(t).getTextJSON())
ex([p for p in j[1] if p[0] == "org"][0][3] == ["a", "", "c"])
''')
bug("c02-lookahead", "C02", S + "utils.py", '''        if not lines[1]:
            return True

''', '''        if not lines[1].strip():
            return True

''',
    "a folded line of white space only", "the white space is lost, and what follows it is another line",
    DT + '''
c = cal("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "SUMMARY:a", "   ", " b", "END:VEVENT")
ex(c.getComponents()[0].getSummary() == "a  b")
''')
