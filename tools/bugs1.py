S = "src/pycalendar/"
I = S + "icalendar/"
BUGS = []


def bug(id, property, file, old, new, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo))


EXP = '''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.recurrence import Recurrence
def expand(rec, start, a, b):
    out = []
    rec.expand(DateTime.parseText(start), Period(DateTime.parseText(a), DateTime.parseText(b)), out)
    return [x.getText() for x in out]
'''

bug("c13-setpos-last", "C13", I + "recurrence.py", "                if -iter <= input_size:", "                if -iter < input_size:",
    "a negative BYSETPOS whose magnitude equals the number of candidates in a period",
    "BYSETPOS=-n yields nothing in a period that has exactly n candidates",
    EXP + '''
got = expand(Recurrence.parseText("FREQ=MONTHLY;BYDAY=MO;BYSETPOS=-5"), "20210301T090000", "20210301T000000", "20210701T000000")
sys.exit(0 if got == ["20210301T090000", "20210503T090000"] else 1)
''')

bug("c13-wkst-count", "C13", I + "recurrence.py", "                    day_in_week_offset = iter2[1] - self.mWeekstart\n                    if day_in_week_offset < 0:",
    "                    day_in_week_offset = iter2[1] - self.mWeekstart\n                    if day_in_week_offset < 0 and iter2[1] != self.mWeekstart - 1:",
    "WKST other than Sunday and the weekday just before it selected, in a week counted with INTERVAL",
    "the last day of the week is taken from the previous week",
    EXP + '''
got = expand(Recurrence.parseText("FREQ=WEEKLY;INTERVAL=2;BYDAY=TU,FR;WKST=SA"), "20210302T090000", "20210301T000000", "20210331T000000")
sys.exit(0 if got == ["20210302T090000", "20210305T090000", "20210316T090000", "20210319T090000", "20210330T090000"] else 1)
''')


bug("c14-setter-keeps-cache", "C14", I + "recurrence.py", '''    def setByMonth(self, by):
        self._setAndclearIfChanged("mByMonth", by[:])''', '''    def setByMonth(self, by):
        self.mByMonth = by[:]''',
    "expanding a rule, changing its BYMONTH list through the setter, and expanding again",
    "the second expansion answers for the old rule",
    EXP + '''
r = Recurrence.parseText("FREQ=MONTHLY;BYMONTH=1,2,3,4")
a = expand(r, "20210101T090000", "20210101T000000", "20220101T000000")
r.setByMonth([1, 12])
b = expand(r, "20210101T090000", "20210101T000000", "20220101T000000")
sys.exit(0 if len(a) == 4 and b == ["20210101T090000", "20211201T090000"] else 1)
''')

CAL = '''
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
def cal(*lines):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:-//x//EN\\r\\n" + "".join(l + "\\r\\n" for l in lines) + "END:VCALENDAR\\r\\n")
def per(a, b):
    return Period(DateTime.parseText(a), DateTime.parseText(b))
def instances(c, a, b, top=True):
    out = []
    c.getVEvents(per(a, b), out, top)
    return [(x.getOwner().getUID(), x.getInstanceStart().getText(), x.getInstanceEnd().getText()) for x in out]
'''

bug("c15-exdate-hash", "C15", S + "datetime.py", '''    def __hash__(self):
        return hash(self.getPosixTime())''', '''    def __hash__(self):
        return hash((self.mYear, self.mMonth, self.mDay, self.mHours, self.mMinutes, self.mSeconds, self.mTZID))''',
    "an EXDATE given in UTC for an event whose start carries a TZID",
    "the excluded instance stays in the expansion, because equal date-times no longer hash alike",
    CAL + '''
c = cal("BEGIN:VTIMEZONE", "TZID:Test/India", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0530", "TZOFFSETTO:+0530", "END:STANDARD", "END:VTIMEZONE",
    "BEGIN:VEVENT", "UID:1", "DTSTAMP:20200101T000000Z", "DTSTART;TZID=Test/India:20210301T100000", "RRULE:FREQ=DAILY;COUNT=4", "EXDATE:20210303T043000Z", "END:VEVENT")
got = [x[1] for x in instances(c, "20210301T000000Z", "20210401T000000Z")]
sys.exit(0 if got == ["20210301T100000", "20210302T100000", "20210304T100000"] else 1)
''')

bug("c15-exrule-start", "C15", I + "recurrenceset.py", '''        for iter in self.mExrules:
            iter.expand(start, range, exclude, float_offset=float_offset)''', '''        for iter in self.mExrules:
            iter.expand(include[0] if len(include) != 0 else start, range, exclude, float_offset=float_offset)''',
    "an EXRULE with INTERVAL and a window that starts after the event",
    "the exclusion rule is counted from the first instance of the window, so other instances are excluded than its definition says",
    CAL + '''
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20200101T000000Z", "DTSTART:20210301T100000Z", "RRULE:FREQ=DAILY", "EXRULE:FREQ=DAILY;INTERVAL=2", "END:VEVENT")
got = [x[1] for x in instances(c, "20210306T000000Z", "20210310T000000Z")]
sys.exit(0 if got == ["20210306T100000Z", "20210308T100000Z"] else 1)
''')

bug("c16-ends-at-window", "C16", I + "componentrecur.py", "            if self.mEnd <= period.getStart() or self.mStart >= period.getEnd():", "            if self.mEnd < period.getStart() or self.mStart >= period.getEnd():",
    "a single event or an overridden instance that ends exactly where the window starts",
    "the event is reported in a window it does not overlap",
    CAL + '''
c = cal("BEGIN:VEVENT", "UID:1", "DTSTAMP:20200101T000000Z", "DTSTART:20210301T100000Z", "DTEND:20210301T120000Z", "END:VEVENT")
sys.exit(0 if instances(c, "20210301T120000Z", "20210302T000000Z") == [] and len(instances(c, "20210301T110000Z", "20210302T000000Z")) == 1 else 1)
''')


bug("c08-weekday-in-year", "C08", S + "datetime.py", "            first_day += 365 + [1, 0][not utils.isLeapYear(self.mYear)] - 1", "            first_day += 365 - 1",
    "a negative weekday-in-year position in a leap year",
    "the nth-last weekday of a leap year is computed with the length of a common year",
    '''
from pycalendar.datetime import DateTime
d = DateTime(2020, 6, 1)
d.setDayOfWeekInYear(-1, DateTime.MONDAY)
sys.exit(0 if d.getText() == "20201228" else 1)
''')

bug("c09-zone-change-keeps-instant", "C09", S + "datetime.py", """    def setTimezoneID(self, tzid):
        self.mTZUTC = False
        self.mTZID = tzid
        self.changed()""", """    def setTimezoneID(self, tzid):
        self.mTZUTC = False
        self.mTZID = tzid""",
    "a UTC value that has been compared, is then put in a timezone, and is compared again with a value in another zone",
    "the comparison uses the instant the value denoted before its timezone changed", """
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:-//x//EN\\r\\nBEGIN:VTIMEZONE\\r\\nTZID:Test/India\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\nTZOFFSETFROM:+0530\\r\\nTZOFFSETTO:+0530\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\nEND:VCALENDAR\\r\\n")
a = DateTime.parseText("20210301T120000Z")
b = DateTime.parseText("20210301T100000Z")
hash(a)
assert a > b
a.setTimezoneID("Test/India")
sys.exit(0 if a < b and a == DateTime.parseText("20210301T063000Z") else 1)
""")

bug("c10-after-at-end", "C10", S + "period.py", "        return dt >= self.getEnd()", "        return dt > self.getEnd()",
    "a date-time exactly at the end of the period",
    "an instant at the exclusive end is reported as neither in, before nor after the period", """
from pycalendar.datetime import DateTime
from pycalendar.period import Period
p = Period.parseText("20210301T100000Z/PT1H")
d = DateTime.parseText("20210301T110000Z")
sys.exit(0 if p.isDateAfterPeriod(d) and not p.isDateWithinPeriod(d) else 1)
""")
