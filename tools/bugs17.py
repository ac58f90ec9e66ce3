exec(open("/verif/tools/bugs15.py").read().split("\nbug(")[0])
DT = DT + """
U = DateTime.parseText
def event(*lines):
    return ("BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z") + lines + ("END:VEVENT",)
old = cal
def cal(*parts):
    return old(*[l for p in parts for l in p])
"""
bug("c36-noon", "C36", "src/pycalendar/datetime.py", "            if adjusted_hour >= 12:\n", "            if adjusted_hour > 12:\n",
    "a time of the hour after noon shown with AM or PM", "it is shown as a time after midnight",
    V + '''
from pycalendar.datetime import DateTime
ex(DateTime(2020, 1, 1, 12, 30, 0).getTime(False, True, False) == "12:30 PM")
''')
bug("c36-periods-described", "C36", "src/pycalendar/icalendar/recurrenceset.py", '''                (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                (len(self.mExperiods) == 0)):''', '''                (len(self.mExdates) == 0) and (len(self.mExperiods) == 0)):''',
    "one rule and further periods", "the description leaves the periods out",
    V + '''
from pycalendar.icalendar.calendar import Calendar
ev = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTART:20200101T000000Z\\r\\nRRULE:FREQ=DAILY;COUNT=3\\r\\nRDATE;VALUE=PERIOD:20200201T000000Z/PT1H\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n").getComponents("VEVENT")[0]
ex(ev.getRecurrenceSet().getUIDescription().startswith("Multiple"))
''')
bug("c36-fifth-week", "C36", "src/pycalendar/icalendar/recurrence.py", "                    if (number > 4) or (number < -2):\n", "                    if (number > 5) or (number < -5):\n",
    "a rule of a fifth or of a third last weekday", "it is taken for one that the simple editor can show",
    V + '''
from pycalendar.icalendar.recurrence import Recurrence
r = Recurrence()
r.parse("FREQ=MONTHLY;BYDAY=5MO")
s = Recurrence()
s.parse("FREQ=MONTHLY;BYDAY=-3MO")
ex(not r.isAdvancedRule() and not s.isAdvancedRule())
''')
bug("c36-ends-now", "C36", "src/pycalendar/icalendar/componentexpanded.py", "        return self.mInstanceStart <= now and self.mInstanceEnd > now\n", "        return self.mInstanceStart <= now and self.mInstanceEnd >= now\n",
    "an instance that ends at this very second", "it is still shown as going on",
    V + '''
from pycalendar.datetime import DateTime
from pycalendar.icalendar.componentexpanded import ComponentExpanded
from pycalendar.icalendar.calendar import Calendar
from pycalendar.period import Period
import time
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTART:20200101T000000Z\\r\\nDTEND:20200101T010000Z\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
o = []
c.getVEvents(Period(DateTime.parseText("20190101T000000Z"), DateTime.parseText("20210101T000000Z")), o)
DateTime.getNowUTC = staticmethod(lambda: DateTime.parseText("20200101T010000Z"))
ex(not o[0].isNow())
''')
bug("c15-early-exdate", "C15", "src/pycalendar/icalendar/recurrenceset.py", '''            if range.isDateWithinPeriod(iter):
                exclude.append(iter)
''', '''            if iter >= start and range.isDateWithinPeriod(iter):
                exclude.append(iter)
''',
    "an RDATE before DTSTART that an EXDATE takes away", "it is still an instance",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "DTEND:20200110T130000Z", "RDATE:20200105T120000Z,20200106T120000Z", "EXDATE:20200105T120000Z"))
ex(starts(c, "20200101T000000Z", "20200201T000000Z") == ["20200106T120000Z", "20200110T120000Z"])
''')
bug("c15-exrule-alone", "C15", "src/pycalendar/icalendar/recurrenceset.py", '''        for iter in self.mExrules:
            iter.expand(start, range, exclude, float_offset=float_offset)
''', '''        for iter in self.mExrules if self.mRrules else ():
            iter.expand(start, range, exclude, float_offset=float_offset)
''',
    "dates without a rule, some of which an EXRULE takes away", "they are still instances",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "DTEND:20200110T130000Z", "RDATE:20200111T120000Z,20200112T120000Z", "EXRULE:FREQ=DAILY;INTERVAL=2"))
ex("20200112T120000Z" not in starts(c, "20200101T000000Z", "20200201T000000Z"))
''')
bug("c15-periods-only", "C15", "src/pycalendar/icalendar/recurrenceset.py", '''            (len(self.mRrules) != 0) or (len(self.mRdates) != 0) or (len(self.mRperiods) != 0) or
            (len(self.mExrules) != 0)''', '''            (len(self.mRrules) != 0) or (len(self.mRdates) != 0) or
            (len(self.mExrules) != 0)''',
    "a component that recurs only at periods", "it is shown once",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "DTEND:20200110T130000Z", "RDATE;VALUE=PERIOD:20200112T120000Z/PT1H"))
ex(starts(c, "20200101T000000Z", "20200201T000000Z") == ["20200110T120000Z", "20200112T120000Z"])
''')
bug("c16-moved-in", "C16", "src/pycalendar/icalendar/componentrecur.py", '''        elif self.withinPeriod(period):
            if self.isRecurrenceInstance():
                rid = self.mRecurrenceID
            else:
                rid = None
            results''', '''        elif self.withinPeriod(period):
            if self.isRecurrenceInstance():
                rid = self.mRecurrenceID
                if rid >= period.getEnd():
                    return
            else:
                rid = None
            results''',
    "an instance that was moved to an earlier time, out of a later window", "it is not shown at its new time",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "DTEND:20200110T130000Z", "RRULE:FREQ=DAILY;COUNT=30"), event("RECURRENCE-ID:20200120T120000Z", "DTSTART:20200111T150000Z", "DTEND:20200111T160000Z"))
ex("20200111T150000Z" in starts(c, "20200111T000000Z", "20200112T000000Z"))
''')
bug("c09-copied-duration", "C09", "src/pycalendar/period.py", "            other = Period(start=self.mStart.duplicate(), duration=self.mDuration.duplicate())\n", "            other = Period(start=self.mStart.duplicate(), duration=self.mDuration)\n",
    "a copy of a period whose duration is then changed", "the original period changes",
    DT + '''
p = Period(U("20200101T000000Z"), duration=Duration(hours=1))
q = p.duplicate()
q.getDuration().setDuration(60)
ex(p.getText() == "20200101T000000Z/PT1H")
''')
