exec(open("/verif/tools/bugs3.py").read().split("\nbug(")[0])
C17 = P + '''
from pycalendar.icalendar.calendar import Calendar
def cal(body):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\n" + body.replace("\\n", "\\r\\n") + "END:VCALENDAR\\r\\n")
'''
bug("c17-parameter-shared", "C17", S + "parameter.py", "other.mValues = self.mValues[:]", "other.mValues = self.mValues[:] if len(self.mValues) != 1 or self.mName == \"VALUE\" else self.mValues",
    "a value is added to a parameter with one value of a property that was duplicated", "the other copy gets the value too",
    C17 + '''
a = Property.parseText("ATTENDEE;CN=x:mailto:a@b.c")
b = a.duplicate()
a.getParameters()["CN"][0].addValue("y")
sys.exit(0 if "y" not in str(b) else 1)
''')
bug("c17-todo-priority", "C17", I + "vtodo.py", '''        other.mPriority = self.mPriority
''', '''        other.mPriority = self.mPriority if self.mHasCompleted or self.mHasStart else 0
''',
    "a duplicate of a VTODO with PRIORITY but neither COMPLETED nor DTSTART", "getPriority of the duplicate is 0",
    C17 + '''
c = cal("BEGIN:VTODO\\nUID:1\\nPRIORITY:4\\nEND:VTODO\\n").duplicate()
sys.exit(0 if c.getComponents("VTODO")[0].getPriority() == 4 else 1)
''')
bug("c17-bysetpos", "C17", I + "recurrence.py", "other.mBySetPos = self.mBySetPos[:]", "other.mBySetPos = self.mBySetPos",
    "the list of set positions of a rule is edited after the rule was duplicated", "the duplicate changes too",
    C17 + '''
p = Property.parseText("RRULE:FREQ=MONTHLY;BYDAY=MO,TU;BYSETPOS=1")
q = p.duplicate()
p.getRecurrenceValue().getValue().getBySetPos().append(-1)
sys.exit(0 if str(q).strip().endswith("BYSETPOS=1") else 1)
''')
bug("c17-alarm-interval", "C17", I + "valarm.py", '''        other.mRepeatInterval = self.mRepeatInterval.duplicate()
''', '''        if self.mRepeats:
            other.mRepeatInterval = self.mRepeatInterval.duplicate()
''',
    "a duplicate of an alarm with a DURATION but no REPEAT", "its interval is the default one",
    C17 + '''
c = cal("BEGIN:VEVENT\\nUID:1\\nDTSTART:20200101T000000Z\\nBEGIN:VALARM\\nACTION:AUDIO\\nTRIGGER:-PT1M\\nDURATION:PT17M\\nEND:VALARM\\nEND:VEVENT\\n").duplicate()
sys.exit(0 if c.getComponents("VEVENT")[0].getComponents()[0].getInterval().getText() == "PT17M" else 1)
''')
bug("c17-period-end", "C17", S + "period.py", "other = Period(start=self.mStart.duplicate(), end=self.mEnd.duplicate())", "other = Period(start=self.mStart.duplicate(), end=self.mEnd.duplicate() if self.mEnd.utc() else self.mEnd)",
    "a period with an explicit end that is not UTC is duplicated and its end edited", "the other copy changes too",
    C17 + '''
p = Property.parseText("RDATE;VALUE=PERIOD:20200101T000000/20200102T000000")
q = p.duplicate()
p.getMultiValue().getValues()[0].getValue().getEnd().offsetDay(1)
sys.exit(0 if "/20200102T" in str(q) else 1)
''')
