exec(open("/verif/tools/bugs13.py").read().split("\nbug(")[0])

ED = FB + '''
from pycalendar.duration import Duration
from pycalendar.icalendar.property import Property
from pycalendar.icalendar import definitions as D
def dur(n):
    d = Duration()
    d.setDuration(n)
    return d
def again(c):
    return Calendar.parseText(c.getText(includeTimezones=Calendar.NO_TIMEZONES))
def names(x):
    return sorted(n for n, ps in x.getProperties().items() for p in ps)
def starts(e, a=2020, b=2022):
    r = []
    e.getRecurrenceSet().expand(e.getStart(), Period(DateTime(a, 1, 1), DateTime(b, 1, 1)), r)
    return [str(x) for x in r]
'''
AL = ED + '''
import pycalendar.datetime as pd
import calendar as stdcal
class T(object):
    def __getattr__(self, n):
        import time
        return getattr(time, n)
    def time(self):
        return self.now
clock = T()
pd.time = clock
def now(*a):
    clock.now = stdcal.timegm(a + (0,) * (9 - len(a)))
def al(c):
    return c.getComponents()[0].getComponents()[0]
def nxt(a):
    d = DateTime()
    a.getNextTrigger(d)
    return "done" if a.getAlarmStatus() == D.eAlarm_Status_Completed else str(d)
def alcal(*l):
    return cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "DTEND:20200110T120000Z", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", *(l + ("END:VALARM", "END:VEVENT")))
'''
CR = I + "componentrecur.py"
# ---- C29
bug("c29-due-duration", "C29", CR, '''        self.removeProperties(definitions.cICalProperty_DUE)
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
        self.removeProperties(definitions.cICalProperty_DURATION)
''', '''        self.removeProperties(definitions.cICalProperty_DUE)
        self.removeProperties(definitions.cICalProperty_DTSTART)
        self.removeProperties(definitions.cICalProperty_DTEND)
''', "a to-do with a duration that gets a due date", "DURATION stays next to DUE",
    ED + '''
c = cal("BEGIN:VTODO", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "DURATION:PT1H", "END:VTODO")
t = c.getComponents()[0]
t.editTimingDue(utc(2020, 2, 1, 0, 0, 0))
ex("DURATION" not in names(t) and str(again(c).getComponents()[0].getEnd()) == str(t.getEnd()))
''')
bug("c29-email-attendees", "C29", I + "valarm.py", '''            valarm.removeProperties(definitions.cICalProperty_SUMMARY)
            valarm.removeProperties(definitions.cICalProperty_ATTENDEE)
''', '''            valarm.removeProperties(definitions.cICalProperty_SUMMARY)
            if self.mAttendees is None:
                valarm.removeProperties(definitions.cICalProperty_ATTENDEE)
''', "an e-mail alarm whose action is edited", "the previous recipients stay",
    AL + '''
from pycalendar.icalendar.valarm import VAlarm
c = alcal("TRIGGER:PT0S")
a = al(c)
a.editAction(D.eAction_VAlarm_Email, VAlarm.VAlarmEmail("d", "s", ["mailto:a@example.com"]))
a.editAction(D.eAction_VAlarm_Email, VAlarm.VAlarmEmail("d", "s", ["mailto:b@example.com"]))
ex(len(a.getProperties("ATTENDEE")) == 1)
''')
bug("c29-reopened", "C29", I + "vtodo.py", '''            self.removeProperties(definitions.cICalProperty_STATUS)
            self.removeProperties(definitions.cICalProperty_COMPLETED)
            self.mHasCompleted = False
''', '''            self.removeProperties(definitions.cICalProperty_STATUS)
            if status == definitions.eStatus_VToDo_Completed:
                self.removeProperties(definitions.cICalProperty_COMPLETED)
            self.mHasCompleted = False
''', "a completed to-do that is reopened or cancelled", "it still has a time of completion when it is read again",
    ED + '''
c = cal("BEGIN:VTODO", "UID:f", "DTSTAMP:20200101T000000Z", "STATUS:COMPLETED", "COMPLETED:20200109T000000Z", "END:VTODO")
t = c.getComponents()[0]
t.editStatus(D.eStatus_VToDo_InProcess)
ex(not again(c).getComponents()[0].hasCompleted())
''')
bug("c29-one-repeat", "C29", I + "valarm.py", '''        if self.mRepeats > 0:
''', '''        if self.mRepeats > 1:
''', "an alarm set to repeat once", "it does not repeat when it is read again",
    AL + '''
c = alcal("TRIGGER:PT0S")
al(c).editRepeats(1, dur(300))
ex(al(again(c)).getRepeats() == 1)
''')
bug("c29-stamp", "C29", CR, '''        self.mHasStamp = temp is not None
        if self.mHasStamp:
            self.mStamp = temp

    def getStamp''', '''        self.mHasStamp = temp is not None
        if self.mHasStamp and self.mStamp is None:
            self.mStamp = temp

    def getStamp''', "a new stamp for a component that has one", "the component goes on answering the previous one",
    ED + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "END:VEVENT")
e = c.getComponents()[0]
e.initDTSTAMP()
ex(str(e.getStamp()) == str(again(c).getComponents()[0].getStamp()))
''')
bug("c29-same-end", "C29", CR, '''        if self.mHasStart and self.mEnd <= self.mStart:
''', '''        if self.mHasStart and self.mEnd < self.mStart:
''', "an event edited to end when it starts", "an end that is not after the start is written",
    ED + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "END:VEVENT")
e = c.getComponents()[0]
e.editTimingStartEnd(utc(2020, 1, 5, 10, 0, 0), utc(2020, 1, 5, 10, 0, 0))
ex(e.getEnd() > e.getStart())
''')
bug("c29-related", "C29", I + "valarm.py", '''            )[not trigger_start]
''', '''            )[not trigger_start and duration.getTotalSeconds() >= 0]
''', "an alarm edited to some time before the end", "it is written as before the start",
    AL + '''
c = alcal("TRIGGER:PT0S")
al(c).editTriggerBy(dur(-600), False)
ex(not al(again(c)).isTriggerOnStart())
''')
# ---- C33
bug("c33-rdates-stay", "C33", CR, '''        self.removeProperties(definitions.cICalProperty_RRULE)
        self.removeProperties(definitions.cICalProperty_RDATE)

        # Now create properties
        for iter in self.mRecurrences.getRules():
            prop = Property(definitions.cICalProperty_RRULE, iter)
            self.addProperty(prop)
        for iter in self.mRecurrences.getDates() +''', '''        self.removeProperties(definitions.cICalProperty_RRULE)

        # Now create properties
        for iter in self.mRecurrences.getRules():
            prop = Property(definitions.cICalProperty_RRULE, iter)
            self.addProperty(prop)
        for iter in self.mRecurrences.getDates() +''', "an event with RDATEs cut off at some moment", "RDATEs after it stay",
    ED + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "RDATE:20200120T100000Z,20200220T100000Z", "END:VEVENT")
e = c.getComponents()[0]
e.excludeFutureRecurrence(utc(2020, 2, 1, 0, 0, 0))
ex(len(starts(e)) == 2)
''')
bug("c33-until-kept", "C33", I + "recurrence.py", '''        if self.getUseUntil() or not self.getUseCount():
''', '''        if not self.getUseUntil() and not self.getUseCount():
''', "a rule with UNTIL cut off before it", "the rule goes on to its UNTIL",
    ED + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "RRULE:FREQ=DAILY;UNTIL=20200301T000000Z", "END:VEVENT")
e = c.getComponents()[0]
e.excludeFutureRecurrence(utc(2020, 1, 12, 0, 0, 0))
ex(len(starts(e)) == 2)
''')
bug("c33-exdate-only", "C33", I + "recurrenceset.py", '''        for iter in self.mExdates:
            if range.isDateWithinPeriod(iter):
                exclude.append(iter)
''', '''        for iter in self.mExdates:
            if range.isDateWithinPeriod(iter) and iter.getTimezoneID() == start.getTimezoneID():
                exclude.append(iter)
''', "an instance of a zoned event excluded by the same moment in UTC", "the instance stays",
    ED + '''
Calendar.parseText("""BEGIN:VCALENDAR
VERSION:2.0
PRODID:x
BEGIN:VTIMEZONE
TZID:A/B
BEGIN:STANDARD
DTSTART:19700101T000000
TZOFFSETFROM:-0500
TZOFFSETTO:-0500
END:STANDARD
END:VTIMEZONE
END:VCALENDAR
""")
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART;TZID=A/B:20200110T100000", "RRULE:FREQ=DAILY;COUNT=5", "END:VEVENT")
e = c.getComponents()[0]
e.excludeRecurrence(utc(2020, 1, 12, 15, 0, 0))
ex(len(starts(e)) == 4)
''')
# ---- C34
bug("c34-at-next", "C34", I + "valarm.py", '''            if next_trigger > nowutc:
''', '''            if next_trigger >= nowutc:
''', "a repeating alarm re-read at the very moment of a repeat", "an earlier time is given",
    AL + '''
c = alcal("TRIGGER:PT0S", "REPEAT:2", "DURATION:PT5M")
now(2020, 1, 10, 10, 5, 0)
ex(nxt(al(c)) == "20200110T100500Z")
''')
bug("c34-skipped-count", "C34", I + "valarm.py", '''                trigger = trigger + self.mRepeatInterval
                self.mDoneCount += 1
''', '''                trigger = trigger + self.mRepeatInterval
''', "an alarm that rang, re-read before its next time", "it rings once more than it should",
    AL + '''
c = alcal("TRIGGER:PT0S", "REPEAT:1", "DURATION:PT5M", "X-MULBERRY-LAST-TRIGGER:20200110T100000Z")
now(2020, 1, 10, 10, 1, 0)
a = al(c)
ok = nxt(a) == "20200110T100500Z"
now(2020, 1, 10, 10, 5, 0)
ex(ok and not a.alarmTriggered(utc(2020, 1, 10, 10, 5, 0)))
''')
bug("c34-last", "C34", I + "valarm.py", '''        if trigger == self.mLastTrigger or (nowutc''', '''        if trigger == self.mLastTrigger and self.mDoneCount != 0 or (nowutc''', "an alarm that rang the first time, re-read before its next time", "it rings again",
    AL + '''
c = alcal("TRIGGER:PT0S", "REPEAT:1", "DURATION:PT5M", "X-MULBERRY-LAST-TRIGGER:20200110T100000Z")
now(2020, 1, 10, 10, 1, 0)
ex(nxt(al(c)) == "20200110T100500Z")
''')
bug("c34-missed", "C34", I + "valarm.py", '''(nowutc - trigger).getTotalSeconds() > 24 * 60 * 60''', '''(nowutc - trigger).getTotalSeconds() % (7 * 24 * 60 * 60) > 24 * 60 * 60''', "an alarm missed some weeks ago", "it rings now",
    AL + '''
c = alcal("TRIGGER:PT0S")
now(2020, 1, 24, 10, 0, 5)
ex(nxt(al(c)) == "done")
''')
bug("c34-related-end", "C34", I + "valarm.py", '''                trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
''', '''                trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart() and (owner.hasEnd() or not owner.useDuration())]
''', "an alarm related to the end of an event with a duration", "it rings relative to the start",
    AL + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "DURATION:PT2H", "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x", "TRIGGER;RELATED=END:PT0S", "END:VALARM", "END:VEVENT")
now(2020, 1, 1, 0, 0, 0)
ex(nxt(al(c)) == "20200110T120000Z")
''')
bug("c33-until-utc", "C33", I + "recurrence.py", '''                if self.mUseUntil:
                    # Exit if next item is after until (its OK if its the same
                    # as UNTIL as UNTIL is inclusive)
                    if iter > float_until:
                        return True
''', '''                if self.mUseUntil:
                    # Exit if next item is after until (its OK if its the same
                    # as UNTIL as UNTIL is inclusive)
                    if iter > float_until:
                        return True
                    if iter == float_until and self.mBySetPos:
                        return True
''', "a rule with BYSETPOS cut off", "one more instance goes",
    ED + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200131T100000Z", "RRULE:FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1", "END:VEVENT")
e = c.getComponents()[0]
e.excludeFutureRecurrence(utc(2020, 4, 1, 0, 0, 0))
ex(len(starts(e)) == 3)
''')
