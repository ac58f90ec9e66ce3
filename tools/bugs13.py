exec(open("/verif/tools/bugs10.py").read().split("\nbug(")[0])
FB = V + '''
from pycalendar.period import Period
from pycalendar.datetime import DateTime
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.timezone import Timezone
def utc(*a):
    return DateTime(*a, tzid=Timezone(utc=True))
def busy(c, a=utc(2020, 1, 1, 0, 0, 0), b=utc(2020, 2, 1, 0, 0, 0)):
    r = []
    c.getFreeBusy(Period(a, b), r)
    return sorted((x.getPeriod().getText(), x.getType()) for x in r)
'''
bug("c28-latest-end", "C28", I + "vfreebusy.py", '''                                    min_start = period.getValue().getStart()
                                if max_end < period.getValue().getEnd():
''', '''                                    min_start = period.getValue().getStart()
                                elif max_end < period.getValue().getEnd():
''', "a VFREEBUSY without DTEND whose periods include one that starts before and ends after all those given before it", "busy time at its end is left out of windows there",
    FB + '''
c = cal("BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "FREEBUSY:20200110T100000Z/PT1H", "FREEBUSY:20200105T100000Z/P10D", "END:VFREEBUSY")
ex(len(busy(c, utc(2020, 1, 12, 0, 0, 0), utc(2020, 1, 13, 0, 0, 0))) == 1)
''')
bug("c28-type-case", "C28", I + "vfreebusy.py", '''                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_BUSYTENTATIVE:
''', '''                elif fbyype == definitions.cICalParameter_FBTYPE_BUSYTENTATIVE:
''', "FBTYPE=Busy-Tentative not in upper case", "tentatively busy time counts as busy",
    FB + '''
c = cal("BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "FREEBUSY;FBTYPE=busy-tentative:20200110T100000Z/PT1H", "END:VFREEBUSY")
ex([x[1] for x in busy(c)] == [FreeBusy.BUSYTENTATIVE])
''')
bug("c28-shared-period", "C28", I + "freebusy.py", '''        self.mPeriod = period.duplicate() if period is not None else None
''', '''        self.mPeriod = period
''', "the periods that were given out are changed and the busy time asked for again", "the stored busy time, and what is written, changes with them",
    FB + '''
c = cal("BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "FREEBUSY:20200110T100000Z/PT1H", "END:VFREEBUSY")
b = str(c)
r = []
c.getFreeBusy(Period(utc(2020, 1, 1, 0, 0, 0), utc(2020, 2, 1, 0, 0, 0)), r)
r[0].getPeriod().getStart().offsetDay(-2)
ex(str(c) == b and busy(c) == busy(Calendar.parseText(b)))
''')
bug("c28-copied-status", "C28", I + "vevent.py", '''        other.mStatus = self.mStatus
        return other
''', '''        return other
''', "a copied calendar with cancelled or tentative events", "their time is busy in the copy",
    FB + '''
c = cal("BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200110T100000Z", "DURATION:PT1H", "STATUS:CANCELLED", "END:VEVENT").duplicate()
ex(busy(c) == [])
''')
bug("c28-copied-end", "C28", I + "vfreebusy.py", '''        other.mHasEnd = self.mHasEnd
        other.mDuration = self.mDuration
''', '''        other.mDuration = self.mDuration
        other.mHasEnd = self.mDuration
''', "a copied VFREEBUSY with DTEND later than its busy time", "it is not listed in windows there",
    FB + '''
c = cal("BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T000000Z", "DTEND:20200131T000000Z", "FREEBUSY:20200110T100000Z/PT1H", "END:VFREEBUSY")
def n(c):
    r = []
    c.getVFreeBusyList(Period(utc(2020, 1, 20, 0, 0, 0), utc(2020, 1, 21, 0, 0, 0)), r)
    return len(r)
ex(n(c) == n(c.duplicate()) == 1)
''')
bug("c28-unknown-value", "C28", I + "vfreebusy.py", '''        self.mBusyTime = []

''', '''        if self.mBusyTime is None:
            self.mBusyTime = []

''', "a VFREEBUSY asked, changed and asked again", "periods are given twice, and ones that were removed are still given",
    FB + '''
from pycalendar.icalendar.property import Property
c = cal("BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "FREEBUSY:20200110T100000Z/PT1H", "END:VFREEBUSY")
busy(c)
f = c.getComponents()[0]
f.removeProperties("FREEBUSY")
f.addProperty(Property("FREEBUSY", [Period(utc(2020, 1, 12, 0, 0, 0), utc(2020, 1, 13, 0, 0, 0))]))
f.finalise()
ex(busy(c) == busy(Calendar.parseText(str(c))))
''')
bug("c28-first-value", "C28", I + "vfreebusy.py", '''                            self.mBusyTime.append(FreeBusy(type, period.getValue()))

                            if len(self.mBusyTime) == 1:
''', '''                            self.mBusyTime.append(FreeBusy(type, period.getValue()))

                            if o is multi.getValues()[0]:
''', "several FREEBUSY properties, a later of which lies within the earlier ones, without DTSTART or DTEND", "busy time of the earlier properties is left out",
    FB + '''
c = cal("BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20200101T000000Z", "FREEBUSY:20200105T100000Z/PT1H", "FREEBUSY:20200110T100000Z/PT1H", "END:VFREEBUSY")
ex(len(busy(c)) == 2 and len(busy(c, utc(2020, 1, 5, 0, 0, 0), utc(2020, 1, 6, 0, 0, 0))) == 1)
''')
