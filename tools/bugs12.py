exec(open("/verif/tools/bugs10.py").read().split("\nbug(")[0])
HIST = V + '''
M = ("BEGIN:VEVENT", "UID:%s", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T100000Z", "DURATION:PT1H", "RRULE:FREQ=DAILY;COUNT=3", "END:VEVENT")
O = ("BEGIN:VEVENT", "UID:%s", "DTSTAMP:20200101T000000Z", "RECURRENCE-ID:20200102T100000Z", "DTSTART:20200102T150000Z", "DURATION:PT1H", "END:VEVENT")
def of(t, uid):
    return tuple(l.replace("%s", uid) for l in t)
from pycalendar.period import Period
from pycalendar.datetime import DateTime
def shown(c):
    r = []
    c.getVEvents(Period(DateTime(2020, 1, 1, 0, 0, 0), DateTime(2020, 2, 1, 0, 0, 0)), r)
    return sorted((x.getOwner().getUID(), x.getInstanceStart().getText()) for x in r)
def same(c):
    return shown(c) == shown(Calendar.parseText(str(c)))
'''
bug("c23-type-index", "C23", S + "componentbase.py", '''                if component.getType().upper() == compname:
                    self.removeComponent(component)
''', '''                if component.getType().upper() == compname:
                    self.mComponents.remove(component)
''',
    "all components of a type removed and masters added again", "instances removed with their type still hide those of the new master",
    HIST + '''
c = cal(*(of(M, "a") + of(O, "a")))
m = cal(*of(M, "a")).getComponents()[0]
m.setParentComponent(c)
c.removeAllComponent("VEVENT")
c.addComponent(m)
ex(same(c))
''')
bug("c23-key-index", "C23", S + "componentbase.py", '''            if component.getMapKey() == key:
                self.removeComponent(component)
                return
''', '''            if component.getMapKey() == key:
                self.mComponents.remove(component)
                return
''',
    "an overridden instance removed by its key", "its master does not show the occurrence again",
    HIST + '''
c = cal(*(of(M, "a") + of(O, "a")))
o = [x for x in c.getComponents() if x.isRecurrenceInstance()][0]
c.removeComponentByKey(o.getMapKey())
ex(same(c) and len(shown(c)) == 3)
''')
bug("c23-rename-key", "C23", S + "icalendar/componentrecur.py", '''        # Update the map key
        if self.mHasRecurrenceID:
            self.mMapKey = self.mapKey(self.mUID, self.mRecurrenceID.getText())
        else:
            self.mMapKey = self.mapKey(self.mUID)

    def getSummary(self):
''', '''        # Update the map key
        if self.mHasRecurrenceID and self.mMapKey is None:
            self.mMapKey = self.mapKey(self.mUID, self.mRecurrenceID.getText())
        elif not self.mHasRecurrenceID:
            self.mMapKey = self.mapKey(self.mUID)

    def getSummary(self):
''',
    "overridden instances after their UID was changed", "they are found by the old key only",
    HIST + '''
c = cal(*(of(M, "a") + of(O, "a")))
c.changeUID("a", "b")
d = Calendar.parseText(str(c))
ex(sorted(x.getMapKey() for x in c.getComponents()) == sorted(x.getMapKey() for x in d.getComponents()))
''')
bug("c24-exrule", "C24", S + "icalendar/calendar.py", '''            definitions.cICalProperty_EXRULE,
            definitions.cICalProperty_EXDATE,
''', '''            definitions.cICalProperty_EXDATE,
''',
    "deriving from a master with an EXRULE", "the instance has exclusions",
    HIST + '''
m = of(M, "a")
c = cal(*(m[:-1] + ("EXRULE:FREQ=DAILY;INTERVAL=2;COUNT=1", "END:VEVENT")))
d = c.deriveComponent(DateTime.parseText("20200102T100000Z"))
ex("EXRULE" not in d.getText())
''')
bug("c24-argument", "C24", S + "icalendar/calendar.py", '''        newdtstartValue = recurrenceID.duplicate()
''', '''        newdtstartValue = recurrenceID
''',
    "the date-time asked for is used again, or is in another timezone", "it is changed with the instance",
    HIST + '''
DB.createTimezoneDatabase(None)
Calendar.parseText(tz("A/B", "-0900"))
c = cal("BEGIN:VEVENT", "UID:a", "DTSTAMP:20200101T000000Z", "DTSTART;TZID=A/B:20200101T100000", "RRULE:FREQ=DAILY", "END:VEVENT")
r = DateTime.parseText("20200102T190000Z")
d = c.deriveComponent(r)
ex(r.getText() == "20200102T190000Z" and "DTSTART;TZID=A/B:20200102T100000" in d.getText())
''')
bug("c32-rid", "C32", S + "icalendar/componentrecur.py", '''            result = "u:" + uid
            if rid is not None:
''', '''            result = "u:" + uid
            if rid is not None and (not rid.endswith("Z") or len(uid) < 30):
''',
    "instances of one UID with recurrence ids in UTC and a long UID", "they are written in the order given",
    HIST + '''
a, b = of(O, "a" * 40), tuple(l.replace("20200102", "20200103") for l in of(O, "a" * 40))
ex(str(cal(*(a + b))) == str(cal(*(b + a))))
''')
bug("c32-prop-order", "C32", S + "componentbase.py", '''            if skey in keys:
                results.append(skey)
                keys.remove(skey)
        results.extend(keys)
        return results
''', '''            if skey in keys:
                results.append(skey)
                keys.remove(skey)
        results.extend(keys if len(keys) < 12 else [key for key in self.mProperties if key in keys])
        return results
''',
    "components with a dozen other properties", "they are written in another order than the same given in another order",
    HIST + '''
import json
p = ["X-%s:%d" % (chr(65 + (i * 7) % 26), i) for i in range(26)]
a, b = event(*p), event(*reversed(p))
x = str(a).split("\\r\\n")
x = [l for l in x if l.startswith("X-")]
ex(str(a) == str(b) and x == sorted(x))
''')
bug("c32-param-order", "C32", S + "parameter.py", '''                for s in sorted(self.mValues):
''', '''                for s in (sorted(self.mValues) if len(self.mValues) < 4 else self.mValues):
''',
    "parameters with four and more values", "they are written in the order given",
    HIST + '''
a = event('ATTENDEE;MEMBER="mailto:a","mailto:b","mailto:c","mailto:d":mailto:x')
b = event('ATTENDEE;MEMBER="mailto:d","mailto:c","mailto:b","mailto:a":mailto:x')
ex(str(a) == str(b))
''')