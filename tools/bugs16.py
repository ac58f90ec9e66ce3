exec(open("/verif/tools/bugs12.py").read().split("\nbug(")[0])
TL = V + '''
import os, sys, tempfile, shutil
from cStringIO import StringIO
SRC = os.path.join(os.getcwd(), "src")
sys.path.insert(0, os.path.join(SRC, "zonal"))
def run(prog, *args):
    p = os.path.join(SRC, prog)
    with open(p) as f:
        code = compile(f.read(), p, "exec")
    old = sys.argv, sys.stdout
    sys.argv, sys.stdout = [p] + list(args), StringIO()
    try:
        exec(code, {"__name__": "__main__"})
    except SystemExit:
        pass
    finally:
        out = sys.stdout.getvalue()
        sys.argv, sys.stdout = old
    return out
def put(path, text):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, "w") as f:
        f.write(text)
D = tempfile.mkdtemp()
def zone(name, *obs):
    t = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//EN", "BEGIN:VTIMEZONE", "TZID:" + name]
    for start, a, b, rule in obs:
        t += ["BEGIN:STANDARD", "DTSTART:" + start] + (["RRULE:" + rule] if rule else []) + ["TZOFFSETFROM:" + a, "TZOFFSETTO:" + b, "TZNAME:X", "END:STANDARD"]
    return "\\r\\n".join(t + ["END:VTIMEZONE", "END:VCALENDAR", ""])
def done(ok, what=""):
    shutil.rmtree(D)
    ex(ok)
'''
bug("c35-negative-seconds", "C35", "src/zonal/tzdump.py", '''    if secs:
        return "%s%02d:%02d:%02d" % (negative, hours, mins, secs,)
''', '''    if secs and not negative:
        return "%s%02d:%02d:%02d" % (negative, hours, mins, secs,)
''',
    "an offset west of Greenwich with seconds", "tzdump leaves the seconds out",
    TL + '''
f = os.path.join(D, "a.ics")
put(f, zone("Z", ("19200601T000000", "-045602", "-0500", "")))
out = run("zonal/tzdump.py", "--start", "1919", "--end", "1930", f)
done("-04:56:02" in out)
''')
bug("c35-first-year", "C35", "src/zonal/tzverify.py", "            if i[0] == start:\n", "            if i[0].getYear() == start.getYear():\n",
    "transitions that differ in the first year compared", "the difference in that year is not reported",
    TL + '''
put(os.path.join(D, "1", "a.ics"), zone("Z", ("19000101T000000", "+0100", "+0100", ""), ("19900601T000000", "+0100", "+0200", "")))
put(os.path.join(D, "2", "a.ics"), zone("Z", ("19000101T000000", "+0100", "+0100", "")))
out = run("zonal/tzverify.py", "--start", "1990", "--end", "2000", os.path.join(D, "1"), os.path.join(D, "2"))
done("In calendar 1 but not in calendar 2" in out)
''')
bug("c35-other-side", "C35", "src/zonal/tzverify.py", '''        if d2:
            print "In calendar 2''', '''        elif d2:
            print "In calendar 2''',
    "zones that differ on both sides", "only the first side's transitions are reported",
    TL + '''
put(os.path.join(D, "1", "a.ics"), zone("Z", ("19000101T000000", "+0100", "+0100", ""), ("19950601T000000", "+0100", "+0200", "")))
put(os.path.join(D, "2", "a.ics"), zone("Z", ("19000101T000000", "+0100", "+0100", ""), ("19960601T000000", "+0100", "+0200", "")))
out = run("zonal/tzverify.py", "--start", "1990", "--end", "2000", os.path.join(D, "1"), os.path.join(D, "2"))
done("In calendar 1 but" in out and "In calendar 2 but" in out)
''')
bug("c35-subdir", "C35", "src/zonal/tzverify.py", '''            if os.path.isdir(fpath):
                scanForICS(fpath)
''', '''            if os.path.isdir(fpath) and dirpath == zoneinfopath:
                scanForICS(fpath)
''',
    "zone files two directories deep", "those zones are not compared",
    TL + '''
for n in "12":
    put(os.path.join(D, n, "America", "Argentina", "a.ics"), zone("Z", ("19000101T000000", "+0100", "+0%s00" % n, ""), ("19950601T000000", "+0%s00" % n, "+0500", "")))
out = run("zonal/tzverify.py", "--start", "1890", "--end", "2000", os.path.join(D, "1"), os.path.join(D, "2"))
done("Checking TZID: Z" in out)
''')
bug("c35-vertical-tab", "C35", "src/pycalendar/validator.py", '''    if len(s.translate(None, "\\x00\\x01\\x02\\x03\\x04\\x05\\x06\\x07\\x08\\x0B\\x0C''', '''    if len(s.translate(None, "\\x00\\x01\\x02\\x03\\x04\\x05\\x06\\x07\\x08\\x0C''',
    "data whose only control characters are vertical tabs", "they are not reported",
    TL + '''
put(os.path.join(D, "a.ics"), "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nX-A:a\\x0bb\\r\\nEND:VCALENDAR\\r\\n")
out = run("pycalendar/validator.py", os.path.join(D, "a.ics"))
done("Control character 11" in out)
''')
bug("c35-century", "C35", "src/pycalendar/instances.py", "    end.offsetYear(100)\n", "    end.offsetDay(36500)\n",
    "a rule that runs for the whole hundred years", "the last weeks are left out",
    TL + '''
out = run("pycalendar/instances.py", "20000110T120000", "FREQ=DAILY")
done(out.split("Instances:")[1].count(",") == 36524)
''')
bug("c35-fixed-problems", "C35", "src/pycalendar/validator.py", "cal.validate(doFix=False, doRaise=False)", "cal.validate(doFix=True, doRaise=False)",
    "data with a problem that can be fixed", "the validator finds no problems in it",
    TL + '''
put(os.path.join(D, "a.ics"), "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\nDTEND:20200102T000000Z\\r\\nDURATION:PT1H\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
out = run("pycalendar/validator.py", os.path.join(D, "a.ics"))
done("List of problems" in out)
''')
bug("c01-built-list-zone", "C01", "src/pycalendar/icalendar/property.py", '''        if ((len(dtl) > 0) and not dtl[0].isDateOnly() and dtl[0].local()):
''', '''        if ((len(dtl) == 1) and not dtl[0].isDateOnly() and dtl[0].local()):
''',
    "a property made from several date-times with a zone", "the zone is not written",
    V + '''
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.property import Property
z = Timezone(tzid="America/New_York")
p = Property("EXDATE", [DateTime(2020, 1, d, 12, 0, 0, tzid=z) for d in (1, 2)])
ex("TZID=America/New_York" in p.getText())
''')
bug("c06-built-date", "C06", "src/pycalendar/vcard/property.py", '''        elif isinstance(value, DateTime):
            self._init_attr_value_datetime(value)
''', '''        elif isinstance(value, DateTime):
            self._init_attr_value_datetime(value)
            if valuetype is None and self.mName.upper() == definitions.Property_REV:
                self.removeParameters(definitions.Parameter_VALUE)
''',
    "a REV made from a date", "the type is not stated",
    V + '''
from pycalendar.datetime import DateTime
from pycalendar.vcard.property import Property
t = Property(name="REV", value=DateTime(2020, 1, 1)).getText()
ex("VALUE=DATE:20200101" in t.upper())
''')
bug("c11-default-descriptor", "C11", "src/pycalendar/manager.py", '''    def setDefaultTimezone(self, tzid):
        Timezone.sDefaultTimezone = tzid
''', '''    def setDefaultTimezone(self, tzid):
        if not tzid.getUTC() or Timezone.sDefaultTimezone is None:
            Timezone.sDefaultTimezone = tzid
''',
    "the default zone set back to UTC", "the zone set before stays the default",
    V + '''
from pycalendar.timezone import Timezone
from pycalendar.manager import CalendarManager
old = Timezone.sDefaultTimezone
m = CalendarManager()
m.setDefaultTimezone(Timezone(tzid="America/New_York"))
m.setDefaultTimezone(Timezone(utc=True))
ok = m.getDefaultTimezone().getUTC()
Timezone.sDefaultTimezone = old
ex(ok)
''')
bug("c25-empty-until", "C25", "src/zonal/zone.py", '''        if self.until:
            items = items + (self.until,)
''', '''        if self.until and self.rule != "-":
            items = items + (self.until,)
''',
    "a period without rules that ends", "its end is not written",
    V + '''
import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src", "zonal"))
from zonal.zone import Zone
''' + '''
z = Zone()
z.parse("Zone\\tA/B\\t1:00\\t-\\tX\\t1950 Jan 1\\n\\t\\t\\t2:00\\t-\\tY\\n")
ex("1950" in z.generate())
''')
bug("c25-day-form", "C25", "src/zonal/rule.py", '''            self.onDay,
            self.atTime,
            self.saveTime,
            self.letter,
        )

        return''', '''            self.onDay.replace(">=1", ">=01"),
            self.atTime.rstrip("s"),
            self.saveTime,
            self.letter,
        )

        return''',
    "a rule whose time is standard time", "the written rule is one of wall clock time",
    V + '''
import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src", "zonal"))
from zonal.rule import Rule
r = Rule()
r.parse("Rule\\tX\\t1990\\tmax\\t-\\tMar\\tlastSun\\t2:00s\\t1:00\\tS")
ex("2:00s" in r.generate())
''')
bug("c04-until-utc", "C04", "src/pycalendar/icalendar/recurrence.py", '''            jdict[xmldefinitions.recur_until] = self.mUntil.getXMLText()
''', '''            jdict[xmldefinitions.recur_until] = self.mUntil.getXMLText() if self.mInterval == 1 or not self.mByMonth else self.mUntil.getText()
''',
    "UNTIL with an interval and months", "UNTIL is in the text form in jCal",
    V + '''
from pycalendar.icalendar.property import Property
o = []
Property.parseText("RRULE:FREQ=YEARLY;UNTIL=20300101T000000Z;INTERVAL=2;BYMONTH=3").writeJSON(o)
ex(o[0][3]["until"] == "2030-01-01T00:00:00Z")
''')
bug("c05-setpos-order", "C05", "src/pycalendar/icalendar/recurrence.py", '''        self._writeXMLList(recur, self.mBySetPos''', '''        self._writeXMLList(recur, self.mBySetPos''', "", "", "")
BUGS.pop()
