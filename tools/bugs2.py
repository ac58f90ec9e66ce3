exec(open("/verif/tools/bugs1.py").read().split("\nbug(")[0])
CALH = open("/verif/tools/bugs1.py").read().split("CAL = '''")[1].split("'''")[0].replace("\\\\", "\\")
CAL = CALH
TZ = CAL + '''
NY = ["BEGIN:VTIMEZONE", "TZID:Test/NY", "BEGIN:STANDARD", "DTSTART:20071104T020000", "RRULE:FREQ=YEARLY;BYDAY=1SU;BYMONTH=11", "TZNAME:EST", "TZOFFSETFROM:-0400", "TZOFFSETTO:-0500", "END:STANDARD",
      "BEGIN:DAYLIGHT", "DTSTART:20070311T020000", "RRULE:FREQ=YEARLY;BYDAY=2SU;BYMONTH=3", "TZNAME:EDT", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400", "END:DAYLIGHT", "END:VTIMEZONE"]
from pycalendar.timezone import Timezone
def fl(s):
    return DateTime.parseText(s)
def u(s):
    return DateTime.parseText(s)
'''
bug("c11-name-at-onset", "C11", I + "vtimezone.py", "                    if dt_item > dt_found:", "                    if dt_item > dt_found and dt_item != temp:",
    "asking a zone's name exactly at the local time of a transition whose observance is not listed first", "the name of the observance before the transition is given for the very moment of the transition",
    TZ + '''
z = cal(*NY).getTimezone("Test/NY")
sys.exit(0 if z.getTimezoneDescriptor(fl("20101107T020000")) == "(EST)" and z.getTimezoneDescriptor(fl("20100314T020000")) == "(EDT)" else 1)
''')
bug("c11-unnamed-offset", "C11", I + "vtimezone.py", "                mins_offset = (tzoffset / 60) % 60", "                mins_offset = (found.getUTCOffset() / 60) % 60",
    "an observance without a TZNAME, west of Greenwich, with an offset that is not a whole number of hours", "the minutes of the unnamed observance's descriptor are the complement of the right ones",
    TZ + '''
z = cal("BEGIN:VTIMEZONE", "TZID:Test/NF", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:-0320", "TZOFFSETTO:-0320", "END:STANDARD", "END:VTIMEZONE").getTimezone("Test/NF")
sys.exit(0 if z.getTimezoneDescriptor(fl("20100314T020000")) == "-0320" else 1)
''')
bug("c12-cache-year", "C12", I + "vtimezone.py", "temp.mYear >= self.mCachedExpandAllMaxYear:", "temp.mYear > self.mCachedExpandAllMaxYear:",
    "a question two years after an earlier one, late in that year", "the transitions of the last year of the cache are missing, so the offset stays what it was at the start of the year",
    TZ + '''
z = cal(*NY).getTimezone("Test/NY")
a = z.getTimezoneOffsetSeconds(fl("20100101T000000"))
b = z.getTimezoneOffsetSeconds(fl("20120701T000000"))
sys.exit(0 if (a, b) == (-18000, -14400) else 1)
''')
bug("c12-name-cache-items", "C12", I + "vtimezoneelement.py", '''            if temp > self.mCachedExpandBelow:
                self.mCachedExpandBelowItems = []
                period = Period(self.mStart, temp)''', '''            if temp > self.mCachedExpandBelow:
                self.mCachedExpandBelowItems = []
                period = Period(self.mCachedExpandBelow, temp)''',
    "asking names of a later year and then of an earlier one", "the cache loses the onsets before the previous question, so an earlier year gets the wrong observance",
    TZ + '''
z = cal(*NY).getTimezone("Test/NY")
r = [z.getTimezoneDescriptor(fl(x)) for x in ("20080601T000000", "20150601T000000", "20081201T000000", "20160101T000000", "20100701T000000")]
sys.exit(0 if r == ["(EDT)", "(EDT)", "(EST)", "(EST)", "(EDT)"] else 1)
''')
