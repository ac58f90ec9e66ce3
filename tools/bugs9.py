exec(open("/verif/tools/bugs3.py").read().split("\nbug(")[0])
T = P + '''
import os, tempfile, shutil
from pycalendar.timezonedb import TimezoneDatabase as DB
from pycalendar.datetime import DateTime
def tz(name, off):
    return "BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VTIMEZONE\\r\\nTZID:%s\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19000101T000000\\r\\nTZOFFSETFROM:%s\\r\\nTZOFFSETTO:%s\\r\\nTZNAME:X\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\nEND:VCALENDAR\\r\\n" % (name, off, off)
root = tempfile.mkdtemp()
def done(ok):
    shutil.rmtree(root)
    sys.exit(0 if ok else 1)
def put(d, name, off):
    p = os.path.join(root, d, name + ".ics")
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, "w") as f:
        f.write(tz(name, off))
'''
bug("c21-merge-wins", "C21", S + "timezonedb.py", '''        if self._getTimezone(tz.getID()) is None:
            self.addTimezone(tz)
''', '''        if tz.getID() not in self.stdtzcache:
            self.addTimezone(tz)
''',
    "a calendar with a VTIMEZONE of a standard name is read before the name was ever asked for, or a second calendar has another VTIMEZONE of a name already known", "data from a calendar replaces what the database has, for all other calendars too",
    T + '''
put("db", "A/B", "+0100")
DB.createTimezoneDatabase(os.path.join(root, "db"))
Calendar.parseText(tz("A/B", "-0900"))
done(DB.getTimezoneOffsetSeconds("A/B", DateTime(2020, 1, 1, 0, 0, 0)) == 3600 and DB.isStandardTimezone("A/B"))
''')
bug("c21-shared-merge", "C21", S + "timezonedb.py", '''        copy = tz.duplicate(self.calendar)
        self.calendar.addComponent(copy)
        self.tzcache[copy.getID()] = copy
''', '''        self.calendar.addComponent(tz)
        self.tzcache[tz.getID()] = tz
''',
    "a calendar that brought a timezone is edited after it was read", "the edit changes the timezone of all other calendars",
    T + '''
cal = Calendar.parseText(tz("A/B", "-0900"))
cal.getTimezone("A/B").removeAllComponent()
done(DB.getTimezoneOffsetSeconds("A/B", DateTime(2020, 1, 1, 0, 0, 0)) == -32400)
''')
bug("c21-lent", "C21", S + "timezonedb.py", '''            cal.addComponent(tz.duplicate(cal))
''', '''            cal.addComponent(tz)
''',
    "the calendar of getTimezoneInCalendar is edited", "the edit changes the database",
    T + '''
put("db", "A/B", "+0100")
DB.createTimezoneDatabase(os.path.join(root, "db"))
DB.getTimezoneInCalendar("A/B").getTimezone("A/B").removeAllComponent()
done(DB.getTimezoneOffsetSeconds("A/B", DateTime(2020, 1, 1, 0, 0, 0)) == 3600)
''')
