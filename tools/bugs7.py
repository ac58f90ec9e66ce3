exec(open("/verif/tools/bugs3.py").read().split("\nbug(")[0])
C31 = P + '''
import threading, os
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.calendar import Calendar
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def within(f, seconds=40):
    res = []
    t = threading.Thread(target=lambda: res.append(f()))
    t.setDaemon(True)
    t.start()
    t.join(seconds)
    os._exit(0 if res and res[0] else 1)
'''
bug("c31-interval-zero", "C31", I + "recurrence.py", '''                if self.mInterval < 1:''', '''                if self.mInterval < 0:''',
    "INTERVAL=0", "the rule is accepted and its expansion never ends",
    C31 + '''
def f():
    try:
        r = Recurrence()
        r.parse("FREQ=WEEKLY;INTERVAL=0")
    except ValueError:
        return True
    items = []
    r.expand(DateTime(2020, 1, 1), Period(DateTime(2020, 1, 1), DateTime(2020, 2, 1)), items)
    return True
within(f)
''')
bug("c31-not-normalised", "C31", I + "recurrence.py", '''        start.normalise()
''', '''        if self.hasBy() or not start.isDateOnly():
            start.normalise()
''',
    "a YEARLY rule without BYxxx parts from a start given as 30 February", "the expansion never ends",
    C31 + '''
def f():
    r = Recurrence()
    r.parse("FREQ=YEARLY")
    items = []
    r.expand(DateTime(2023, 2, 30), Period(DateTime(2023, 1, 1), DateTime(2026, 1, 1)), items)
    return len(items) == 3
within(f)
''')
bug("c31-skip-empty", "C31", I + "recurrence.py", '''            # Process each one in the generated set
            for iter in set_items:
''', '''            # Nothing to process in this period so go on to the next one
            if len(set_items) == 0:
                start_iter.recur(self.mFreq, self.mInterval, allow_invalid=True)
                continue

            # Process each one in turn
            for iter in set_items:
''',
    "a rule that never matches, as FREQ=MONTHLY;BYMONTH=2;BYMONTHDAY=30", "the expansion never ends",
    C31 + '''
def f():
    r = Recurrence()
    r.parse("FREQ=MONTHLY;BYMONTH=2;BYMONTHDAY=30")
    items = []
    r.expand(DateTime(2023, 2, 3), Period(DateTime(2023, 1, 1), DateTime(2026, 1, 1)), items)
    return len(items) == 0
within(f)
''')
bug("c13-month-carry", "C13", S + "datetime.py", '''            normalised_month = ((self.mMonth - 1) % 12) + 1
            adjustment_year = (self.mMonth - 1) / 12
            if (normalised_month - 1) < 0:
                normalised_month += 12
                adjustment_year -= 1
            self.mMonth = normalised_month
            self.mYear += adjustment_year

            if not''', '''            normalised_month = ((self.mMonth - 1) % 12) + 1
            if normalised_month < self.mMonth:
                self.mYear += max(1, interval / 12)
            self.mMonth = normalised_month

            if not''',
    "a MONTHLY rule whose INTERVAL is above 12 and not a multiple of it", "some instances are a year early",
    C31 + '''
def f():
    r = Recurrence()
    r.parse("FREQ=MONTHLY;INTERVAL=18")
    items = []
    r.expand(DateTime(2020, 1, 5), Period(DateTime(2020, 1, 1), DateTime(2026, 1, 1)), items)
    return [x.getText() for x in items] == ["20200105", "20210705", "20230105", "20240705"]
within(f)
''')
bug("c31-two-unsorted", "C31", I + "recurrenceset.py", '''        include = [x for x in set(include)]
        include.sort(key=lambda x: x.getPosixTime())
''', '''        include = [x for x in set(include)]
        if len(include) > 2:
            include.sort(key=lambda x: x.getPosixTime())
''',
    "a window with exactly two instances", "they can come in the wrong order",
    C31 + '''
def f():
    for d in range(1, 25):
        c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTART:202001%02dT100000Z\\r\\nRRULE:FREQ=DAILY;COUNT=2\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n" % d).getComponents("VEVENT")[0]
        items = []
        c.getRecurrenceSet().expand(c.getStart(), Period(DateTime(2020, 1, 1), DateTime(2020, 3, 1)), items)
        if not (len(items) == 2 and items[0] < items[1]):
            return False
    return True
within(f)
''')
