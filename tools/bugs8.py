exec(open("/verif/tools/bugs3.py").read().split("\nbug(")[0])
bug("c26-any-sibling", "C26", S + "componentbase.py", '''        for item in mine:
            for another in theirs:
                if item == another:
                    theirs.remove(another)
                    break
            else:
                return False
        return len(theirs) == 0''', '''        if len(mine) != len(theirs):
            return False
        for item in mine:
            for another in theirs:
                if item == another:
                    break
            else:
                return False
        return True''',
    "two events with the same number of alarms, where one has an alarm twice and the other has another one instead", "different components compare equal, and not even the same way both times",
    P + '''
A = "BEGIN:VALARM\\r\\nACTION:DISPLAY\\r\\nDESCRIPTION:a\\r\\nTRIGGER:-PT%dM\\r\\nEND:VALARM\\r\\n"
def ev(*ns):
    return Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nDTSTART:20200101T000000Z\\r\\n" + "".join(A % n for n in ns) + "END:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
sys.exit(0 if ev(5, 5, 9) != ev(5, 9, 9) and ev(5, 5) != ev(5, 9) and ev(5, 9) == ev(9, 5) else 1)
''')
bug("c26-duration-hash", "C26", S + "duration.py", '''        return hash(self.getTotalSeconds())
''', '''        return hash((self.mForward, self.mWeeks, self.mDays, self.mHours, self.mMinutes, self.mSeconds))
''',
    "the same duration written as P1W and P7D, or PT60M and PT1H", "equal values have different hashes, so that sets and dicts tell equal properties apart",
    P + '''
a, b = Property.parseText("DURATION:P1W"), Property.parseText("DURATION:P7D")
sys.exit(0 if a == b and hash(a) == hash(b) and len(set((a, b))) == 1 else 1)
''')
bug("c26-setpos", "C26", I + "recurrence.py", '''            self.equalsNum(self.mByMonth, comp.mByMonth) and
            self.equalsNum(self.mBySetPos, comp.mBySetPos) and
            (self.mWeekstart == comp.mWeekstart)
''', '''            self.equalsNum(self.mByMonth, comp.mByMonth) and
            (self.mWeekstart == comp.mWeekstart)
''',
    "two rules that differ in nothing but BYSETPOS", "the first and the last weekday of each month compare equal",
    P + '''
a, b = [Property.parseText("RRULE:FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=%d" % n) for n in (1, -1)]
sys.exit(0 if a != b else 1)
''')
bug("c26-daynum-subset", "C26", I + "recurrence.py", '''    def equalsDayNum(self, items1, items2):
        # Check sizes first
        if items1 is None:
            items1 = []
        if items2 is None:
            items2 = []
        if len(items1) != len(items2):
            return False
        elif len(items1) == 0:
            return True
''', '''    def equalsDayNum(self, items1, items2):
        # Anything goes if there is nothing to compare with
        if not items1:
            return True
        if not items2:
            items2 = []
        if len(items1) != len(items2):
            return False
''',
    "a rule without BYDAY compared with one that has it", "the rule without BYDAY equals the one with it, in one direction only",
    P + '''
a, b = Property.parseText("RRULE:FREQ=MONTHLY"), Property.parseText("RRULE:FREQ=MONTHLY;BYDAY=2MO")
sys.exit(0 if a != b and b != a else 1)
''')
bug("c26-value-type", "C26", S + "value.py", '''        return self.getType() == other.getType() and self.getValue() == other.getValue()''', '''        return self.getValue() == other.getValue()''',
    "values of different types with the same content, as the text and the URI x", "values of different types compare equal while their hashes differ",
    P + '''
a, b = [Property.parseText("X-A;VALUE=%s:x" % t).getValue() for t in ("TEXT", "URI")]
sys.exit(0 if a != b else 1)
''')
bug("c26-adr-tail", "C26", S + "vcard/adr.py", '''        return self.mValue == comp.mValue
''', '''        return all([mine == theirs for mine, theirs in zip(self.mValue[Adr.STREET:], comp.mValue[Adr.STREET:])]) and self.mValue[0] == comp.mValue[0]
''',
    "two addresses that differ in the extended address (the second field) only", "different addresses compare equal",
    V + '''
a, b = [Property.parseText("ADR:;%s;street;city;;12345;country" % t) for t in ("Suite 1", "Suite 2")]
sys.exit(0 if a != b else 1)
''')
