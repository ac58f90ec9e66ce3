exec(open("/verif/tools/bugs3.py").read().split("\nbug(")[0])
bug("c05-weekday-last", "C05", I + "recurrence.py", '''                byday = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_byday))
                data = ""
                if iter[0] != 0:
''', '''                byday = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_byday))
                data = ""
                if iter[0] != 0 and iter[0] != -1 or len(self.mByDay) > 1:
''',
    "a rule whose only BYDAY is a last weekday, such as -1SU, or one with several plain weekdays, written as XML", "the position of the weekday is lost or a 0 is invented in XML",
    P + '''
import pycalendar.xmlutils as xmlutils
def x(r):
    c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTART:20200101T000000Z\\r\\nRRULE:" + r + "\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
    return c.getTextXML()
from pycalendar.icalendar.calendar import Calendar
sys.exit(0 if ">-1SU<" in x("FREQ=MONTHLY;BYDAY=-1SU") and ">TU<" in x("FREQ=WEEKLY;BYDAY=MO,TU") else 1)
''')
bug("c05-parameter-order", "C05", S + "parameter.py", '''        for value in self.getValues():
            # TODO''', '''        for value in sorted(set(self.getValues())):
            # TODO''',
    "a parameter with several values, repeated or not in sorted order, written as XML", "the values are reordered and repeats dropped",
    P + '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nX-A;X-B=zz,aa,zz:b\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
t = c.getTextXML()
sys.exit(0 if t.count(">zz<") == 2 and t.index(">zz<") < t.index(">aa<") else 1)
''')
bug("c05-filter-case", "C05", S + "property.py", '''        if len(self.mParameters):
            params = XML.SubElement(prop''', '''        if len(self.mParameters) > (1 if self.mValue and self.mValue.getType() == Value.VALUETYPE_MULTIVALUE or self.sTypeValueMap.get(self.mValue.getType() if self.mValue else None) == "URI" else 0):
            params = XML.SubElement(prop''',
    "a URI property with exactly one parameter, written as XML", "the only parameter is lost",
    P + '''
from pycalendar.icalendar.calendar import Calendar
c = Calendar.parseText("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nATTACH;FMTTYPE=text/plain:http://a/b\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
sys.exit(0 if "text/plain" in c.getTextXML() else 1)
''')
C19 = P + '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.exceptions import ErrorBase
def refused(t, f=Calendar.parseText):
    try:
        f(t)
    except ErrorBase:
        return True
    return False
'''
bug("c19-negative-range", "C19", I + "recurrence.py", '''            if max is not None and avalue > max:''', '''            if max is not None and value > max:''',
    "a rule part with a negative number below its range, such as BYMONTHDAY=-32", "it is accepted",
    C19 + '''
sys.exit(0 if refused("RRULE:FREQ=MONTHLY;BYMONTHDAY=-32", Property.parseText) and refused("RRULE:FREQ=YEARLY;BYYEARDAY=1,-400", Property.parseText) else 1)
''')
bug("c19-version", "C19", S + "containerbase.py", '''        if result and not self.hasProperty("VERSION"):''', '''        if result and not self.hasProperty("VERSION") and not self.hasProperty("METHOD"):''',
    "a calendar with a METHOD and no VERSION", "it is accepted",
    C19 + '''
sys.exit(0 if refused("BEGIN:VCALENDAR\\r\\nMETHOD:REQUEST\\r\\nPRODID:x\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n") else 1)
''')
bug("c19-second-value", "C19", S + "property.py", '''                        if parameter_value2 is None:
                            raise InvalidProperty("Invalid property: empty parameter multi-value", data)
                        attrvalue''', '''                        if parameter_value2 is None:
                            txt = txt.lstrip("\\"")
                            continue
                        attrvalue''',
    "a second parameter value whose quote is never closed", "the quote is dropped and what follows is read as the value",
    C19 + '''
sys.exit(0 if refused("SUMMARY;X-A=a,\\"b:c", Property.parseText) and refused("SUMMARY;X-A=a,\\":c", Property.parseText) else 1)
''')
