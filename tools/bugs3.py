exec(open("/verif/tools/bugs1.py").read().split("\nbug(")[0])
CAL = open("/verif/tools/bugs1.py").read().split("CAL = '''")[1].split("'''")[0].replace("\\\\", "\\")
P = CAL + '''
from pycalendar.icalendar.property import Property
import json
'''
V = '''
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property
import json
'''
bug("c01-repeated-parameter", "C01", S + "property.py", "self.mParameters.setdefault(parameter_name.upper(), []).append(attrvalue)", "self.mParameters[parameter_name.upper()] = [attrvalue]",
    "a property with the same parameter given twice", "all but the last of the repeated parameters are lost on reading",
    P + '''
sys.exit(0 if str(Property.parseText("ATTENDEE;MEMBER=a;MEMBER=b;CN=x:mailto:a@b.c")).count("MEMBER=") == 2 else 1)
''')
bug("c01-wkst-yearly", "C01", I + "recurrence.py", '''            if self.mWeekstart != definitions.eRecurrence_WEEKDAY_MO:
                os.write(";")''', '''            if self.mWeekstart != definitions.eRecurrence_WEEKDAY_MO and (self.mFreq == definitions.eRecurrence_WEEKLY or self.mByDay):
                os.write(";")''',
    "a yearly rule with BYWEEKNO or nothing but a WKST and no BYDAY", "WKST disappears when the rule is written, which changes the weeks of BYWEEKNO",
    P + '''
sys.exit(0 if "WKST=SU" in str(Property.parseText("RRULE:FREQ=YEARLY;BYWEEKNO=20;WKST=SU")) else 1)
''')
bug("c02-step-back", "C02", S + "property.py", """                    while (temp[offset] > 0x7F) and ((ord(temp[offset]) & 0xC0) == 0x80):""", """                    while (temp[offset] > 0x7F) and ((ord(temp[offset]) & 0xC0) == 0x80) and offset > start + lineWrap - 2:""",
    "a character of four octets (outside the basic plane) with its last octet at the fold", "the fold falls inside the character",
    P + '''
for n in range(60, 75):
    for l in str(Property.parseText("COMMENT:" + "a" * n + u"\\U0001F600".encode("utf-8") * 3)).split("\\r\\n"):
        l.decode("utf-8")
''')
bug("c02-fold-before-space", "C02", S + "utils.py", "            lines[0] = lines[0] + lines[1][1:]", "            lines[0] = lines[0] + (lines[1][1:] if lines[1][0] == \" \" else lines[1].lstrip(\"\\t\"))",
    "a line folded with a tab, directly before a tab of the value", "the tabs of the value after the fold are lost",
    P + '''
import cStringIO
from pycalendar.utils import readFoldedLine
l = [None, None]
readFoldedLine(cStringIO.StringIO("COMMENT:a\\r\\n\\t\\tb\\r\\nX:y\\r\\n"), l)
sys.exit(0 if l[0] == "COMMENT:a\\tb" else 1)
''')
bug("c03-blank-lines", "C03", S + "utils.py", "                    if last != '\\r':\n", "                    if last not in ('\\r', '\\n'):\n",
    "a parameter value with two line breaks in a row", "blank lines inside the value are dropped",
    P + '''
from pycalendar.parameter import Parameter
p = Property("COMMENT", "x")
p.addParameter(Parameter("X-A", "a\\n\\nb"))
q = Property.parseText(str(p).strip())
sys.exit(0 if q.getParameterValue("X-A") == "a\\n\\nb" else 1)
''')
bug("c03-second-comma", "C03", S + "utils.py", '''                start_pos = end_pos + 1

                end_pos = find_first_of(value, "\\r\\n;\\\\,", start_pos)''', '''                start_pos = end_pos + 1

                end_pos = find_first_of(value, "\\r\\n;\\\\", start_pos)''',
    "a list member holding a comma after another escaped character", "the comma is written bare and splits the member in two",
    V + '''
p = Property(None, "CATEGORIES", ["a;b,c", "d"])
q = Property.parseText(str(p).strip())
sys.exit(0 if [v.getValue() for v in q.getMultiValue().getValues()] == ["a;b,c", "d"] else 1)
''')
bug("c04-hour-zero", "C04", I + "recurrence.py", '''        if self.mByHours:
            jdict''', '''        if any(self.mByHours or ()):
            jdict''',
    "a rule with BYHOUR=0 and no other hour", "the hour part is missing in JSON",
    P + '''
o = []
Property.parseText("RRULE:FREQ=DAILY;BYHOUR=0").writeJSON(o)
sys.exit(0 if "byhour" in o[0][3] else 1)
''')
bug("c04-until-date", "C04", I + "recurrence.py", "            jdict[xmldefinitions.recur_until] = self.mUntil.getXMLText()", "            jdict[xmldefinitions.recur_until] = self.mUntil.getXMLText()[:10] if self.mByDay and not self.mByHours and self.mFreq >= definitions.eRecurrence_YEARLY else self.mUntil.getXMLText()",
    "a yearly rule with BYDAY and an UNTIL with a time", "UNTIL is cut to a date in JSON",
    P + '''
o = []
Property.parseText("RRULE:FREQ=YEARLY;UNTIL=20200102T030405Z;BYDAY=1SU;BYMONTH=3").writeJSON(o)
sys.exit(0 if o[0][3]["until"] == "2020-01-02T03:04:05Z" else 1)
''')
bug("c04-status-data", "C04", I + "requeststatusvalue.py", '''        if len(self.mValue) == 3:
            value.append''', '''        if len(self.mValue) == 3 and not self.mValue[0].startswith("2"):
            value.append''',
    "a success status carrying exception data", "the third part is dropped in JSON",
    P + '''
o = []
Property.parseText("REQUEST-STATUS:2.8;Success;RRULE:FREQ=DAILY").writeJSON(o)
sys.exit(0 if len(o[0][3]) == 3 else 1)
''')
bug("c06-later-list-members", "C06", S + "utils.py", '''                    for bit in item[1:]:
                        os.write(",")
                        writeTextValue(os, bit)''', '''                    for bit in item[1:]:
                        if bit:
                            os.write(",")
                            writeTextValue(os, bit)''',
    "a name or address component with an empty value among several", "the empty value disappears when written",
    V + '''
q = Property.parseText("N:Public,,Quinlan;John;;;")
sys.exit(0 if str(q).strip() == "N:Public,,Quinlan;John;;;" else 1)
''')
bug("c06-negative-zone-seconds", "C06", S + "datetime.py", '''                minutes = divmod(abs(self.mTZID) / 60, 60)[1]
                return "%04d%02d%02dT%02d%02d%02d%s%02d%02d"''', '''                minutes = divmod(self.mTZID / 60, 60)[1]
                return "%04d%02d%02dT%02d%02d%02d%s%02d%02d"''',
    "a REV with a negative offset that is not whole hours", "the minutes of the offset are complemented",
    V + '''
q = Property.parseText("REV:20100102T030405-0320")
sys.exit(0 if str(q).strip() == "REV:20100102T030405-0320" else 1)
''')
bug("c07-offset-minutes", "C07", S + "datetime.py", '''                minutes = divmod(abs(self.mTZID) / 60, 60)[1]
                return "%04d-%02d-%02dT%02d:%02d:%02d%s%02d:%02d"''', '''                minutes = divmod(self.mTZID / 60, 60)[1]
                return "%04d-%02d-%02dT%02d:%02d:%02d%s%02d:%02d"''',
    "a REV with a negative offset that is not whole hours", "the minutes of the offset are complemented in JSON",
    V + '''
o = []
Property.parseText("REV:20100102T030405-0320").writeJSON(o)
sys.exit(0 if o[0][3] == "2010-01-02T03:04:05-03:20" else 1)
''')
bug("c07-multi-type", "C07", S + "property.py", '''        # Write all parameters
        for key in sorted(self.mParameters.keys()):
            for attr in self.mParameters[key]:
                if attr.getName().lower() != "value":
                    attr.writeJSON(prop[1])''', '''        # Write all parameters
        for key in sorted(self.mParameters.keys()):
            attr = self.mParameters[key][-1]
            if attr.getName().lower() != "value":
                attr.writeJSON(prop[1])''',
    "a property with the same parameter given more than once (TYPE=HOME;TYPE=VOICE)", "only the last is in the JSON",
    V + '''
o = []
Property.parseText("TEL;TYPE=HOME;TYPE=VOICE:123").writeJSON(o)
sys.exit(0 if o[0][1].get("type") == ["HOME", "VOICE"] else 1)
''')
