exec(open("/verif/tools/bugs17.py").read().split('bug("c36-noon"')[0])
S = "src/pycalendar/"
bug("c03-second-caret", "C03", S + "vcard/property.py", "                        attrvalue.addValue(decodeParameterValue(parameter_value2))\n", "                        attrvalue.addValue(parameter_value2)\n",
    "a second value of a parameter of a card that has a quote, a line end or a caret", "it is read with its encoding",
    DT + '''
from pycalendar.vcard.property import Property
p = Property.parseText("X-A;X-P=a,b^^c:v")
ex(p.getParameters()["X-P"][0].getValues() == ["a", "b^c"])
''')
bug("c17-geo-copy", "C17", S + "geovalue.py", "        return GeoValue(self.mValue[:])\n", "        return GeoValue(self.mValue)\n",
    "a position that is changed in a copy", "the original changes",
    DT + '''
c = cal(event("DTSTART:20200110T120000Z", "GEO:1.5;2.5"))
d = c.duplicate()
d.getComponents("VEVENT")[0].getProperties("GEO")[0].getValue().getValue()[0] = 9.0
ex("GEO:1.5;2.5" in str(c))
''')
bug("c10-week-leftover", "C10", S + "duration.py", '''            self.mWeeks = remainder / (7 * 24 * 60 * 60)
            self.mDays = 0
''', '''            self.mWeeks = remainder / (7 * 24 * 60 * 60)
''',
    "a duration of some days that is set to whole weeks", "the days are added to the weeks",
    DT + '''
d = Duration(days=3)
d.setDuration(14 * 86400)
ex(d.getTotalSeconds() == 14 * 86400)
''')
