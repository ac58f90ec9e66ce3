exec(open("/verif/tools/bugs10.py").read().split("\nbug(")[0])
Z = "src/zonal/"
ZP = '''
import tempfile, shutil, os
from zonal.tzconvert import tzconvert
from zonal import tzconvert as M
def conv(text):
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, "f"), "w") as f:
            f.write(text)
        c = tzconvert()
        c.parse(os.path.join(d, "f"))
    finally:
        shutil.rmtree(d)
    return c
def listed(text, name, lo, hi):
    return [(str(a), b, c) for a, b, c in conv(text).expandZone(name, lo, hi)]
def ex(ok):
    sys.exit(0 if ok else 1)
'''
bug("c25-old-standard", "C25", Z + "zone.py", '''                last_offset = to_offset
                last_stdoffset = self.getUTCOffset()
                last_tzrule''', '''                last_offset = to_offset
                last_tzrule''',
    "a zone that changes its standard offset while its rules are in standard time ('s')", "the first changes after it are off by the difference",
    ZP + '''
t = """Rule\\tA\\t1980\\tmax\\t-\\tMar\\tlastSun\\t2:00s\\t1:00\\tD
Rule\\tA\\t1980\\tmax\\t-\\tOct\\tlastSun\\t2:00s\\t0\\tS
Zone\\tX/Y\\t1:00:10\\t-\\tLMT\\t1900
\\t\\t\\t1:00\\tA\\tX%sT\\t1990
\\t\\t\\t3:00\\tA\\tX%sT
"""
ex("1990-03-25 02:00:00" in repr(listed(t, "X/Y", 1800, 1995)) or ("19900325T020000", 10800, 14400) in listed(t, "X/Y", 1800, 1995))
''')
bug("c25-negative-zero", "C25", Z + "zone.py", '''            negative = splits[0][0] == "-"
            self._cached''', '''            negative = int(splits[0]) < 0
            self._cached''',
    "a zone line with an offset between zero and one hour west", "the offset is taken for one to the east",
    ZP + '''
t = "Zone\\tX/Y\\t-0:43:08\\t-\\tLMT\\t1882\\n\\t\\t\\t-0:44:30\\t-\\tMMT\\t1972 Jan 7\\n\\t\\t\\t0:00\\t-\\tGMT\\n"
ex([x[2] for x in listed(t, "X/Y", 1800, 1995)] == [-2670, 0])
''')
bug("c25-six-days", "C25", Z + "rule.py", '''                    bymday = [offset + i for i in range(7) if (offset + i) <= days_in_month]
''', '''                    bymday = [offset + i for i in range(6) if (offset + i) <= days_in_month]
''',
    "a rule such as Sun>=9, in a year in which the day is the 15th", "that year's change is missing from the VTIMEZONE",
    ZP + '''
t = """Rule\\tA\\t1980\\tmax\\t-\\tMar\\tSun>=9\\t2:00\\t1:00\\tD
Rule\\tA\\t1980\\tmax\\t-\\tOct\\tSun>=9\\t2:00\\t0\\tS
Zone\\tX/Y\\t1:00:10\\t-\\tLMT\\t1900
\\t\\t\\t1:00\\tA\\tX%sT
"""
ex("BYMONTHDAY=9,10,11,12,13,14,15" in conv(t).vtimezones(1800, 1995).replace("\\r\\n ", ""))
''')
bug("c25-merge-from", "C25", Z + "zone.py", '''                item.getUTCOffset(),
                item.getUTCOffsetFrom(),
            )''', '''                item.getUTCOffset(),
            )''',
    "two single changes to one offset and name from different offsets", "one of the two is merged into the other and happens at the wrong time",
    ZP + '''
t = "Zone\\tX/Y\\t1:00:10\\t-\\tLMT\\t1900\\n\\t\\t\\t1:00\\t-\\tXST\\t1920 Mar 2\\n\\t\\t\\t2:00\\t-\\tYST\\t1930 Mar 2\\n\\t\\t\\t1:30\\t-\\tZST\\t1940 Mar 2\\n\\t\\t\\t2:00\\t-\\tYST\\n"
v = conv(t).vtimezones(1800, 1995)
ex(v.count("TZNAME:YST") == 2)
''')
bug("c25-u-until", "C25", Z + "zone.py", '''            lastUntilDateUTC = lastUntilDate.getUTC(last_offset, last_stdoffset)
''', '''            lastUntilDateUTC = lastUntilDate.getUTC(last_offset, last_offset)
''',
    "a zone line that ends at a standard time while daylight saving is in force", "the next one starts an hour early",
    ZP + '''
t = "Zone\\tX/Y\\t1:00:10\\t-\\tLMT\\t1900\\n\\t\\t\\t1:00\\t1:00\\tXDT\\t1920 Mar 2 2:00s\\n\\t\\t\\t3:00\\t-\\tYST\\n"
ex(("19200302T030000", 7200, 10800) in listed(t, "X/Y", 1800, 1995))
''')
bug("c25-until-instant", "C25", Z + "rule.py", '''                until.offsetSeconds(-offsetfrom)
''', '''                until.offsetSeconds(-max(offsetfrom, offsetto))
''',
    "rules of daylight saving that end in some year", "the UNTIL lies before the last change, which is lost",
    ZP + '''
t = """Rule\\tA\\t1980\\t1990\\t-\\tMar\\tlastSun\\t2:00\\t1:00\\tD
Rule\\tA\\t1980\\t1990\\t-\\tOct\\tlastSun\\t2:00\\t0\\tS
Zone\\tX/Y\\t1:00:10\\t-\\tLMT\\t1900
\\t\\t\\t1:00\\tA\\tX%sT
"""
ex("UNTIL=19900325T010000Z" in conv(t).vtimezones(1800, 1995))
''')
FP = ZP + '''
class Quiet(object):
    def write(self, s):
        pass
def run(text, lo=1800, hi=2018, before=(), xml=None, **kw):
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, "f"), "w") as f:
            f.write(text)
        out = os.path.join(d, "out")
        for b in before:
            p = os.path.join(out, b)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, "w") as f:
                f.write("old")
        c = tzconvert()
        was, sys.stdout = sys.stdout, Quiet()
        try:
            c.parse(os.path.join(d, "f"))
            c.generateZoneinfoFiles(out, lo, hi, **kw)
        finally:
            sys.stdout = was
        res = {}
        for root, _d, fs in os.walk(out):
            for n in fs:
                with open(os.path.join(root, n)) as f:
                    res[os.path.relpath(os.path.join(root, n), out)] = f.read()
        return res
    finally:
        shutil.rmtree(d)
t = "Zone\\tX/Y\\t1:00\\t-\\tXST\\n"
'''
bug("c27-top-down", "C27", Z + "tzconvert.py", "os.walk(outputdir, topdown=False)", "os.walk(outputdir)",
    "a directory that holds older files in sub-directories of sub-directories or after one another", "files of an older run stay",
    FP + '''
ex(sorted(run(t, before=("A/B/C/old.ics", "D/old.ics", "E/F/old.ics"))) == ["X/Y.ics", "links.txt"])
''')
bug("c27-alias-wins", "C27", Z + "tzconvert.py", '''                    if elem.get("other") not in self.links:
''', '''                    if self.links.get(elem.get("other")) != elem.get("type"):
''',
    "a Windows alias with the name of a link to another zone", "the alias takes the place of the link",
    FP + '''
class E(object):
    def __init__(self, **k):
        self.k = k
    def get(self, n, d=None):
        return self.k.get(n, d)
class T(object):
    def __init__(self, file):
        pass
    def getroot(self):
        return self
    def findall(self, p):
        return [E(other="L", territory="001", type="X/Z")]
M.XML.ElementTree = T
if not hasattr(M.XML, "ElementTree"):
    ex(True)
r = run(t + "Zone\\tX/Z\\t2:00\\t-\\tXST\\nLink\\tX/Y\\tL\\n", windowsAliases="/dev/null")
ex(r["links.txt"] == "L\\tX/Y")
''')
bug("c27-filter-part", "C27", Z + "tzconvert.py", '''            if filterzones and tzzone.name not in filterzones:
                continue
            cal = Calendar()
            vtz''', '''            if filterzones and tzzone.name not in "|".join(filterzones):
                continue
            cal = Calendar()
            vtz''',
    "a filter with a zone whose name contains that of another", "the other is written too",
    FP + '''
ex(sorted(run(t + "Zone\\tX/Y_West\\t2:00\\t-\\tXST\\n", filterzones=["X/Y_West"])) == ["X/Y_West.ics", "links.txt"])
''')
bug("c27-link-order", "C27", Z + "tzconvert.py", 'sorted(self.links.iteritems(), key=lambda x: x[0])', 'sorted(self.links.iteritems(), key=lambda x: x[0].lower())',
    "links whose names differ in the case of letters, one to the other", "the links are listed in another order, and one to a link may be missing",
    FP + '''
ex(run(t + "Link\\tX/Y\\ta\\nLink\\tX/Y\\tB\\n")["links.txt"] == "B\\tX/Y\\na\\tX/Y")
''')
