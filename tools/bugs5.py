exec(open("/verif/tools/bugs3.py").read().split("\nbug(")[0])
C20 = P + '''
from pycalendar.icalendar.calendar import Calendar
from pycalendar.exceptions import ErrorBase
from pycalendar.parser import ParserContext as C
def read(f, t):
    try:
        return str(f(t))
    except ErrorBase:
        return None
'''
bug("c20-adr-setting", "C20", S + "utils.py", '''        elif ParserContext.INVALID_ADR_N_VALUES == ParserContext.PARSER_RAISE:''', '''        elif ParserContext.INVALID_ADR_N_VALUES == ParserContext.PARSER_RAISE and len(results) > maxsize + 1:''',
    "strict settings and a vCard N or ADR with exactly one component too many", "it is accepted instead of refused",
    C20 + '''
from pycalendar.vcard.property import Property as V
C.allRaise()
sys.exit(0 if read(V.parseText, "N:a;b;c;d;e;f") is None and read(V.parseText, "N:a;b;c;d;e") else 1)
''')
bug("c20-duration-week", "C20", S + "duration.py", '''                        if ParserContext.INVALID_DURATION_VALUE != ParserContext.PARSER_RAISE:''', '''                        if ParserContext.INVALID_DURATION_VALUE == ParserContext.PARSER_FIX:''',
    "durations allowed (ALLOW) rather than fixed, and data after the weeks", "the data is refused",
    C20 + '''
C.INVALID_DURATION_VALUE = C.PARSER_ALLOW
sys.exit(0 if "P2W" in (read(Property.parseText, "DURATION:P2W1D") or "") else 1)
''')
bug("c20-blank-inside", "C20", I + "calendar.py", '''                # Blank line
                elif len(line) == 0:
                    # Raise if requested, otherwise just ignore
                    if ParserContext.BLANK_LINES_IN_DATA == ParserContext.PARSER_RAISE:
                        raise''', '''                # Blank line
                elif len(line) == 0:
                    # Raise if requested, otherwise just ignore
                    if ParserContext.BLANK_LINES_IN_DATA in (ParserContext.PARSER_RAISE, ParserContext.PARSER_ALLOW):
                        raise''',
    "blank lines allowed and parseComponent reading data with a blank line inside", "the data is refused",
    C20 + '''
from cStringIO import StringIO
C.BLANK_LINES_IN_DATA = C.PARSER_ALLOW
t = StringIO("BEGIN:VCALENDAR\\r\\nVERSION:2.0\\r\\nBEGIN:VEVENT\\r\\nUID:1\\r\\n\\r\\nEND:VEVENT\\r\\nEND:VCALENDAR\\r\\n")
sys.exit(0 if read(Calendar().parseComponent, t) else 1)
''')
bug("c20-leading-space", "C20", S + "datetime.py", '''        if ' ' in data[:index] and ParserContext''', '''        if data[:index].count(' ') % 2 and ParserContext''',
    "leading spaces refused and a date with a space in its month and in its day", "it is accepted",
    C20 + '''
C.INVALID_DATETIME_LEADINGSPACE = C.PARSER_RAISE
sys.exit(0 if read(Property.parseText, "DTSTART:2020 1 5T000000Z") is None and read(Property.parseText, "DTSTART;VALUE=DATE:2020 1 5") is None else 1)
''')
