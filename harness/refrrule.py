# -*- coding: utf-8 -*-
"""Reference expansion of RFC 5545 recurrence rules by filtering the days of each period (no shared structure
with the code under test). Rules are dicts: freq, interval, count, until (naive, in the start's clock), wkst (0=SU),
bymonth, byweekno, byyearday, bymonthday, byday [(n, wd)], byhour, byminute, bysecond, bysetpos."""
import datetime as D
from refcal import *

DAYS = ("SU", "MO", "TU", "WE", "TH", "FR", "SA")
ONE = D.timedelta(1)


def month_days(y, m):
    return [D.date(y, m, d) for d in range(1, mdays(y, m) + 1)]


def md_match(d, lst):
    return d.day in lst or (d.day - 1 - mdays(d.year, d.month)) in lst


def yd_match(d, lst):
    n = yday(d)
    return n in lst or (n - 1 - (366 if leap(d.year) else 365)) in lst


def nth_in_month(d):
    return ((d.day - 1) // 7 + 1, -((mdays(d.year, d.month) - d.day) // 7 + 1))


def nth_in_year(d):
    n = yday(d)
    length = 366 if leap(d.year) else 365
    return ((n - 1) // 7 + 1, -((length - n) // 7 + 1))


def bd_match(d, byday, scope):
    wd = dow(d)
    for n, w in byday:
        if w == wd:
            if n == 0:
                return True
            if scope == "month" and n in nth_in_month(d):
                return True
            if scope == "year" and n in nth_in_year(d):
                return True
    return False


def times(r, s):
    hs = r.get("byhour") or [s.hour]
    ms = r.get("byminute") or [s.minute]
    ss = r.get("bysecond") or [s.second]
    return [(h, m, c) for h in sorted(set(hs)) for m in sorted(set(ms)) for c in sorted(set(ss))]


def year_set(r, s, y):
    g = r.get
    if g("byweekno"):
        nw = weeks_in(y)
        ws = set((w if w > 0 else nw + 1 + w) for w in g("byweekno"))
        days = [from_iso(y, w, k) for w in ws if 1 <= w <= nw for k in range(1, 8)]
        if g("byday"):
            wds = set(w for _n, w in g("byday"))
        else:
            wds = set([dow(s)])
        days = [d for d in days if dow(d) in wds]
    elif g("byyearday"):
        days = [d for m in range(1, 13) for d in month_days(y, m) if yd_match(d, g("byyearday"))]
        if g("byday"):
            days = [d for d in days if bd_match(d, g("byday"), "none")]
    else:
        months = sorted(set(g("bymonth") or [s.month]))
        if g("bymonthday"):
            days = [d for m in months for d in month_days(y, m) if md_match(d, g("bymonthday"))]
            if g("byday"):
                days = [d for d in days if bd_match(d, g("byday"), "month")]
        elif g("byday"):
            if g("bymonth"):
                days = [d for m in months for d in month_days(y, m) if bd_match(d, g("byday"), "month")]
            else:
                days = [d for m in range(1, 13) for d in month_days(y, m) if bd_match(d, g("byday"), "year")]
        else:
            days = [D.date(y, m, s.day) for m in months if s.day <= mdays(y, m)]
    return days


def month_set(r, s, y, m):
    g = r.get
    if g("bymonth") and m not in g("bymonth"):
        return []
    days = month_days(y, m)
    if g("bymonthday"):
        days = [d for d in days if md_match(d, g("bymonthday"))]
    if g("byday"):
        days = [d for d in days if bd_match(d, g("byday"), "month")]
    if not g("bymonthday") and not g("byday"):
        days = [d for d in days if d.day == s.day]
    return days


def day_ok(r, d):
    g = r.get
    return (not g("bymonth") or d.month in g("bymonth")) and (not g("bymonthday") or md_match(d, g("bymonthday"))) and \
        (not g("byday") or bd_match(d, g("byday"), "none")) and (not g("byyearday") or yd_match(d, g("byyearday")))


def period_sets(r, s):
    """yields (first instant of the period, list of datetimes)"""
    f, iv = r["freq"], r.get("interval", 1)
    k = 0
    if f == "YEARLY":
        while s.year + k * iv < 9990:
            y = s.year + k * iv
            yield D.datetime(y, 1, 1) - D.timedelta(7), [D.datetime(d.year, d.month, d.day, *t) for d in year_set(r, s, y) for t in times(r, s)]
            k += 1
    elif f == "MONTHLY":
        while True:
            n = s.year * 12 + s.month - 1 + k * iv
            y, m = n // 12, n % 12 + 1
            if y > 9990:
                return
            yield D.datetime(y, m, 1), [D.datetime(d.year, d.month, d.day, *t) for d in month_set(r, s, y, m) for t in times(r, s)]
            k += 1
    elif f == "WEEKLY":
        wk = r.get("wkst", 1)
        w0 = s.date() - D.timedelta((dow(s) - wk) % 7)
        while True:
            a = w0 + D.timedelta(7 * iv * k)
            wds = set(w for _n, w in r.get("byday") or [(0, dow(s))])
            days = [a + D.timedelta(j) for j in range(7)]
            days = [d for d in days if dow(d) in wds and (not r.get("bymonth") or d.month in r["bymonth"])]
            yield D.datetime(a.year, a.month, a.day), [D.datetime(d.year, d.month, d.day, *t) for d in days for t in times(r, s)]
            k += 1
    elif f == "DAILY":
        while True:
            d = s.date() + D.timedelta(iv * k)
            yield D.datetime(d.year, d.month, d.day), ([D.datetime(d.year, d.month, d.day, *t) for t in times(r, s)] if day_ok(r, d) else [])
            k += 1
    else:
        unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[f]
        while True:
            t = s + D.timedelta(seconds=unit * iv * k)
            k += 1
            ok = day_ok(r, t.date()) and (not r.get("byhour") or t.hour in r["byhour"])
            base = t
            if f == "HOURLY":
                out = [t.replace(minute=m, second=c) for m in sorted(set(r.get("byminute") or [s.minute])) for c in sorted(set(r.get("bysecond") or [s.second]))]
                base = t.replace(minute=0, second=0)
            elif f == "MINUTELY":
                ok = ok and (not r.get("byminute") or t.minute in r["byminute"])
                out = [t.replace(second=c) for c in sorted(set(r.get("bysecond") or [s.second]))]
                base = t.replace(second=0)
            else:
                ok = ok and (not r.get("byminute") or t.minute in r["byminute"]) and (not r.get("bysecond") or t.second in r["bysecond"])
                out = [t]
            yield base, (out if ok else [])


def expand(r, s, end):
    """Every occurrence of rule r with DTSTART s strictly before end; DTSTART is always the first."""
    out = [s]
    n = 1
    if r.get("count") and n >= r["count"]:
        return [x for x in out if x < end]
    for first, st in period_sets(r, s):
        if first >= end:
            break
        if r.get("until") is not None and first > r["until"]:
            break
        st = sorted(set(st))
        if r.get("bysetpos"):
            pick = set()
            for p in r["bysetpos"]:
                if 0 < p <= len(st):
                    pick.add(st[p - 1])
                elif p < 0 and -p <= len(st):
                    pick.add(st[p])
            st = sorted(pick)
        for t in st:
            if t <= s:
                continue
            if r.get("until") is not None and t > r["until"]:
                return [x for x in out if x < end]
            out.append(t)
            n += 1
            if r.get("count") and n >= r["count"]:
                return [x for x in out if x < end]
    return [x for x in out if x < end]


def first_match(r, s, limit=4000):
    """first real member of the rule at or after s, or None"""
    k = 0
    for first, st in period_sets(r, s):
        k += 1
        st = sorted(set(st))
        if r.get("bysetpos"):
            st = sorted(set([st[p - 1] for p in r["bysetpos"] if 0 < p <= len(st)] + [st[p] for p in r["bysetpos"] if p < 0 and -p <= len(st)]))
        for t in st:
            if t >= s:
                return t
        if k > limit or first > s + D.timedelta(366 * 9):
            return None


def to_text(r, until_text=None, rng=None):
    parts = ["FREQ=%s" % r["freq"]]
    if r.get("interval", 1) != 1:
        parts.append("INTERVAL=%d" % r["interval"])
    if r.get("count"):
        parts.append("COUNT=%d" % r["count"])
    if until_text:
        parts.append("UNTIL=%s" % until_text)
    for k in ("bysecond", "byminute", "byhour", "bymonthday", "byyearday", "byweekno", "bymonth", "bysetpos"):
        if r.get(k):
            parts.append("%s=%s" % (k.upper(), ",".join(str(x) for x in r[k])))
    if r.get("byday"):
        parts.append("BYDAY=%s" % ",".join("%s%s" % (n if n else "", DAYS[w]) for n, w in r["byday"]))
    if r.get("wkst", 1) != 1 or (rng and rng.random() < 0.2):
        parts.append("WKST=%s" % DAYS[r.get("wkst", 1)])
    if rng is not None:
        rest = parts[1:]
        rng.shuffle(rest)
        parts = parts[:1] + rest
    return ";".join(parts)


def some(rng, pool, lo=1, hi=3):
    k = rng.randint(lo, hi)
    pool = list(pool)
    rng.shuffle(pool)
    return pool[:k]


def gen_rule(rng, freqs=None, dateonly=False):
    freqs = freqs or ["YEARLY"] * 4 + ["MONTHLY"] * 4 + ["WEEKLY"] * 3 + ["DAILY"] * 2 + ([] if dateonly else ["HOURLY", "MINUTELY", "SECONDLY"])
    f = rng.choice(freqs)
    r = {"freq": f, "interval": rng.choice([1, 1, 1, 2, 3, 4, rng.randint(1, 12), rng.choice([13, 14, 18, 24, 25, 30, 45, 53, 61])] if f != "YEARLY" else [1, 1, 1, 2, 3, 4, rng.randint(1, 12)])}
    md = lambda: some(rng, [1, 2, 13, 15, 28, 29, 30, 31, -1, -2, -28, -29, -30, -31, rng.randint(1, 31), -rng.randint(1, 31)])
    plain = lambda: [(0, w) for w in some(rng, range(7), 1, rng.choice([1, 2, 3, 7]))]
    nthm = lambda: list(set((rng.choice([1, 2, 3, 4, 5, -1, -2, -3, -4, -5]), rng.randint(0, 6)) for _ in range(rng.randint(1, 3))))
    if f == "YEARLY":
        k = rng.choice(["none", "month", "month-md", "month-md-day", "month-day", "month-nth", "nth", "day", "weekno", "yearday", "yearday-day"])
        if k.startswith("month"):
            r["bymonth"] = some(rng, range(1, 13), 1, 4)
        if "-md" in k:
            r["bymonthday"] = md()
        if k in ("month-md-day", "month-day", "day", "yearday-day"):
            r["byday"] = plain()
        if k == "month-nth":
            r["byday"] = nthm()
        if k == "nth":
            r["byday"] = list(set((rng.choice([1, -1, 2, 20, 51, 52, 53, -51, -52, -53, rng.randint(1, 53), -rng.randint(1, 53)]), rng.randint(0, 6)) for _ in range(rng.randint(1, 3))))
        if k == "weekno":
            r["byweekno"] = some(rng, [1, 2, 10, 20, 26, 51, 52, 53, -1, -2, -52, -53, rng.randint(1, 53)])
            r["byday"] = plain()
            r["interval"] = 1
        if k.startswith("yearday"):
            r["byyearday"] = some(rng, [1, 31, 32, 59, 60, 61, 100, 200, 365, 366, -1, -2, -100, -365, -366, rng.randint(1, 366), -rng.randint(1, 366)])
    elif f == "MONTHLY":
        k = rng.choice(["none", "md", "day", "nth", "md-day", "md-nth"])
        if rng.random() < 0.3:
            r["bymonth"] = some(rng, range(1, 13), 1, 6)
        if "md" in k:
            r["bymonthday"] = md()
        if "day" in k:
            r["byday"] = plain()
        if "nth" in k:
            r["byday"] = nthm()
    elif f == "WEEKLY":
        if rng.random() < 0.8:
            r["byday"] = plain()
        r["wkst"] = rng.choice([1, 1, 0, 3, 6])
        if rng.random() < 0.25:
            r["bymonth"] = some(rng, range(1, 13), 1, 6)
    else:
        if rng.random() < 0.3:
            r["bymonth"] = some(rng, range(1, 13), 2, 8)
        if rng.random() < 0.25:
            r["bymonthday"] = some(rng, list(range(1, 32)) + list(range(-31, 0)), 3, 20)
        if rng.random() < 0.3:
            r["byday"] = plain()
    if not dateonly:
        if rng.random() < 0.25:
            r["byhour"] = some(rng, range(0, 24), 1, 4) if f != "HOURLY" else some(rng, range(24), 4, 12)
        if rng.random() < 0.2:
            r["byminute"] = some(rng, range(0, 60), 1, 3) if f not in ("MINUTELY", "SECONDLY") else some(rng, range(60), 10, 40)
        if rng.random() < 0.12:
            r["bysecond"] = some(rng, range(0, 60), 1, 3) if f != "SECONDLY" else some(rng, range(60), 10, 40)
    by = [k for k in r if k.startswith("by")]
    if by and rng.random() < 0.25:
        r["bysetpos"] = some(rng, [1, 2, 3, 4, -1, -2, -3, rng.randint(1, 30)], 1, 2)
    return r
