From 56d1ea9c4afe3c0f35ad99b882cef471e77a68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 001/123] fix: count leap days by the Gregorian rule so that
 days, weekdays and epoch times are right after 2100 and before 1901

---
 src/pycalendar/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..0bce6a5 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -394,6 +394,15 @@ def isLeapYear(year):
         cachedLeapYears[year] = result
         return result
 
+
+def _leapDaysBefore(year):
+    prior = year - 1
+    if prior <= 1752:
+        return prior // 4
+    else:
+        # 13 is the number of century years up to 1752 that were Julian leap years only
+        return prior // 4 - prior // 100 + prior // 400 + 13
+
 cachedLeapDaysSince1970 = {}
 
 
@@ -402,14 +411,9 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
-        else:
-            result = 0
+        # Count of leap days before each year (using the same rule as isLeapYear:
+        # Julian up to and including 1752, Gregorian afterwards)
+        result = _leapDaysBefore(1970 + year_offset) - _leapDaysBefore(1970)
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From 55bb2395abfeb30d5eaff591ea2fa03fd93db222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 002/123] fix: set the ISO week of a Sunday, and of any day in
 a year that starts on a Sunday, to the week asked for

---
 src/pycalendar/datetime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..411575f 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -381,6 +381,12 @@ class DateTime(ValueMixin):
         first_day = temp.getDayOfWeek()
         current_day = self.getDayOfWeek()
 
+        # ISO weeks run from Monday (1) to Sunday (7)
+        if first_day == DateTime.SUNDAY:
+            first_day = 7
+        if current_day == DateTime.SUNDAY:
+            current_day = 7
+
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
         # on MO, TU, WE, TH.
-- 
2.43.0


From 9c34d56bb8736a0d3dd66541bbda321a7a9547dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 003/123] fix: monthly step from a day the next month lacks
 goes to the next month that has it, as documented

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 411575f..7d21561 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -731,10 +731,11 @@ class DateTime(ValueMixin):
             self.mYear += adjustment_year
 
             if not allow_invalid:
-                self.normalise()
                 while self.mDay > utils.daysInMonth(self.mMonth, self.mYear):
                     self.mMonth += interval
-                    self.normalise()
+                    self.mYear += (self.mMonth - 1) / 12
+                    self.mMonth = ((self.mMonth - 1) % 12) + 1
+                self.normalise()
             normalize = False
         elif freq == definitions.eRecurrence_YEARLY:
             self.mYear += interval
-- 
2.43.0


From ee3b240c904311e3b7f4d1c680741245a722e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 004/123] fix: give durations and periods all six comparison
 operators, and compare periods with > by their bounds

---
 src/pycalendar/duration.py |  9 +++++++++
 src/pycalendar/period.py   | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..1ce23b3 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -54,6 +54,15 @@ class Duration(ValueMixin):
     def __eq__(self, comp):
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
+    def __ne__(self, comp):
+        return self.getTotalSeconds() != comp.getTotalSeconds()
+
+    def __ge__(self, comp):
+        return self.getTotalSeconds() >= comp.getTotalSeconds()
+
+    def __le__(self, comp):
+        return self.getTotalSeconds() <= comp.getTotalSeconds()
+
     def __gt__(self, comp):
         return self.getTotalSeconds() > comp.getTotalSeconds()
 
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..6fc61a1 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -59,8 +59,18 @@ class Period(ValueMixin):
     def __eq__(self, comp):
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def __ge__(self, comp):
+        return not self.__lt__(comp)
+
+    def __le__(self, comp):
+        return not self.__gt__(comp)
+
     def __gt__(self, comp):
-        return self.mStart > comp
+        return self.mStart > comp.mStart  \
+            or (self.mStart == comp.mStart) and self.getEnd() > comp.getEnd()
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
-- 
2.43.0


From dc702a5d9a4309955b343edb6b97d6de56cd395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 005/123] fix: make != the opposite of == for vCard N and ADR
 values

---
 src/pycalendar/vcard/adr.py | 3 +++
 src/pycalendar/vcard/n.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..0ae5091 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -48,6 +48,9 @@ class Adr(ValueMixin):
     def __repr__(self):
         return "ADR %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..67d66f7 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -46,6 +46,9 @@ class N(ValueMixin):
     def __repr__(self):
         return "N %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
-- 
2.43.0


From b436bf02159a3537300cf4b678dfefc95386474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 006/123] fix: keep every BYYEARDAY day of the year, not only
 those in January and December

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 7d21561..82a4bb5 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -321,8 +321,9 @@ class DateTime(ValueMixin):
             # Decrement day
             self.mDay += day + 1
 
-        if not allow_invalid:
-            # Normalise to get proper year/month/day values
+        if not allow_invalid or abs(day) != 366:
+            # Normalise to get proper year/month/day values - only a 366th day can be one that does
+            # not exist in the current year
             self.normalise()
         else:
             self.changed()
-- 
2.43.0


From e464330d9b76f10f066d1b80a3e877eae6c50a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 007/123] fix: skip the 53rd weekday of a yearly BYDAY in years
 that do not have one

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..3bcd007 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1432,7 +1432,9 @@ class Recurrence(ValueMixin):
                 if iter2[0] != 0:
                     temp = iter1.duplicate()
                     temp.setDayOfWeekInYear(iter2[0], iter2[1])
-                    output.append(temp)
+                    # A 53rd weekday might not exist in this year
+                    if temp.getYear() == iter1.getYear():
+                        output.append(temp)
                 else:
                     # Every matching day in the year
                     for i in range(1, 54):
-- 
2.43.0


From 948aa805dc1417c99895b2822327d46e644522cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 008/123] fix: expand negative BYWEEKNO weeks, and skip week 53
 in years of 52 weeks

---
 src/pycalendar/icalendar/recurrence.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3bcd007..b5d5d82 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1390,7 +1390,14 @@ class Recurrence(ValueMixin):
             # insert into output
             for iter2 in self.mByWeekNo:
                 temp = iter1.duplicate()
-                temp.setWeekNo(iter2)
+
+                # Negative weeks count back from the last one of the year, which always contains December 28th.
+                # Ignore weeks that do not exist in this year.
+                weeks_in_year = DateTime(temp.getYear(), 12, 28).getWeekNo()
+                weekno = iter2 if iter2 > 0 else weeks_in_year + 1 + iter2
+                if weekno < 1 or weekno > weeks_in_year:
+                    continue
+                temp.setWeekNo(weekno)
                 output.append(temp)
 
         return output
-- 
2.43.0


From a61dc519a565e4f5c4cae8fbed268dbbefb681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 009/123] fix: apply BYMONTH in a weekly rule to each day of
 the week, not to the week's first candidate

---
 src/pycalendar/icalendar/recurrence.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index b5d5d82..e5a5001 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1148,12 +1148,6 @@ class Recurrence(ValueMixin):
         # Start with initial date-time
         items.append(start.duplicate())
 
-        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            # BYMONTH limits the range of possible values
-            items[:] = self.byMonthLimit(items)
-            if (len(items) == 0):
-                return
-
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoLimit(items)
             if (len(items) == 0):
@@ -1166,6 +1160,12 @@ class Recurrence(ValueMixin):
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             items[:] = self.byDayExpandWeekly(items)
 
+        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
+            # BYMONTH limits the range of possible values - a week can span two months, so check each day in it
+            items[:] = self.byMonthLimit(items)
+            if (len(items) == 0):
+                return
+
         if (self.mByHours is not None) and (len(self.mByHours) != 0):
             items[:] = self.byHourExpand(items)
 
-- 
2.43.0


From b8e2311c4512f43149d0a16cc7daf01362cde321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 010/123] fix: count a date-time picked twice by a recurrence
 rule only once

---
 src/pycalendar/icalendar/recurrence.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index e5a5001..abdacb4 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -959,9 +959,8 @@ class Recurrence(ValueMixin):
             elif self.mFreq == definitions.eRecurrence_YEARLY:
                 self.generateYearlySet(start_iter, set_items)
 
-            # Always sort the set as BYxxx rules may not be sorted
-            # set_items.sort(cmp=DateTime.sort)
-            set_items.sort(key=lambda x: x.getPosixTime())
+            # Always sort the set as BYxxx rules may not be sorted, and may pick the same item more than once
+            set_items = self.sortedUnique(set_items)
 
             # Process each one in the generated set
             for iter in set_items:
@@ -1657,10 +1656,18 @@ class Recurrence(ValueMixin):
 
         return output
 
-    def bySetPosLimit(self, dates):
-        # The input dates MUST be sorted in order for this to work properly
+    def sortedUnique(self, dates):
+        output = []
         # dates.sort(cmp=DateTime.sort)
-        dates.sort(key=lambda x: x.getPosixTime())
+        for iter1 in sorted(dates, key=lambda x: x.getPosixTime()):
+            if len(output) == 0 or iter1 != output[-1]:
+                output.append(iter1)
+
+        return output
+
+    def bySetPosLimit(self, dates):
+        # The input dates MUST be sorted, without duplicates, in order for this to work properly
+        dates = self.sortedUnique(dates)
 
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
-- 
2.43.0


From 48f2c3755ea389db3189e575c9d19ba53b17e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 011/123] fix: make recurrence expansion independent of what
 the same rule was expanded for before

---
 src/pycalendar/icalendar/recurrence.py | 27 +++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index abdacb4..b7526b3 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -133,7 +133,7 @@ class Recurrence(ValueMixin):
 
         other.mCached = self.mCached
         if self.mCacheStart:
-            other.mCacheStart = self.mCacheStart.duplicate()
+            other.mCacheStart = self.mCacheStart
         if self.mCacheUpto:
             other.mCacheUpto = self.mCacheUpto.duplicate()
         other.mFullyCached = self.mFullyCached
@@ -845,8 +845,12 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is None:
             self.mRecurrences = []
 
-        # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
+        # Wipe cache if start is different. Include the kind and timezone as starts that only differ in those can
+        # compare equal but still give different instances. Use a copy as the caller might change its start later.
+        cacheStart = (
+            start.duplicate(), start.isDateOnly(), start.getTimezoneUTC(), start.getTimezoneID(), float_offset,
+        )
+        if self.mCached and cacheStart != self.mCacheStart:
             self.mCached = False
             self.mFullyCached = False
 
@@ -858,6 +862,8 @@ class Recurrence(ValueMixin):
             # Always wipe the existing cached items as we always start from the very first instance
             # so we can properly track the count limit
             self.mRecurrences = []
+            self.mCached = False
+            self.mFullyCached = False
 
             # Simple expansion is one where there is no BYXXX rule part
             if not self.hasBy():
@@ -867,14 +873,17 @@ class Recurrence(ValueMixin):
 
             # Set cache values
             self.mCached = True
-            self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheStart = cacheStart
+            self.mCacheUpto = range.getEnd().duplicate()
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
-        for iter in self.mRecurrences:
+        for ctr, iter in enumerate(self.mRecurrences):
+            # The cache may have been filled without any limit on the number of instances
+            if maxInstances and ctr >= maxInstances and not range.isDateAfterPeriod(iter):
+                raise TooManyInstancesError("Too many instances")
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
@@ -1024,8 +1033,8 @@ class Recurrence(ValueMixin):
         # Expand the rule up to the exclude date
         items = []
         period = Period()
-        period.init(self.mCacheStart, exclude)
-        self.expand(self.mCacheStart, period, items)
+        period.init(self.mCacheStart[0], exclude)
+        self.expand(self.mCacheStart[0], period, items)
 
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
-- 
2.43.0


From f1a22f21470ae342b9e78a67dd546f75773491a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 012/123] fix: a new UNTIL value always replaces the previous
 one

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index b7526b3..4a6ec7e 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -280,7 +280,9 @@ class Recurrence(ValueMixin):
         return self.mUntil
 
     def setUntil(self, until):
-        self._setAndclearIfChanged("mUntil", until)
+        # Always clear as values of different kinds or timezones can compare equal
+        self.clear()
+        self.mUntil = until
 
     def getUseCount(self):
         return self.mUseCount
-- 
2.43.0


From 7bcee17eeab846df5b5a68a8250572f7db7fff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 013/123] fix: hash recurrence rules that are equal to the same
 value

---
 src/pycalendar/icalendar/recurrence.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 4a6ec7e..f5c19fe 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -177,15 +177,15 @@ class Recurrence(ValueMixin):
             self.mUseUntil,
             self.mUntil,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
-- 
2.43.0


From 0e1fb448a7095cd65db7f4bc5f9fb99444ecae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 014/123] fix: keep recurrence instances in order when some are
 excluded

---
 src/pycalendar/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 0bce6a5..bc4514e 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -518,7 +518,6 @@ def set_difference(v1, v2):
     if len(v1) == 0 or len(v2) == 0:
         return v1
 
-    s1 = set(v1)
+    # Keep the original order
     s2 = set(v2)
-    s3 = s1.difference(s2)
-    return list(s3)
+    return [x for x in v1 if x not in s2]
-- 
2.43.0


From 82f6a7662653a5ec2f5f73cbaa06c526c17b70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 015/123] fix: expansion results are copies, not the DTSTART
 and RDATE values themselves

---
 src/pycalendar/icalendar/recurrenceset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..6243b60 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -169,12 +169,12 @@ class RecurrenceSet(object):
         # Need to return whether the limit was applied or not
         limited = False
 
-        # Now create list of items to include
+        # Now create list of items to include (always copies, so that callers can change what they get)
         include = []
 
         # Always include the initial DTSTART if within the range
         if range.isDateWithinPeriod(start):
-            include.append(start)
+            include.append(start.duplicate())
         else:
             limited = True
 
@@ -186,14 +186,14 @@ class RecurrenceSet(object):
         # RDATES
         for iter in self.mRdates:
             if range.isDateWithinPeriod(iter):
-                include.append(iter)
+                include.append(iter.duplicate())
                 if maxInstances and len(include) > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
         for iter in self.mRperiods:
             if range.isPeriodOverlap(iter):
-                include.append(iter.getStart())
+                include.append(iter.getStart().duplicate())
                 if maxInstances and len(include) > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             else:
-- 
2.43.0


From 71d7ed1ffd40d6a82607334e10b81b27dd58f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 016/123] fix: expand RDATE periods instead of failing on them

---
 src/pycalendar/componentbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..3888027 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -538,9 +538,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
-- 
2.43.0


From 38cb6e3bd31e5900a349d40da66c8e1fa4ef2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 017/123] fix: instances of a recurring event with a DURATION,
 or all day without an end, last as long as the event does

---
 src/pycalendar/icalendar/componentexpanded.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..a328009 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -119,11 +119,8 @@ class ComponentExpanded(object):
             # Start of the recurrence instance is the recurrence id
             self.mInstanceStart = rid
 
-            # End is based on original events settings
-            if self.mOwner.hasEnd():
-                self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
-            else:
-                self.mInstanceEnd = self.mInstanceStart.duplicate()
+            # End is based on original events settings (an explicit end, or one implied by a duration or all day start)
+            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
             self.mRecurring = True
 
-- 
2.43.0


From 619879d548a5d1e3f0be30aeb7d626b3c72c9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 018/123] fix: sort expanded instances by start - the sort
 functions did not return a three-way comparison

---
 src/pycalendar/icalendar/componentexpanded.py | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index a328009..c1cc986 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -23,33 +23,28 @@ class ComponentExpanded(object):
     def sort_by_dtstart_allday(e1, e2):
 
         if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
         elif e1.mInstanceStart.isDateOnly():
-            return True
+            return -1
         elif e2.mInstanceStart.isDateOnly():
-            return False
+            return 1
         elif e1.mInstanceStart == e2.mInstanceStart:
             if e1.mInstanceEnd == e2.mInstanceEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
+                return cmp(e1.getOwner().getStamp(), e2.getOwner().getStamp())
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+                return cmp(e2.mInstanceEnd, e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
         if e1.mInstanceStart == e2.mInstanceStart:
-            if (
-                e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
-                not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
-            ):
-                return e1.mInstanceStart.isDateOnly()
-            else:
-                return False
+            # Put all day ones first
+            return cmp(e2.mInstanceStart.isDateOnly(), e1.mInstanceStart.isDateOnly())
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     def __init__(self, owner, rid):
 
-- 
2.43.0


From 5fbb5bbb52448be0398a004a38f9c060748ff0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 019/123] fix: apply RANGE overrides to the instances they
 cover

---
 src/pycalendar/icalendar/componentrecur.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..cb9f2c5 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -428,8 +428,8 @@ class ComponentRecur(Component):
                             results.append(self.createExpanded(self, iter))
                     else:
                         # Sort each list first
-                        prior.sort(self.sort_by_dtstart)
-                        future.sort(self.sort_by_dtstart)
+                        prior.sort(key=lambda x: x.getRecurrenceID())
+                        future.sort(key=lambda x: x.getRecurrenceID())
 
                         # Add each expanded item
                         for iter1 in items:
@@ -439,16 +439,14 @@ class ComponentRecur(Component):
                             slave = None
 
                             # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, 0, -1):
-                                riter2 = prior[i]
-                                if riter2.getStart() > iter1:
+                            for riter2 in prior:
+                                if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
                                     break
 
                             # Find most appropriate THISANDFUTURE item
-                            for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
-                                if riter2.getStart() < iter1:
+                            for riter2 in reversed(future):
+                                if riter2.getRecurrenceID() < iter1:
                                     slave = riter2
                                     break
 
-- 
2.43.0


From 1ef320aa4bf4a76b2d28482f9fcab54984411478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 020/123] fix: apply TZID to period values, so that RDATE
 periods are in the event's timezone

---
 src/pycalendar/icalendar/property.py | 20 ++++++++++++++++++++
 src/pycalendar/period.py             | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 02a42ff..5db58db 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -277,6 +277,13 @@ class Property(PropertyBase):
                     if isinstance(item, DateTimeValue):
                         item.getValue().setTimezoneID(tzid)
 
+        elif value_type == Value.VALUETYPE_PERIOD and self.hasParameter(definitions.cICalParameter_TZID):
+            tzid = self.getParameterValue(definitions.cICalParameter_TZID)
+
+            for item in self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,):
+                if isinstance(item, PeriodValue):
+                    item.getValue().setTimezoneID(tzid)
+
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
         # Value
@@ -329,6 +336,16 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if len(periodlist) > 0:
+            self._setPeriodTimezone(periodlist[0])
+
+    def _setPeriodTimezone(self, period):
+        if period.getStart().local():
+            self.mParameters[definitions.cICalParameter_TZID] = [
+                Parameter(name=definitions.cICalParameter_TZID, value=period.getStart().getTimezoneID()),
+            ]
+
     def _init_attr_value_duration(self, du):
         # Value
         self.mValue = DurationValue(value=du)
@@ -343,6 +360,9 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        self._setPeriodTimezone(pe)
+
     def _init_attr_value_recur(self, recur):
         # Value
         self.mValue = RecurrenceValue(value=recur)
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 6fc61a1..9cb8926 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -182,6 +182,16 @@ class Period(ValueMixin):
         # Inclusive start, exclusive end
         return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)
 
+    def setTimezoneID(self, tzid):
+        # The timezone applies to all local times
+        if not self.mStart.utc():
+            self.mStart.setTimezoneID(tzid)
+        if self.mUseDuration:
+            # Recalculate from the duration when next needed
+            self.mEnd = None
+        elif not self.mEnd.utc():
+            self.mEnd.setTimezoneID(tzid)
+
     def adjustToUTC(self):
         self.mStart.adjustToUTC()
         self.getEnd().adjustToUTC()
-- 
2.43.0


From a5001364724a07ae2dfa704db6c4e8c140e21720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 021/123] fix: EXDATE and EXRULE also exclude an RDATE period
 that starts before the expansion window

---
 src/pycalendar/icalendar/recurrenceset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 6243b60..804bb26 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -15,6 +15,7 @@
 ##
 
 from pycalendar.icalendar.exceptions import TooManyInstancesError
+from pycalendar.period import Period
 from pycalendar.utils import set_difference
 
 
@@ -203,8 +204,10 @@ class RecurrenceSet(object):
         include = [x for x in set(include)]
         include.sort(key=lambda x: x.getPosixTime())
 
-        # Now create list of items to exclude
+        # Now create list of items to exclude. Note that an included period might start before the range
         exclude = []
+        if len(include) != 0 and range.isDateBeforePeriod(include[0]):
+            range = Period(include[0], range.getEnd())
 
         # EXRULES
         for iter in self.mExrules:
-- 
2.43.0


From 57ed28318d5709181f54dc91dfe3b24816f3858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 022/123] fix: ignore the time fields of a date value, so that
 equal dates have the same hash and difference

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 82a4bb5..7ab35f8 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -228,8 +228,9 @@ class DateTime(ValueMixin):
         if (not self.mPosixTimeCached) or self.floating():
             result = 0L
 
-            # Add hour/mins/secs
-            result = (self.mHours * 60L + self.mMinutes) * 60L + self.mSeconds
+            # Add hour/mins/secs - a date does not have those
+            if not self.mDateOnly:
+                result = (self.mHours * 60L + self.mMinutes) * 60L + self.mSeconds
 
             # Number of days since 1970
             result += self.daysSince1970() * 24L * 60L * 60L
-- 
2.43.0


From d8f4edbe9c8f89ad45707ae33109df78e22caaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 023/123] fix: include the seconds in the cache key of timezone
 offset lookups

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..7274e46 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From d1f017d1bf620c06da3d3678b00a516993418330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 024/123] fix: find the timezone element and expand timezones
 from a cache that covers the time asked for

---
 src/pycalendar/icalendar/vtimezoneelement.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..25f6071 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -124,7 +124,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(below.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -174,28 +174,16 @@ class VTimezoneElement(Component):
             else:
                 return ()
         else:
-            # We want to allow recurrence calculation caching to help us here
-            # as this method
-            # gets called a lot - most likely for ever increasing dt values
-            # (which will therefore
-            # invalidate the recurrence cache).
-            #
-            # What we will do is round up the date-time to the next year so
-            # that the recurrence
-            # cache is invalidated less frequently
-
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
-
-            # Use cache of expansion
+            # Use cache of expansion - the cache is complete up to, but not including, mCachedExpandBelow
             if self.mCachedExpandBelowItems is None:
                 self.mCachedExpandBelowItems = []
             if self.mCachedExpandBelow is None:
                 self.mCachedExpandBelow = self.mStart.duplicate()
-            if temp > self.mCachedExpandBelow:
+            if end > self.mCachedExpandBelow:
                 self.mCachedExpandBelowItems = []
                 period = Period(self.mStart, end)
                 self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
-                self.mCachedExpandBelow = temp
+                self.mCachedExpandBelow = end.duplicate()
 
             if len(self.mCachedExpandBelowItems) != 0:
                 # Return them all within the range
-- 
2.43.0


From 39639648699831967cb0d39af54fbb2de0c5e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 025/123] fix: use the UTC offset before the gap for local
 times skipped by a timezone transition

---
 src/pycalendar/icalendar/vtimezone.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 7274e46..60fea04 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -164,14 +164,22 @@ class VTimezone(Component):
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
             cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
-            i = self.mCachedOffsets.get(cacheKey)
-            if i is None:
+            offset = self.mCachedOffsets.get(cacheKey)
+            if offset is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
+                offset = 0
+                if i != 0:
+                    onset, _ignore_utc, offset_from, offset = self.mCachedExpandAll[i - 1]
+                    if not relative_to_utc and offset > offset_from:
+                        # The local times skipped by this transition use the offset from before it
+                        gap_end = onset.duplicate()
+                        gap_end.offsetSeconds(offset - offset_from)
+                        if temp < gap_end:
+                            offset = offset_from
                 if len(self.mCachedOffsets) >= self.UTCOFFSET_CACHE_MAX_ENTRIES:
                     self.mCachedOffsets = {}
-                self.mCachedOffsets[cacheKey] = i
-            if i != 0:
-                return self.mCachedExpandAll[i - 1][3]
+                self.mCachedOffsets[cacheKey] = offset
+            return offset
 
         return 0
 
-- 
2.43.0


From 8e80fdc03bed1ceff0a561bd05b3a742a66e0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 026/123] fix: keep the offsets of dates and of date-times at
 midnight apart in the timezone offset cache

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 60fea04..9b443cd 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, temp.mDateOnly, relative_to_utc)
             offset = self.mCachedOffsets.get(cacheKey)
             if offset is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From 4b81a2f1be2068d9755283f6e4e4146d0f4e2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 027/123] fix: timezone onsets are copies, not the DTSTART,
 RDATE or cached values themselves

---
 src/pycalendar/icalendar/vtimezone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 9b443cd..865ce7a 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -271,6 +271,8 @@ class VTimezone(Component):
         utc_results = []
         for items in set(results):
             items = list(items)
+            # Copy as this might be the actual DTSTART or RDATE value, or one kept for the next expansion
+            items[0] = items[0].duplicate()
             utcdt = items[0].duplicate()
             utcdt.offsetSeconds(-items[1])
             utcdt.setTimezoneUTC(True)
-- 
2.43.0


From 296fff56bfd71dbaf47178ba130fc1ed367669be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 028/123] fix: split list values on separators only, not on
 escaped commas

---
 src/pycalendar/multivalue.py |  5 +++--
 src/pycalendar/utils.py      | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..ac4fe66 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from pycalendar.utils import splitEscaped
 from pycalendar.value import Value
 
 
@@ -56,9 +57,9 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
+        # Tokenize on comma, but not on an escaped one
         if "," in data:
-            tokens = data.split(",")
+            tokens = splitEscaped(data, ",")
         else:
             tokens = (data,)
         for token in tokens:
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index bc4514e..fb6f775 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -192,6 +192,23 @@ def decodeTextValue(value):
     return os.getvalue()
 
 
+def splitEscaped(data, sep):
+    """
+    Split on each separator that is not escaped with a backslash. The items returned are
+    still escaped.
+    """
+    items = [[]]
+    escaped = False
+    for s in data:
+        if s == sep and not escaped:
+            items.append([])
+        else:
+            items[-1].append(s)
+        escaped = (s == "\\" and not escaped)
+
+    return ["".join(item) for item in items]
+
+
 def encodeParameterValue(value):
     """
     RFC6868 parameter encoding.
-- 
2.43.0


From 3a4650b57ba0045aabf78a6a6d226d74d7fd5231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 029/123] fix: a separator after an escaped backslash still
 separates N, ADR, ORG and REQUEST-STATUS elements

---
 src/pycalendar/utils.py | 41 ++++-------------------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index fb6f775..09f6c48 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -281,18 +281,7 @@ def parseTextList(data, sep=';', always_list=False):
     """
     Each element of the list has to be separately un-escaped
     """
-    results = []
-    item = []
-    pre_s = ''
-    for s in data:
-        if s == sep and pre_s != '\\':
-            results.append(decodeTextValue("".join(item)))
-            item = []
-        else:
-            item.append(s)
-        pre_s = s
-
-    results.append(decodeTextValue("".join(item)))
+    results = [decodeTextValue(item) for item in splitEscaped(data, sep)]
 
     return tuple(results) if len(results) > 1 or always_list else (results[0] if len(results) else "")
 
@@ -313,31 +302,9 @@ def generateTextList(os, data, sep=';'):
 # vCard double-nested list parsing/generation
 def parseDoubleNestedList(data, maxsize):
     results = []
-    items = [""]
-    pre_s = ''
-    for s in data:
-        if s == ';' and pre_s != '\\':
-
-            if len(items) > 1:
-                results.append(tuple([decodeTextValue(item) for item in items]))
-            elif len(items) == 1:
-                results.append(decodeTextValue(items[0]))
-            else:
-                results.append("")
-
-            items = [""]
-        elif s == ',' and pre_s != '\\':
-            items.append("")
-        else:
-            items[-1] += s
-        pre_s = s
-
-    if len(items) > 1:
-        results.append(tuple([decodeTextValue(item) for item in items]))
-    elif len(items) == 1:
-        results.append(decodeTextValue(items[0]))
-    else:
-        results.append("")
+    for element in splitEscaped(data, ';'):
+        items = [decodeTextValue(item) for item in splitEscaped(element, ',')]
+        results.append(tuple(items) if len(items) > 1 else items[0])
 
     for _ignore in range(maxsize - len(results)):
         results.append("")
-- 
2.43.0


From 6c5a2456e3f753a7bf6dad96b86f9439f4d32c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 030/123] fix: quote parameter values that start with a space,
 which is lost otherwise

---
 src/pycalendar/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..e0ec9da 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -101,8 +101,8 @@ class Parameter(object):
         # ^-escaping
         str = encodeParameterValue(str)
 
-        # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        # Look for quoting - leading space is ignored when reading values that are not quoted
+        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1 or str.startswith(" "):
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From 53308ee99731fcbb7f2ee90bf7109407ae51576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 031/123] fix: refuse property lines that have no value
 separator

---
 src/pycalendar/property.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..bf27b43 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -313,6 +313,8 @@ class PropertyBase(object):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
 
-- 
2.43.0


From c0499096ee4c06937d9e5c123ac82ec8b4121498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 032/123] fix: refuse vCard properties with junk after a quoted
 parameter value instead of looping for ever, and those without a value
 separator

---
 src/pycalendar/vcard/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..567c4d6 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -260,6 +260,10 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    raise InvalidProperty("Invalid property: missing value separator", data)
+
+            raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From 4d55fa9adfeeecf7825e740698698fd1b882008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 033/123] fix: ignore or fix vCard 2 parameters without values
 when asked to, instead of failing

---
 src/pycalendar/vcard/property.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 567c4d6..21b5707 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -231,9 +231,11 @@ class Property(PropertyBase):
                         elif ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_ALLOW:
                             parameter_value = None
                         else:  # PARSER_IGNORE and PARSER_FIX
-                            parameter_name = None
+                            parameter_value = None
+                            if parameter_name.upper() != "BASE64" or ParserContext.VCARD_2_BASE64 != ParserContext.PARSER_FIX:
+                                parameter_name = None
 
-                        if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
+                        if parameter_name is not None and parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
                             parameter_name = definitions.Parameter_ENCODING
                             parameter_value = definitions.Parameter_Value_ENCODING_B
                             stripValueSpaces = True
-- 
2.43.0


From e32180fba7b96c4b9f6f454c43540406b7479e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 034/123] fix: compare the groups of vCard properties

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 21b5707..bd6d869 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From 1ef02dce3c1cabcd28a022bc391492dc41f76358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 035/123] fix: give new vCards a VERSION and a PRODID rather
 than two nameless properties

---
 src/pycalendar/vcard/card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..944f27c 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -170,8 +170,8 @@ class Card(ContainerBase):
         return results
 
     def addDefaultProperties(self):
-        self.addProperty(Property(definitions.Property_PRODID, Card.sProdID))
-        self.addProperty(Property(definitions.Property_VERSION, "3.0"))
+        self.addProperty(Property(name=definitions.Property_PRODID, value=Card.sProdID))
+        self.addProperty(Property(name=definitions.Property_VERSION, value="3.0"))
 
     def validProperty(self, prop):
         if prop.getName() == definitions.Property_VERSION:
-- 
2.43.0


From b860fad2a4fdaa08f51ede0915d4f42d18f64238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 036/123] fix: refuse dates and times with a month, hour,
 minute or second out of range

---
 src/pycalendar/datetime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 7ab35f8..3201f51 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -905,6 +905,8 @@ class DateTime(ValueMixin):
             raise ValueError("DateTime: spaces not allowed at start")
         if self.mYear < 0 or self.mMonth < 0 or self.mDay < 0:
             raise ValueError("DateTime: negative date components not allowed")
+        if '+' in data[:index] or self.mMonth < 1 or self.mMonth > 12 or self.mDay < 1:
+            raise ValueError("DateTime: invalid date components")
         return index
 
     def parseTime(self, data, index, fullISO):
@@ -924,6 +926,10 @@ class DateTime(ValueMixin):
         self.mSeconds = int(data[index:index + 2])
         index += 2
 
+        # Seconds may be 60 in a leap second
+        if not (0 <= self.mHours <= 23 and 0 <= self.mMinutes <= 59 and 0 <= self.mSeconds <= 60):
+            raise ValueError("DateTime: invalid time components")
+
         return index
 
     def parseFractionalAndUTCOffset(self, data, index, dlen):
-- 
2.43.0


From 7a2319bacdae8de399f0143e019f2c72be10b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 037/123] fix: keep explicit VALUE parameters that the value
 itself does not tell, and match them in any case

---
 src/pycalendar/property.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index bf27b43..a92d22e 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -510,7 +510,7 @@ class PropertyBase(object):
         # Check whether custom value is set
         if self.sValue in self.mParameters:
             attr = self.getParameterValue(self.sValue)
-            value_type = self.sValueTypeMap.get(attr, value_type)
+            value_type = self.sValueTypeMap.get(attr.upper(), value_type)
 
         # Check for specials
         if self.mName.upper() in self.sSpecialVariants:
@@ -560,7 +560,7 @@ class PropertyBase(object):
 
         # Check whether custom value is set
         if self.sValue in self.mParameters:
-            value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue), value_type)
+            value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue).upper(), value_type)
 
         # Check for multivalued
         if self.mName.upper() in self.sMultiValues:
@@ -575,8 +575,7 @@ class PropertyBase(object):
         self._postCreateValue(value_type)
 
     def setupValueParameter(self):
-        if self.sValue in self.mParameters:
-            del self.mParameters[self.sValue]
+        given = self.mParameters.pop(self.sValue, None)
 
         # Only if we have a value right now
         if self.mValue is None:
@@ -594,6 +593,9 @@ class PropertyBase(object):
             actual_value = self.sTypeValueMap.get(actual_type)
             if actual_value is not None and (default_type is not None or actual_type != Value.VALUETYPE_TEXT):
                 self.mParameters.setdefault(self.sValue, []).append(Parameter(name=self.sValue, value=actual_value))
+            elif given is not None and actual_type in (Value.VALUETYPE_TEXT, Value.VALUETYPE_UNKNOWN):
+                # The value type cannot be told from the value, so keep the one given
+                self.mParameters[self.sValue] = given
 
     # Creation
     def _init_attr_value_int(self, ival):
-- 
2.43.0


From 2ea8854f3d4cea84b8b6593831a6983e86317522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 038/123] fix: write FLOAT and GEO values with all of their
 digits and without an exponent, and GEO values in XML

---
 src/pycalendar/floatvalue.py |  6 +++---
 src/pycalendar/geovalue.py   |  8 ++++----
 src/pycalendar/utils.py      | 12 ++++++++++++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/floatvalue.py b/src/pycalendar/floatvalue.py
index 33d73d8..2f09cdc 100644
--- a/src/pycalendar/floatvalue.py
+++ b/src/pycalendar/floatvalue.py
@@ -16,7 +16,7 @@
 
 # iCalendar float value
 
-from pycalendar import xmldefinitions
+from pycalendar import utils, xmldefinitions
 from pycalendar.value import Value
 
 
@@ -37,13 +37,13 @@ class FloatValue(Value):
     # os - StringIO object
     def generate(self, os):
         try:
-            os.write(str(self.mValue))
+            os.write(utils.floatToText(self.mValue))
         except:
             pass
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = str(self.mValue)
+        value.text = utils.floatToText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = float(jobject)
diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..61a2fb6 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -16,7 +16,7 @@
 
 # iCalendar REQUEST-STATUS value
 
-from pycalendar import xmlutils
+from pycalendar import utils, xmlutils
 from pycalendar.exceptions import InvalidData
 from pycalendar.icalendar import xmldefinitions
 from pycalendar.value import Value
@@ -59,16 +59,16 @@ class GeoValue(Value):
 
     # os - StringIO object
     def generate(self, os):
-        os.write("%s;%s" % (self.mValue[0], self.mValue[1],))
+        os.write("%s;%s" % (utils.floatToText(self.mValue[0]), utils.floatToText(self.mValue[1]),))
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
 
         latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
+        latitude.text = utils.floatToText(self.mValue[0])
 
         longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude.text = utils.floatToText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 09f6c48..080c461 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from decimal import Decimal
 from pycalendar.parser import ParserContext
 import cStringIO as StringIO
 
@@ -338,6 +339,17 @@ def generateDoubleNestedList(os, data):
     except:
         pass
 
+
+def floatToText(value):
+    """
+    All of the digits of a number, and never the exponent form which is not allowed in
+    FLOAT values
+    """
+    text = repr(value) if isinstance(value, float) else str(value)
+    if "e" in text.lower() and "n" not in text.lower():
+        text = "{0:f}".format(Decimal(text))
+    return text
+
 # Date/time calcs
 days_in_month = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
 days_in_month_leap = (0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
-- 
2.43.0


From f0e77297e7904457042102ef5534eb9585f25495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 039/123] fix: never write line breaks inside unknown, calendar
 address, binary and URI values

---
 src/pycalendar/plaintextvalue.py |  5 +++--
 src/pycalendar/urivalue.py       | 15 ---------------
 2 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/pycalendar/plaintextvalue.py b/src/pycalendar/plaintextvalue.py
index f2c22ad..18653bd 100644
--- a/src/pycalendar/plaintextvalue.py
+++ b/src/pycalendar/plaintextvalue.py
@@ -34,8 +34,9 @@ class PlainTextValue(Value):
     # os - StringIO object
     def generate(self, os):
         try:
-            # No encoding required
-            os.write(self.mValue)
+            # No encoding required, except that line breaks cannot be included literally
+            # as that would break syntax
+            os.write(self.mValue.replace("\r", "\\r").replace("\n", "\\n"))
         except:
             pass
 
diff --git a/src/pycalendar/urivalue.py b/src/pycalendar/urivalue.py
index 58fdc64..22e1d6b 100644
--- a/src/pycalendar/urivalue.py
+++ b/src/pycalendar/urivalue.py
@@ -36,19 +36,4 @@ class URIValue(PlainTextValue):
             # No decoding required
             self.mValue = data
 
-    # os - StringIO object
-    def generate(self, os):
-        """
-        Handle a client bug where it sometimes includes a \n in the value and we need
-        to make sure that gets encoded rather than included literally which would break syntax.
-        """
-        if '\n' in self.mValue:
-            try:
-                # No encoding required
-                os.write(self.mValue.replace("\n", "\\n"))
-            except:
-                pass
-        else:
-            super(URIValue, self).generate(os)
-
 Value.registerType(Value.VALUETYPE_URI, URIValue, xmldefinitions.value_uri)
-- 
2.43.0


From 22d4d16f716497897a2c20fd1c712076350e8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 040/123] fix: write UTC offsets in the form vCard requires,
 and those with seconds correctly in XML

---
 src/pycalendar/property.py       | 5 ++++-
 src/pycalendar/utcoffsetvalue.py | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a92d22e..74e7e6c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -355,7 +355,10 @@ class PropertyBase(object):
         # Write value
         sout.write(":")
         if self.mValue and not novalue:
-            self.mValue.generate(sout)
+            if isinstance(self.mValue, UTCOffsetValue):
+                self.mValue.generate(sout, fullISO=(self.sVariant == "vcard"))
+            else:
+                self.mValue.generate(sout)
 
         # Get string text
         temp = sout.getvalue()
diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..337aa50 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -89,9 +89,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
-- 
2.43.0


From 465c7aad17028edc70eb08c350240356e3f1a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 041/123] fix: accept valid REQUEST-STATUS values when asked to
 raise on invalid ones

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..59bd3c4 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -67,7 +67,7 @@ class RequestStatusValue(Value):
 
         if "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
             code = code.replace("\\", "")
-        elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
+        elif "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
             raise ValueError("RequestStatus: cannot have '\\' in value")
 
         # Decoding required
-- 
2.43.0


From 04c1c4232a039cd64b1c4cdd805d370f3a63f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 042/123] fix: write duration, period, GEO and REQUEST-STATUS
 values in XML instead of failing

---
 src/pycalendar/geovalue.py                     | 7 +++----
 src/pycalendar/icalendar/requeststatusvalue.py | 9 ++++-----
 src/pycalendar/valueutils.py                   | 2 +-
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 61a2fb6..7aab934 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -62,12 +62,11 @@ class GeoValue(Value):
         os.write("%s;%s" % (utils.floatToText(self.mValue[0]), utils.floatToText(self.mValue[1]),))
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
+        # The elements are directly inside the property
+        latitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
         latitude.text = utils.floatToText(self.mValue[0])
 
-        longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
+        longitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
         longitude.text = utils.floatToText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 59bd3c4..1cb8940 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -78,16 +78,15 @@ class RequestStatusValue(Value):
         utils.generateTextList(os, self.mValue if len(self.mValue) < 3 or self.mValue[2] else self.mValue[:2])
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        code = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
+        # The elements are directly inside the property
+        code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
         code.text = self.mValue[0]
 
-        description = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
+        description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
         description.text = self.mValue[1]
 
         if len(self.mValue) == 3 and self.mValue[2]:
-            data = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
+            data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From 10bca1d55849ab4e72535358832605f72a58f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 043/123] fix: write filtered sub-components instead of failing
 or never ending

---
 src/pycalendar/componentbase.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3888027..7f6c216 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -407,7 +407,7 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
+            for subcomp in self.sortedComponents():
                 subfilter = filter.getSubComponentFilter(subcomp.getType())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
@@ -424,13 +424,12 @@ class ComponentBase(object):
     def writeComponentsFilteredXML(self, node, namespace, filter):
 
         if self.mComponents:
-            comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
-
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
+                self.writeComponentsXML(node, namespace)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
@@ -447,9 +446,9 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
-- 
2.43.0


From d2a3ef1b7bd14a21651de254ad066d7dc7119740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 044/123] fix: read JSON parameters that have more than one
 value, and write repeated ones without losing any

---
 src/pycalendar/parameter.py | 6 +++++-
 src/pycalendar/property.py  | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index e0ec9da..3337d4b 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -115,4 +115,8 @@ class Parameter(object):
             text.text = value
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        # There can be more than one parameter of the same name
+        name = self.getName().lower()
+        values = jobject.get(name, [])
+        values = (values if isinstance(values, list) else [values]) + self.mValues
+        jobject[name] = values if len(values) != 1 else values[0]
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 74e7e6c..a4f1295 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -444,8 +444,12 @@ class PropertyBase(object):
             if jobject[1]:
                 for name, value in jobject[1].items():
                     # Now add parameter value
-                    name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    name = name.upper().encode("utf-8")
+                    if isinstance(value, list):
+                        value = [item.encode("utf-8") for item in value]
+                    else:
+                        value = value.encode("utf-8")
+                    attrvalue = Parameter(name=name, value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From c130b1c322bff9abadd4b6d6dc7e9decb08cd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 045/123] fix: keep the VALUE parameter of types not known to
 us when converting to and from JSON

---
 src/pycalendar/property.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a4f1295..c14bcd5 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -453,10 +453,11 @@ class PropertyBase(object):
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-            value_type = cls.sValueTypeMap.get(jobject[2].upper(), Value.VALUETYPE_UNKNOWN)
+            type_name = jobject[2].encode("utf-8").upper()
+            value_type = cls.sValueTypeMap.get(type_name, Value.VALUETYPE_UNKNOWN)
             default_type = cls.sDefaultValueTypeMap.get(prop.mName.upper(), Value.VALUETYPE_UNKNOWN)
-            if default_type != value_type:
-                attrvalue = Parameter(name=cls.sValue, value=jobject[2].encode("utf-8").upper())
+            if type_name != "UNKNOWN" and (default_type != value_type or value_type == Value.VALUETYPE_UNKNOWN):
+                attrvalue = Parameter(name=cls.sValue, value=type_name)
                 prop.mParameters.setdefault(cls.sValue, []).append(attrvalue)
 
             # Get value type from property name
@@ -510,6 +511,10 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeJSON(prop)
 
+            # Keep the name of a type we know nothing else about
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.sValue in self.mParameters:
+                prop[2] = self.getParameterValue(self.sValue).lower()
+
     def determineValueType(self):
         # Get value type from property name
         value_type = self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN)
-- 
2.43.0


From b2301704ca6ff1029dba733f98e4e39de2f8fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 046/123] fix: convert N and ADR values with list components
 and ORG values with one component to and from JSON

---
 src/pycalendar/vcard/adr.py      | 7 +++++--
 src/pycalendar/vcard/n.py        | 7 +++++--
 src/pycalendar/vcard/orgvalue.py | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 0ae5091..166d62d 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -103,10 +103,13 @@ class Adr(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple([
+            tuple([i.encode("utf-8") for i in x]) if isinstance(x, list) else x.encode("utf-8")
+            for x in jobject
+        ])
 
     def writeJSON(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append([x if isinstance(x, basestring) else list(x) for x in self.mValue])
 
     def getValue(self):
         return self.mValue
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 67d66f7..50e3306 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -102,10 +102,13 @@ class N(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple([
+            tuple([i.encode("utf-8") for i in x]) if isinstance(x, list) else x.encode("utf-8")
+            for x in jobject
+        ])
 
     def writeJSON(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append([x if isinstance(x, basestring) else list(x) for x in self.mValue])
 
     def getValue(self):
         return self.mValue
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..db4a10c 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -41,10 +41,13 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        if isinstance(jobject, list):
+            self.mValue = tuple([x.encode("utf-8") for x in jobject])
+        else:
+            self.mValue = jobject.encode("utf-8")
 
     def writeJSONValue(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append(self.mValue if isinstance(self.mValue, basestring) else list(self.mValue))
 
     def getValue(self):
         return self.mValue
-- 
2.43.0


From 8e82b7d2e82625827cbf876874fab2eacedad595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 047/123] fix: keep the group of vCard properties when
 converting to and from JSON

---
 src/pycalendar/property.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index c14bcd5..ea1f75e 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -449,6 +449,10 @@ class PropertyBase(object):
                         value = [item.encode("utf-8") for item in value]
                     else:
                         value = value.encode("utf-8")
+                    if name == "GROUP" and prop.sUsesGroup:
+                        # The group is a parameter in JSON
+                        prop.mGroup = value
+                        continue
                     attrvalue = Parameter(name=name, value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
@@ -501,6 +505,10 @@ class PropertyBase(object):
         ]
         jobject.append(prop)
 
+        # The group is a parameter in JSON
+        if self.sUsesGroup and self.mGroup:
+            prop[1]["group"] = self.mGroup
+
         # Write all parameters
         for key in sorted(self.mParameters.keys()):
             for attr in self.mParameters[key]:
-- 
2.43.0


From edf272f193b1393f4758d7dce7bdcdecbca92cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 048/123] fix: give N, ADR and ORG values the type text in JSON

---
 src/pycalendar/vcard/adrvalue.py | 3 ++-
 src/pycalendar/vcard/nvalue.py   | 3 ++-
 src/pycalendar/vcard/orgvalue.py | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/vcard/adrvalue.py b/src/pycalendar/vcard/adrvalue.py
index 8a1f01a..22a7d8a 100644
--- a/src/pycalendar/vcard/adrvalue.py
+++ b/src/pycalendar/vcard/adrvalue.py
@@ -16,6 +16,7 @@
 
 # vCard ADR value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.adr import Adr
@@ -26,4 +27,4 @@ class AdrValue(WrapperValue, Value):
     _wrappedClass = Adr
     _wrappedType = Value.VALUETYPE_ADR
 
-Value.registerType(Value.VALUETYPE_ADR, AdrValue, None)
+Value.registerType(Value.VALUETYPE_ADR, AdrValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/nvalue.py b/src/pycalendar/vcard/nvalue.py
index e5e9c00..a2b97b3 100644
--- a/src/pycalendar/vcard/nvalue.py
+++ b/src/pycalendar/vcard/nvalue.py
@@ -16,6 +16,7 @@
 
 # vCard N value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.n import N
@@ -26,4 +27,4 @@ class NValue(WrapperValue, Value):
     _wrappedClass = N
     _wrappedType = Value.VALUETYPE_N
 
-Value.registerType(Value.VALUETYPE_N, NValue, None)
+Value.registerType(Value.VALUETYPE_N, NValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index db4a10c..dcff9fc 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -16,7 +16,7 @@
 
 # vCard ORG value
 
-from pycalendar import utils
+from pycalendar import utils, xmldefinitions
 from pycalendar.value import Value
 
 
@@ -55,4 +55,4 @@ class OrgValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
+Value.registerType(Value.VALUETYPE_ORG, OrgValue, None, xmldefinitions.value_text)
-- 
2.43.0


From 4d0d53ed7861fdcf63fc60c90d1bda706de39eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 049/123] fix: refuse JSON data of another kind or without a
 VERSION, as is done for text

---
 src/pycalendar/containerbase.py | 12 +++++++++++-
 src/pycalendar/vcard/card.py    |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..9df26e5 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -218,7 +218,17 @@ class ContainerBase(ComponentBase):
             jobject = json.loads(data)
         except ValueError as e:
             raise InvalidData("JSON parse: {}".format(e), data)
-        return cls.parseJSON(jobject, None, cls(add_defaults=False))
+        return cls.parseJSONContainer(jobject)
+
+    @classmethod
+    def parseJSONContainer(cls, jobject):
+        container = cls(add_defaults=False)
+        if not isinstance(jobject, list) or not jobject or jobject[0] != container.getType().lower():
+            raise InvalidData("%s data not recognized" % (cls.sContainerDescriptor,), jobject)
+        cls.parseJSON(jobject, None, container)
+        if not container.hasProperty("VERSION"):
+            raise InvalidData("%s missing VERSION" % (cls.sContainerDescriptor,))
+        return container
 
     def getText(self, format=None):
 
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 944f27c..de89955 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -166,7 +166,7 @@ class Card(ContainerBase):
             raise InvalidData("JSON error: '{}'".format(e), data)
         results = []
         for jobject in jobjects:
-            results.append(cls.parseJSON(jobject, None, cls(add_defaults=False)))
+            results.append(cls.parseJSONContainer(jobject))
         return results
 
     def addDefaultProperties(self):
-- 
2.43.0


From 63350136d0b1a11138df914c10d1c2e226ae24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 050/123] fix: make the timezones in JSON data known, as is
 done for text

---
 src/pycalendar/icalendar/calendar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..c8d6945 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -200,6 +200,17 @@ class Calendar(ContainerBase):
 
         return result
 
+    @classmethod
+    def parseJSONContainer(cls, jobject):
+
+        result = super(Calendar, cls).parseJSONContainer(jobject)
+
+        # We need to store all timezones in the static object so they can be accessed by any date object
+        from pycalendar.timezonedb import TimezoneDatabase
+        TimezoneDatabase.mergeTimezones(result, result.getComponents(definitions.cICalComponent_VTIMEZONE))
+
+        return result
+
     def parseComponent(self, ins):
 
         result = None
-- 
2.43.0


From 517ba1ef66ab43f8361848a7c2099c8c2dbee023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 051/123] fix: refuse data in which a component is not ended
 instead of dropping the component

---
 src/pycalendar/containerbase.py      | 4 ++++
 src/pycalendar/icalendar/calendar.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9df26e5..29f9b31 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -163,6 +163,10 @@ class ContainerBase(ComponentBase):
                 # Look for end of object
                 elif line == self.getEndDelimiter():
 
+                    # All components must be complete
+                    if componentstack:
+                        raise InvalidData("%s data not complete" % (self.sContainerDescriptor,), line)
+
                     # Finalise the current calendar
                     self.finalise()
 
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index c8d6945..7548010 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -271,6 +271,10 @@ class Calendar(ContainerBase):
 
                 elif line == self.getEndDelimiter():
 
+                    # All components must be complete
+                    if componentstack:
+                        raise InvalidData("iCalendar data not complete", line)
+
                     # Change state
                     state = GOT_VCALENDAR
 
-- 
2.43.0


From 3669a637b5211a9aebe4087764e1a50ec1e22397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 052/123] fix: report misplaced or inconsistent components in
 text data as invalid components, as is done for JSON

---
 src/pycalendar/containerbase.py      | 28 ++++++++++++++++++++++------
 src/pycalendar/icalendar/calendar.py |  6 +-----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 29f9b31..67c409f 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -16,7 +16,8 @@
 
 from cStringIO import StringIO
 from pycalendar.componentbase import ComponentBase
-from pycalendar.exceptions import InvalidData, ValidationError
+from pycalendar.exceptions import ErrorBase, InvalidComponent, InvalidData, \
+    ValidationError
 from pycalendar.parser import ParserContext
 from pycalendar.utils import readFoldedLine
 import json
@@ -176,12 +177,8 @@ class ContainerBase(ComponentBase):
                 # Look for end of current component
                 elif line == compend:
 
-                    # Finalise the component (this caches data from the properties)
-                    comp.finalise()
-
                     # Embed component in parent and reset to use parent
-                    componentstack[-1][0].addComponent(comp)
-                    comp, compend = componentstack.pop()
+                    comp, compend = self.completeComponent(comp, componentstack, line)
 
                 # Blank line
                 elif len(line) == 0:
@@ -214,6 +211,25 @@ class ContainerBase(ComponentBase):
 
         return result
 
+    def completeComponent(self, comp, componentstack, line):
+        """
+        The end of a component has been reached.
+
+        @return: a L{tuple} of its parent and the end delimiter of that
+        """
+        try:
+            # Finalise the component (this caches data from the properties)
+            comp.finalise()
+
+            # Embed component in parent
+            componentstack[-1][0].addComponent(comp)
+        except ErrorBase:
+            raise
+        except Exception as e:
+            raise InvalidComponent("Invalid component: {}".format(e), line)
+
+        return componentstack.pop()
+
     @classmethod
     def parseJSONData(cls, data):
         if not isinstance(data, str):
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 7548010..84fef3e 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -281,12 +281,8 @@ class Calendar(ContainerBase):
                 # Look for end of current component
                 elif line == compend:
 
-                    # Finalise the component (this caches data from the properties)
-                    comp.finalise()
-
                     # Embed component in parent and reset to use parent
-                    componentstack[-1][0].addComponent(comp)
-                    comp, compend = componentstack.pop()
+                    comp, compend = self.completeComponent(comp, componentstack, line)
 
                 # Blank line
                 elif len(line) == 0:
-- 
2.43.0


From 145b111f54659fae837938cd3b770c111807d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 053/123] fix: fold lines that are not valid utf-8 instead of
 looping for ever

---
 src/pycalendar/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index ea1f75e..1a9e1d8 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -384,6 +384,10 @@ class PropertyBase(object):
                     while (temp[offset] > 0x7F) and ((ord(temp[offset]) & 0xC0) == 0x80):
                         # Step back until we have a valid char
                         offset -= 1
+                        if offset == start:
+                            # Not valid utf8 at all
+                            offset = start + lineWrap
+                            break
 
                     line = temp[start:offset]
                     os.write(line)
-- 
2.43.0


From 4d812ba6858ca90eb2c022166de9537f06677e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 054/123] fix: XML output garbled non-ASCII text

---
 src/pycalendar/icalendar/requeststatusvalue.py | 6 +++---
 src/pycalendar/parameter.py                    | 2 +-
 src/pycalendar/plaintextvalue.py               | 3 ++-
 src/pycalendar/xmlutils.py                     | 7 +++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 1cb8940..b78ca3f 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -80,14 +80,14 @@ class RequestStatusValue(Value):
     def writeXML(self, node, namespace):
         # The elements are directly inside the property
         code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
-        code.text = self.mValue[0]
+        code.text = xmlutils.makeText(self.mValue[0])
 
         description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
-        description.text = self.mValue[1]
+        description.text = xmlutils.makeText(self.mValue[1])
 
         if len(self.mValue) == 3 and self.mValue[2]:
             data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
-            data.text = self.mValue[2]
+            data.text = xmlutils.makeText(self.mValue[2])
 
     def parseJSONValue(self, jobject):
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 3337d4b..212e77c 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -112,7 +112,7 @@ class Parameter(object):
         for value in self.getValues():
             # TODO: need to figure out proper value types
             text = XML.SubElement(param, xmlutils.makeTag(namespace, xmldefinitions.value_text))
-            text.text = value
+            text.text = xmlutils.makeText(value)
 
     def writeJSON(self, jobject):
         # There can be more than one parameter of the same name
diff --git a/src/pycalendar/plaintextvalue.py b/src/pycalendar/plaintextvalue.py
index 18653bd..f6f29b4 100644
--- a/src/pycalendar/plaintextvalue.py
+++ b/src/pycalendar/plaintextvalue.py
@@ -16,6 +16,7 @@
 
 # iCalendar generic text-like value
 
+from pycalendar import xmlutils
 from pycalendar.value import Value
 
 
@@ -42,7 +43,7 @@ class PlainTextValue(Value):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue
+        value.text = xmlutils.makeText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject.encode("utf-8")
diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index de41dcc..4c51f59 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -21,6 +21,13 @@ def makeTag(namespace, name):
     return "{%s}%s" % (namespace, name.lower(),)
 
 
+def makeText(value):
+    """
+    The XML package needs unicode when there are non-ASCII characters.
+    """
+    return value.decode("utf-8", "replace") if isinstance(value, str) else value
+
+
 def toString(root):
 
     data = """<?xml version="1.0" encoding="utf-8"?>\n"""
-- 
2.43.0


From b0cda21b868a7ab6dc005ff572ae1ab4028bc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 055/123] fix: periods with a + sign on the duration were
 rejected

---
 src/pycalendar/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 9cb8926..d871c3c 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -90,7 +90,7 @@ class Period(ValueMixin):
                 end = splits[1]
 
                 self.mStart.parse(start, fullISO)
-                if end[0] == 'P':
+                if end[0] in ('P', '+'):
                     self.mDuration = Duration.parseText(end)
                     self.mUseDuration = True
                     self.mEnd = None
-- 
2.43.0


From abde68d1b837c0630a83dbf915bb965b5a472232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 056/123] fix: setValue on N, ADR, ORG, GEO and REQUEST-STATUS
 stored the value as text or float

---
 src/pycalendar/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 1a9e1d8..b618b0b 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -586,6 +586,10 @@ class PropertyBase(object):
         if self.sValue in self.mParameters:
             value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue).upper(), value_type)
 
+        # Check for specials
+        if value_type == self.sDefaultValueTypeMap.get(self.mName.upper()):
+            value_type = self.sSpecialVariants.get(self.mName.upper(), value_type)
+
         # Check for multivalued
         if self.mName.upper() in self.sMultiValues:
             self.mValue = MultiValue(value_type)
-- 
2.43.0


From 3db78d3edbabb02852745eb14404289af1750253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 057/123] fix: the setters of N and ADR failed

---
 src/pycalendar/vcard/adr.py | 19 ++++++++++++-------
 src/pycalendar/vcard/n.py   | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 166d62d..d783beb 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -54,47 +54,52 @@ class Adr(ValueMixin):
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def _setItem(self, index, value):
+        items = list(self.mValue)
+        items[index] = value
+        self.mValue = tuple(items)
+
     def getPobox(self):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 50e3306..23f651e 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -52,35 +52,40 @@ class N(ValueMixin):
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def _setItem(self, index, value):
+        items = list(self.mValue)
+        items[index] = value
+        self.mValue = tuple(items)
+
     def getFirst(self):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
-- 
2.43.0


From 4c70e3b4ba5162b483ce5842ed0e89cd0a7651ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 058/123] fix: comparing N or ADR with another kind of object
 failed

---
 src/pycalendar/vcard/adr.py | 2 ++
 src/pycalendar/vcard/n.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index d783beb..1e54999 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -52,6 +52,8 @@ class Adr(ValueMixin):
         return not self.__eq__(comp)
 
     def __eq__(self, comp):
+        if not isinstance(comp, Adr):
+            return False
         return self.mValue == comp.mValue
 
     def _setItem(self, index, value):
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 23f651e..c5cadc8 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -50,6 +50,8 @@ class N(ValueMixin):
         return not self.__eq__(comp)
 
     def __eq__(self, comp):
+        if not isinstance(comp, N):
+            return False
         return self.mValue == comp.mValue
 
     def _setItem(self, index, value):
-- 
2.43.0


From e3ea453153c1dedc0b44e5270778581fc2fb409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:43 +0000
Subject: [PATCH 059/123] fix: PHOTO with long parameters was not folded, and
 its value was written even if filtered out

---
 src/pycalendar/property.py       | 7 +++++--
 src/pycalendar/vcard/property.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index b618b0b..fc37726 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -364,6 +364,11 @@ class PropertyBase(object):
         temp = sout.getvalue()
         sout.close()
 
+        self.writeFolded(os, temp)
+        os.write("\r\n")
+
+    def writeFolded(self, os, temp):
+
         # Look for line length exceed
         if len(temp) < 75:
             os.write(temp)
@@ -396,8 +401,6 @@ class PropertyBase(object):
                     written += offset - start
                     start = offset
 
-        os.write("\r\n")
-
     def writeXML(self, node, namespace):
 
         # Write it out always with value
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index bd6d869..5d9c77d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -274,7 +274,7 @@ class Property(PropertyBase):
     def generateValue(self, os, novalue):
 
         # Special case AB.app PHOTO values
-        if self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
+        if self.mName.upper() == "PHOTO" and not novalue and self.mValue.getType() == Value.VALUETYPE_BINARY:
             self.setupValueParameter()
 
             # Must write to temp buffer and then wrap
@@ -291,6 +291,8 @@ class Property(PropertyBase):
 
             # Write value
             sout.write(":")
+            self.writeFolded(os, sout.getvalue())
+            sout = StringIO.StringIO()
             sout.write("\r\n")
 
             value = self.mValue.getText()
-- 
2.43.0


From 0d918036b7a8193641299e7d9eaaa338b41b53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 060/123] fix: vCards in JSON have no sub-component array (RFC
 7095)

---
 src/pycalendar/componentbase.py |  3 ++-
 src/pycalendar/vcard/card.py    | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 7f6c216..37ee1af 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -334,7 +334,8 @@ class ComponentBase(object):
                 comp = cls.sComponentType.makeComponent(jobject[0].upper(), parent)
             for prop in jobject[1]:
                 comp.addProperty(cls.sPropertyType.parseJSON(prop))
-            for subcomp in jobject[2]:
+            # vCards have no sub-component array
+            for subcomp in (jobject[2] if len(jobject) > 2 else ()):
                 comp.addComponent(cls.sComponentType.parseJSON(subcomp, comp))
             comp.finalise()
             return comp
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index de89955..03b30cf 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -60,6 +60,16 @@ class Card(ContainerBase):
     def getType(self):
         return VCARD
 
+    def writeJSON(self, jobject):
+        super(Card, self).writeJSON(jobject)
+
+        # RFC 7095 section 3.2: exactly two elements, there are no sub-components
+        del jobject[-1][2:]
+
+    def writeJSONFiltered(self, jobject, filter):
+        super(Card, self).writeJSONFiltered(jobject, filter)
+        del jobject[-1][2:]
+
     def sortedPropertyKeyOrder(self):
         return (
             Property_VERSION,
-- 
2.43.0


From ba4f957df46c53b52e3034b6dbdc9a6f7388a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 061/123] fix: vCard properties could not be created with a
 list of texts or a GEO value

---
 src/pycalendar/vcard/property.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 5d9c77d..af84d12 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -18,6 +18,8 @@ from pycalendar import stringutils
 from pycalendar.parameter import Parameter
 from pycalendar.datetime import DateTime
 from pycalendar.exceptions import InvalidProperty
+from pycalendar.geovalue import GeoValue
+from pycalendar.multivalue import MultiValue
 from pycalendar.parser import ParserContext
 from pycalendar.property import PropertyBase
 from pycalendar.utcoffsetvalue import UTCOffsetValue
@@ -326,6 +328,21 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+    def _init_attr_value_text_list(self, textlist):
+        # Value
+        self.mValue = MultiValue(Value.VALUETYPE_TEXT)
+        self.mValue.setValue(textlist)
+
+        # Parameters
+        self.setupValueParameter()
+
+    def _init_attr_value_geo(self, geo):
+        # Value
+        self.mValue = GeoValue(list(geo))
+
+        # Parameters
+        self.setupValueParameter()
+
     def _init_attr_value_org(self, reqstatus):
         # Value
         self.mValue = OrgValue(reqstatus)
-- 
2.43.0


From 4e08d3a54860406cfcbfe0b53b467f264292915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 062/123] fix: vCard properties created with a unicode text had
 no value

---
 src/pycalendar/vcard/property.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index af84d12..5a375bb 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -155,7 +155,9 @@ class Property(PropertyBase):
         if isinstance(value, int):
             self._init_attr_value_int(value)
 
-        elif isinstance(value, str):
+        elif isinstance(value, basestring):
+            if isinstance(value, unicode):
+                value = value.encode("utf-8")
             self._init_attr_value_text(value, valuetype if valuetype else self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_TEXT))
 
         elif isinstance(value, DateTime):
-- 
2.43.0


From 85e022c09c39d9086970b4b855b400272f9d5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 063/123] fix: XML output of characters outside the basic plane
 was not well formed

---
 src/pycalendar/xmlutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index 4c51f59..7d7d72d 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -49,6 +49,6 @@ def toString(root):
                 node.getchildren()[-1].tail = "\n" + " " * level * INDENT
 
     _indentNode(root, 0)
-    data += XML.tostring(root) + "\n"
+    data += XML.tostring(root, "utf-8") + "\n"
 
     return data
-- 
2.43.0


From 1c0511337e6c335153ea7a4beccf7d9fe51059cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 064/123] fix: BOOLEAN and TIME values lost their type in XML

---
 src/pycalendar/property.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index fc37726..6618522 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -430,6 +430,14 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeXML(prop, namespace)
 
+            # Keep the name of a standard type we know nothing else about
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.sValue in self.mParameters:
+                type_name = self.getParameterValue(self.sValue)
+                if type_name.upper() in self.sValueTypeMap:
+                    for child in prop.getchildren():
+                        if child.tag == xmlutils.makeTag(namespace, xmldefinitions.value_unknown):
+                            child.tag = xmlutils.makeTag(namespace, type_name)
+
     @classmethod
     def parseJSON(cls, jobject):
         """
-- 
2.43.0


From b5eb1835c2c87a9a2fe63e87f9fc33a88961bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 065/123] fix: malformed component delimiters, names and JSON
 were accepted as data

---
 src/pycalendar/componentbase.py       |  5 ++++-
 src/pycalendar/containerbase.py       | 10 +++++-----
 src/pycalendar/geovalue.py            |  3 ++-
 src/pycalendar/icalendar/calendar.py  | 19 ++++++++++++++-----
 src/pycalendar/icalendar/component.py |  2 +-
 src/pycalendar/property.py            | 22 ++++++++++++++++++++++
 src/pycalendar/vcard/card.py          |  6 ++++--
 7 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 37ee1af..eb6d632 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -331,7 +331,10 @@ class ComponentBase(object):
 
         try:
             if comp is None:
-                comp = cls.sComponentType.makeComponent(jobject[0].upper(), parent)
+                name = jobject[0].encode("utf-8").upper()
+                if "\r" in name or "\n" in name:
+                    raise InvalidComponent("Invalid component: invalid name", jobject)
+                comp = cls.sComponentType.makeComponent(name, parent)
             for prop in jobject[1]:
                 comp.addProperty(cls.sPropertyType.parseJSON(prop))
             # vCards have no sub-component array
diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 67c409f..b645014 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -132,7 +132,7 @@ class ContainerBase(ComponentBase):
             if state == LOOK_FOR_CONTAINER:
 
                 # Look for start
-                if line == self.getBeginDelimiter():
+                if line.upper() == self.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY_OR_COMPONENT
 
@@ -152,17 +152,17 @@ class ContainerBase(ComponentBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:") and self.sComponentType is not None:
+                if line[:6].upper() == "BEGIN:" and self.sComponentType is not None:
 
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
                     # Start a new component
                     comp = self.sComponentType.makeComponent(line[6:], comp)
-                    compend = comp.getEndDelimiter()
+                    compend = comp.getEndDelimiter().upper()
 
                 # Look for end of object
-                elif line == self.getEndDelimiter():
+                elif line.upper() == self.getEndDelimiter():
 
                     # All components must be complete
                     if componentstack:
@@ -175,7 +175,7 @@ class ContainerBase(ComponentBase):
                     state = LOOK_FOR_CONTAINER
 
                 # Look for end of current component
-                elif line == compend:
+                elif line.upper() == compend:
 
                     # Embed component in parent and reset to use parent
                     comp, compend = self.completeComponent(comp, componentstack, line)
diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 7aab934..9ed3e8b 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -70,7 +70,8 @@ class GeoValue(Value):
         longitude.text = utils.floatToText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
-        self.mValue = jobject
+        latitude, longitude = jobject
+        self.mValue = [float(latitude), float(longitude)]
 
     def writeJSONValue(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 84fef3e..7e58695 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -205,6 +205,11 @@ class Calendar(ContainerBase):
 
         result = super(Calendar, cls).parseJSONContainer(jobject)
 
+        for props in result.getProperties().values():
+            for prop in props:
+                if not result.validProperty(prop):
+                    raise InvalidData("Invalid property", str(prop))
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         from pycalendar.timezonedb import TimezoneDatabase
         TimezoneDatabase.mergeTimezones(result, result.getComponents(definitions.cICalComponent_VTIMEZONE))
@@ -235,7 +240,7 @@ class Calendar(ContainerBase):
             if state == LOOK_FOR_VCALENDAR:
 
                 # Look for start
-                if line == self.getBeginDelimiter():
+                if line.upper() == self.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY_OR_COMPONENT
 
@@ -252,14 +257,14 @@ class Calendar(ContainerBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:"):
+                if line[:6].upper() == "BEGIN:":
 
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
                     # Start a new component
                     comp = self.sComponentType.makeComponent(line[6:], comp)
-                    compend = comp.getEndDelimiter()
+                    compend = comp.getEndDelimiter().upper()
 
                     # Cache as result - but only the first one, we ignore the rest
                     if result is None:
@@ -269,7 +274,7 @@ class Calendar(ContainerBase):
                     if comp.getType() == definitions.cICalComponent_VTIMEZONE:
                         got_timezone = True
 
-                elif line == self.getEndDelimiter():
+                elif line.upper() == self.getEndDelimiter():
 
                     # All components must be complete
                     if componentstack:
@@ -279,7 +284,7 @@ class Calendar(ContainerBase):
                     state = GOT_VCALENDAR
 
                 # Look for end of current component
-                elif line == compend:
+                elif line.upper() == compend:
 
                     # Embed component in parent and reset to use parent
                     comp, compend = self.completeComponent(comp, componentstack, line)
@@ -308,6 +313,10 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..c086016 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -40,7 +40,7 @@ class Component(ComponentBase):
     @classmethod
     def makeComponent(cls, compname, parent):
         try:
-            return cls.mapper[compname](parent=parent)
+            return cls.mapper[compname.upper()](parent=parent)
         except KeyError:
             return cls.mapper[definitions.cICalComponent_UNKNOWN](parent=parent, comptype=compname)
 
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 6618522..5ab2239 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -59,6 +59,9 @@ class PropertyBase(object):
 
     sUsesGroup = False
 
+    # Delimiters that cannot be part of a property, parameter or group name
+    sInvalidNameChars = frozenset(":;,=\"\r\n")
+
     sVariant = "none"   # Used to differentiate different forms of text parsing
 
     sValue = None
@@ -250,6 +253,7 @@ class PropertyBase(object):
 
             # Get the parameters
             txt = prop.parseTextParameters(txt, data)
+            prop.checkNames()
 
             # Tidy first
             prop.mValue = None
@@ -274,6 +278,23 @@ class PropertyBase(object):
         except Exception as e:
             raise InvalidProperty("Invalid property: '{}'".format(e), data)
 
+    def checkNames(self):
+        """
+        The names cannot be written if they contain delimiters, and BEGIN and END are not properties.
+        """
+
+        names = [self.mName] + self.mParameters.keys()
+        if self.sUsesGroup:
+            if self.mGroup:
+                names.append(self.mGroup)
+            if "." in (self.mGroup if self.mGroup else self.mName):
+                raise InvalidProperty("Invalid property: invalid group", self.mName)
+        for name in names:
+            if not name or name[0] in " \t" or self.sInvalidNameChars.intersection(name):
+                raise InvalidProperty("Invalid property: invalid name", name)
+        if self.mName.upper() in ("BEGIN", "END"):
+            raise InvalidProperty("Invalid property: unexpected component delimiter", self.mName)
+
     def parseTextParameters(self, txt, data):
         """
         Parse parameters, return string point at value.
@@ -470,6 +491,7 @@ class PropertyBase(object):
                         continue
                     attrvalue = Parameter(name=name, value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
+            prop.checkNames()
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
             type_name = jobject[2].encode("utf-8").upper()
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 03b30cf..7ae04b6 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -109,7 +109,7 @@ class Card(ContainerBase):
             if state == LOOK_FOR_VCARD:
 
                 # Look for start
-                if line == card.getBeginDelimiter():
+                if line.upper() == card.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY
 
@@ -126,7 +126,7 @@ class Card(ContainerBase):
             elif state == GET_PROPERTY:
 
                 # Look for end of object
-                if line == card.getEndDelimiter():
+                if line.upper() == card.getEndDelimiter():
 
                     # Finalise the current calendar
                     card.finalise()
@@ -174,6 +174,8 @@ class Card(ContainerBase):
             jobjects = json.loads(data)
         except ValueError as e:
             raise InvalidData("JSON error: '{}'".format(e), data)
+        if not isinstance(jobjects, list):
+            raise InvalidData("vCard data not recognized", data)
         results = []
         for jobject in jobjects:
             results.append(cls.parseJSONContainer(jobject))
-- 
2.43.0


From fca23a48afeac14240da7ccb8539157df68e4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 066/123] fix: recurrence rules without FREQ, with repeated
 parts or a zero BYSETPOS were accepted

---
 src/pycalendar/icalendar/recurrence.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f5c19fe..57eaf50 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -338,6 +338,7 @@ class Recurrence(ValueMixin):
         # Tokenise using ''
         tokens = data.split(";")
         tokens.reverse()
+        seen = set()
 
         if len(tokens) == 0:
             raise ValueError("Recurrence: Invalid recurrence rule value")
@@ -354,6 +355,9 @@ class Recurrence(ValueMixin):
             index = Recurrence.cRecurMap.get(tname, Recurrence.cUnknownIndex)
             if index == Recurrence.cUnknownIndex:
                 raise ValueError("Recurrence: Invalid token '%s'" % (tname,))
+            if index in seen:
+                raise ValueError("Recurrence: Only one %s allowed" % (tname,))
+            seen.add(index)
 
             # Parse remainder based on index
             if index == definitions.eRecurrence_FREQ:
@@ -449,7 +453,7 @@ class Recurrence(ValueMixin):
                 if self.mBySetPos is not None:
                     raise ValueError("Recurrence: Only one BYSETPOS allowed")
                 self.mBySetPos = []
-                self.parseList(tvalue, self.mBySetPos, allowNegative=True, errmsg="Recurrence: Invalid BYSETPOS value")
+                self.parseList(tvalue, self.mBySetPos, 1, allowNegative=True, errmsg="Recurrence: Invalid BYSETPOS value")
 
             elif index == definitions.eRecurrence_WKST:
                 index = Recurrence.cWeekdayMap.get(tvalue, Recurrence.cUnknownIndex)
@@ -457,6 +461,10 @@ class Recurrence(ValueMixin):
                     raise ValueError("Recurrence: Invalid WKST value")
                 self.mWeekstart = index
 
+        # Must have FREQ
+        if definitions.eRecurrence_FREQ not in seen:
+            raise ValueError("Recurrence: Missing FREQ")
+
     def parseList(self, txt, list, min=None, max=None, allowNegative=False, errmsg=""):
 
         if "," in txt:
-- 
2.43.0


From 6a9046ddf29d886052998c94ca6568d04cfacaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 067/123] fix: a VALUE parameter given on properties with a
 special value type was dropped, and errors about non-ASCII JSON could not be
 printed

---
 src/pycalendar/exceptions.py | 3 ++-
 src/pycalendar/property.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/exceptions.py b/src/pycalendar/exceptions.py
index 6fe5a6a..612d2e5 100644
--- a/src/pycalendar/exceptions.py
+++ b/src/pycalendar/exceptions.py
@@ -22,7 +22,8 @@ class ErrorBase(Exception):
         self.mData = data
 
     def __str__(self):
-        return "{}: {}".format(self.mReason, self.mData) if self.mData else self.mReason
+        data = self.mData.encode("utf-8") if isinstance(self.mData, unicode) else self.mData
+        return "{}: {}".format(self.mReason, data) if self.mData else self.mReason
 
 
 class InvalidData(ErrorBase):
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 5ab2239..0245775 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -646,7 +646,7 @@ class PropertyBase(object):
         # then always add VALUE if it is not TEXT. Always add the value if listed in the
         # C{sAlwaysValueTypes} attribute.
         default_type = self.sDefaultValueTypeMap.get(self.mName.upper())
-        if self.mName.upper() in self.sSpecialVariants:
+        if self.sSpecialVariants.get(self.mName.upper()) == self.mValue.getType():
             actual_type = default_type
         else:
             actual_type = self.mValue.getType()
-- 
2.43.0


From fdf64d21c41296b1406f34afb8014a4c9aa1f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 068/123] fix: JSON with empty parameter lists or wrong
 REQUEST-STATUS values was accepted but could not be written

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 ++
 src/pycalendar/property.py                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index b78ca3f..7413f78 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -90,6 +90,8 @@ class RequestStatusValue(Value):
             data.text = xmlutils.makeText(self.mValue[2])
 
     def parseJSONValue(self, jobject):
+        if not isinstance(jobject, list) or len(jobject) not in (2, 3):
+            raise ValueError("RequestStatus: wrong number of value components")
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
 
     def writeJSONValue(self, jobject):
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 0245775..215116d 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -482,6 +482,8 @@ class PropertyBase(object):
                     # Now add parameter value
                     name = name.upper().encode("utf-8")
                     if isinstance(value, list):
+                        if not value:
+                            raise InvalidProperty("Invalid property: empty parameter value", name)
                         value = [item.encode("utf-8") for item in value]
                     else:
                         value = value.encode("utf-8")
-- 
2.43.0


From e8d717057442ffa3e6339f4723e12567fad32ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 069/123] fix: offsets and times with signs in their fields,
 offsets out of range and infinite numbers were accepted

---
 src/pycalendar/datetime.py       |  5 ++++-
 src/pycalendar/floatvalue.py     |  4 ++--
 src/pycalendar/geovalue.py       |  6 +++---
 src/pycalendar/utcoffsetvalue.py |  3 +++
 src/pycalendar/utils.py          | 10 ++++++++++
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 3201f51..80d2e30 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -911,6 +911,7 @@ class DateTime(ValueMixin):
 
     def parseTime(self, data, index, fullISO):
         # Get hours
+        start = index
         self.mHours = int(data[index:index + 2])
         index += 2
         if fullISO and data[index] == ":":
@@ -927,7 +928,7 @@ class DateTime(ValueMixin):
         index += 2
 
         # Seconds may be 60 in a leap second
-        if not (0 <= self.mHours <= 23 and 0 <= self.mMinutes <= 59 and 0 <= self.mSeconds <= 60):
+        if '+' in data[start:index] or not (0 <= self.mHours <= 23 and 0 <= self.mMinutes <= 59 and 0 <= self.mSeconds <= 60):
             raise ValueError("DateTime: invalid time components")
 
         return index
@@ -964,6 +965,8 @@ class DateTime(ValueMixin):
                 # Get minutes
                 minutes_offset = int(data[index:index + 2])
                 index += 2
+                if not 0 <= hours_offset <= 23 or not 0 <= minutes_offset <= 59:
+                    raise ValueError("DateTime: invalid TZ offset")
 
                 self.mTZID = sign * (hours_offset * 60 + minutes_offset) * 60
 
diff --git a/src/pycalendar/floatvalue.py b/src/pycalendar/floatvalue.py
index 2f09cdc..24dcfb4 100644
--- a/src/pycalendar/floatvalue.py
+++ b/src/pycalendar/floatvalue.py
@@ -32,7 +32,7 @@ class FloatValue(Value):
         return Value.VALUETYPE_FLOAT
 
     def parse(self, data, variant):
-        self.mValue = float(data)
+        self.mValue = utils.toFloat(data)
 
     # os - StringIO object
     def generate(self, os):
@@ -46,7 +46,7 @@ class FloatValue(Value):
         value.text = utils.floatToText(self.mValue)
 
     def parseJSONValue(self, jobject):
-        self.mValue = float(jobject)
+        self.mValue = utils.toFloat(jobject)
 
     def writeJSONValue(self, jobject):
         jobject.append(self.mValue)
diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 9ed3e8b..206a8da 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -47,11 +47,11 @@ class GeoValue(Value):
         if len(splits) != 2:
             raise InvalidData("GEO value incorrect", data)
         try:
-            self.mValue = [float(splits[0]), float(splits[1])]
+            self.mValue = [utils.toFloat(splits[0]), utils.toFloat(splits[1])]
         except ValueError:
             if splits[0][-1] == '\\':
                 try:
-                    self.mValue = [float(splits[0][:-1]), float(splits[1])]
+                    self.mValue = [utils.toFloat(splits[0][:-1]), utils.toFloat(splits[1])]
                 except ValueError:
                     raise InvalidData("GEO value incorrect", data)
             else:
@@ -71,7 +71,7 @@ class GeoValue(Value):
 
     def parseJSONValue(self, jobject):
         latitude, longitude = jobject
-        self.mValue = [float(latitude), float(longitude)]
+        self.mValue = [utils.toFloat(latitude), utils.toFloat(longitude)]
 
     def writeJSONValue(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 337aa50..d113b35 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -60,6 +60,9 @@ class UTCOffsetValue(Value):
             index = 7 if fullISO else 5
             secs = int(data[index:])
 
+        if not data[1:].replace(":", "").isdigit() or hours > 23 or mins > 59 or secs > 59:
+            raise ValueError("UTCOffset: invalid components")
+
         self.mValue = ((hours * 60) + mins) * 60 + secs
         if not plus:
             self.mValue = -self.mValue
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 080c461..9ee053c 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -340,6 +340,16 @@ def generateDoubleNestedList(os, data):
         pass
 
 
+def toFloat(value):
+    """
+    A number - Python accepts more than FLOAT values can have.
+    """
+    result = float(value)
+    if result != result or result in (float("inf"), float("-inf")):
+        raise ValueError("Float: not a number")
+    return result
+
+
 def floatToText(value):
     """
     All of the digits of a number, and never the exponent form which is not allowed in
-- 
2.43.0


From 407ca90a50a493604d758d161efda042e8f0f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 070/123] fix: dates and times with the last digit missing were
 read as different ones

---
 src/pycalendar/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 80d2e30..b2e4560 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -901,6 +901,8 @@ class DateTime(ValueMixin):
         self.mDay = int(data[index:index + 2])
         index += 2
 
+        if index > len(data):
+            raise ValueError("DateTime: incomplete date")
         if ' ' in data[:index] and ParserContext.INVALID_DATETIME_LEADINGSPACE == ParserContext.PARSER_RAISE:
             raise ValueError("DateTime: spaces not allowed at start")
         if self.mYear < 0 or self.mMonth < 0 or self.mDay < 0:
@@ -927,6 +929,8 @@ class DateTime(ValueMixin):
         self.mSeconds = int(data[index:index + 2])
         index += 2
 
+        if index > len(data):
+            raise ValueError("DateTime: incomplete time")
         # Seconds may be 60 in a leap second
         if '+' in data[start:index] or not (0 <= self.mHours <= 23 and 0 <= self.mMinutes <= 59 and 0 <= self.mSeconds <= 60):
             raise ValueError("DateTime: invalid time components")
-- 
2.43.0


From 1a18cb39abdccdcf9f0a53ced76c352e3c909582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 071/123] fix: parser settings that allow an invalid escape
 keep it, allRaise covers leading spaces

---
 src/pycalendar/parser.py | 1 +
 src/pycalendar/utils.py  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/pycalendar/parser.py b/src/pycalendar/parser.py
index 7ce1509..f554e8b 100644
--- a/src/pycalendar/parser.py
+++ b/src/pycalendar/parser.py
@@ -75,6 +75,7 @@ class ParserContext(object):
         ParserContext.BLANK_LINES_IN_DATA = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_NO_PARAMETER_VALUES = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_BASE64 = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_LEADINGSPACE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_ADR_N_VALUES = ParserContext.PARSER_RAISE
         ParserContext.INVALID_REQUEST_STATUS_VALUE = ParserContext.PARSER_RAISE
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 9ee053c..5fa6127 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -170,12 +170,16 @@ def decodeTextValue(value):
                     raise ValueError("TextValue: '\\:' not allowed")
                 elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_FIX:
                     os.write(':')
+                elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_ALLOW:
+                    os.write('\\:')
 
             # Other escaped chars normally not allowed
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_RAISE:
                 raise ValueError("TextValue: '\\{}' not allowed".format(c))
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_FIX:
                 os.write(c)
+            elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_ALLOW:
+                os.write('\\' + c)
 
             # Bump past escapee and look for next segment (not past the end)
             start_pos = end_pos + 1
-- 
2.43.0


From a3471df995c9ac95570810f4cd12038bb14d9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 072/123] fix: duplicates equal their originals and share
 nothing with them

---
 src/pycalendar/icalendar/calendar.py       |  6 ++++++
 src/pycalendar/icalendar/componentrecur.py |  2 +-
 src/pycalendar/icalendar/property.py       |  3 ++-
 src/pycalendar/icalendar/recurrence.py     | 16 ++++++++--------
 src/pycalendar/icalendar/valarm.py         |  5 ++++-
 src/pycalendar/vcard/adr.py                |  4 +++-
 src/pycalendar/vcard/n.py                  |  4 +++-
 src/pycalendar/vcard/property.py           |  3 ++-
 8 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 7e58695..d430402 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -86,6 +86,12 @@ class Calendar(ContainerBase):
         other = super(Calendar, self).duplicate()
         other.mName = self.mName
         other.mDescription = self.mDescription
+
+        # Masters within this calendar are replaced by their duplicates
+        duplicates = dict([(id(old), new) for old, new in zip(self.mComponents, other.mComponents)])
+        for component in other.mComponents:
+            if isinstance(component, ComponentRecur):
+                component.mMaster = duplicates.get(id(component.mMaster), component.mMaster)
         return other
 
     def getType(self):
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index cb9f2c5..b9c5d45 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -100,7 +100,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
 
diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 5db58db..8043de4 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -234,7 +234,8 @@ class Property(PropertyBase):
         other = Property(self.mName)
         for attrname, attrs in self.mParameters.items():
             other.mParameters[attrname] = [i.duplicate() for i in attrs]
-        other.mValue = self.mValue.duplicate()
+        if self.mValue is not None:
+            other.mValue = self.mValue.duplicate()
 
         return other
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 57eaf50..2019733 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -731,11 +731,11 @@ class Recurrence(ValueMixin):
             jdict[xmldefinitions.recur_interval] = self.mInterval
 
         if self.mBySeconds:
-            jdict[xmldefinitions.recur_bysecond] = self.mBySeconds
+            jdict[xmldefinitions.recur_bysecond] = self.mBySeconds[:]
         if self.mByMinutes:
-            jdict[xmldefinitions.recur_byminute] = self.mByMinutes
+            jdict[xmldefinitions.recur_byminute] = self.mByMinutes[:]
         if self.mByHours:
-            jdict[xmldefinitions.recur_byhour] = self.mByHours
+            jdict[xmldefinitions.recur_byhour] = self.mByHours[:]
 
         if self.mByDay is not None and len(self.mByDay) != 0:
             items = []
@@ -748,15 +748,15 @@ class Recurrence(ValueMixin):
             jdict[xmldefinitions.recur_byday] = items
 
         if self.mByMonthDay:
-            jdict[xmldefinitions.recur_bymonthday] = self.mByMonthDay
+            jdict[xmldefinitions.recur_bymonthday] = self.mByMonthDay[:]
         if self.mByYearDay:
-            jdict[xmldefinitions.recur_byyearday] = self.mByYearDay
+            jdict[xmldefinitions.recur_byyearday] = self.mByYearDay[:]
         if self.mByWeekNo:
-            jdict[xmldefinitions.recur_byweekno] = self.mByWeekNo
+            jdict[xmldefinitions.recur_byweekno] = self.mByWeekNo[:]
         if self.mByMonth:
-            jdict[xmldefinitions.recur_bymonth] = self.mByMonth
+            jdict[xmldefinitions.recur_bymonth] = self.mByMonth[:]
         if self.mBySetPos:
-            jdict[xmldefinitions.recur_bysetpos] = self.mBySetPos
+            jdict[xmldefinitions.recur_bysetpos] = self.mBySetPos[:]
 
         # MO is the default so we do not need it
         if self.mWeekstart != definitions.eRecurrence_WEEKDAY_MO:
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..1f2d739 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -181,7 +181,7 @@ class VAlarm(Component):
             self.mAttendees = attendees
 
         def duplicate(self):
-            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees)
+            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees[:] if self.mAttendees is not None else None)
 
         def load(self, valarm):
             # Get properties
@@ -356,6 +356,9 @@ class VAlarm(Component):
         other.mDoneCount = self.mDoneCount
 
         other.mActionData = self.mActionData.duplicate()
+
+        if hasattr(self, "mMapKey"):
+            other.mMapKey = self.mMapKey
         return other
 
     def getType(self):
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 1e54999..fb50dee 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -40,7 +40,9 @@ class Adr(ValueMixin):
         self.mValue = (pobox, extended, street, locality, region, postalcode, country)
 
     def duplicate(self):
-        return Adr(*self.mValue)
+        other = Adr()
+        other.mValue = self.mValue
+        return other
 
     def __hash__(self):
         return hash(self.mValue)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index c5cadc8..23e0a0c 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -38,7 +38,9 @@ class N(ValueMixin):
         self.mValue = (last, first, middle, prefix, suffix)
 
     def duplicate(self):
-        return N(*self.mValue)
+        other = N()
+        other.mValue = self.mValue
+        return other
 
     def __hash__(self):
         return hash(self.mValue)
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 5a375bb..8d1236d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -185,7 +185,8 @@ class Property(PropertyBase):
         other = Property(self.mGroup, self.mName)
         for attrname, attrs in self.mParameters.items():
             other.mParameters[attrname] = [i.duplicate() for i in attrs]
-        other.mValue = self.mValue.duplicate()
+        if self.mValue is not None:
+            other.mValue = self.mValue.duplicate()
 
         return other
 
-- 
2.43.0


From 4c84f74b13bdf3efde136ff8635c08ecf064076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 073/123] fix: very large durations and intervals are added
 without counting off months one by one

---
 src/pycalendar/datetime.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index b2e4560..9b10319 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1103,7 +1103,28 @@ class DateTime(ValueMixin):
         self.mMonth = normalised_month
         self.mYear += adjustment_year
 
-        # Now do days
+        # Now do days. Use whole cycles of leap years first, so that large numbers of days need not be counted off
+        # month by month (4 years of 1461 days up to 1752, 400 years of 146097 days from 1753 on).
+        if self.mDay > 146097 or self.mDay < -146097:
+            if self.mDay > 0:
+                if self.mYear <= 1752:
+                    cycles = min(self.mDay / 1461, (1752 - self.mYear) / 4)
+                    self.mYear += 4 * cycles
+                    self.mDay -= 1461 * cycles
+                if self.mYear > 1752:
+                    cycles = self.mDay / 146097
+                    self.mYear += 400 * cycles
+                    self.mDay -= 146097 * cycles
+            else:
+                if self.mYear > 1752:
+                    cycles = min(-self.mDay / 146097, (self.mYear - 1753) / 400)
+                    self.mYear -= 400 * cycles
+                    self.mDay += 146097 * cycles
+                if self.mYear <= 1752:
+                    cycles = -self.mDay / 1461
+                    self.mYear -= 4 * cycles
+                    self.mDay += 1461 * cycles
+
         if self.mDay > 0:
             while self.mDay > utils.daysInMonth(self.mMonth, self.mYear):
                 self.mDay -= utils.daysInMonth(self.mMonth, self.mYear)
-- 
2.43.0


From f03e10689943ac1ba0cbff8a14d7d534d3b28a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 074/123] fix: rules for dates without a time ignore times of
 day and always end

---
 src/pycalendar/icalendar/recurrence.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 2019733..155028f 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -875,8 +875,15 @@ class Recurrence(ValueMixin):
             self.mCached = False
             self.mFullyCached = False
 
+            # Dates without a time never advance with a frequency of less than a day, so there is only the start
+            if start.isDateOnly() and self.mFreq in (
+                definitions.eRecurrence_SECONDLY, definitions.eRecurrence_MINUTELY, definitions.eRecurrence_HOURLY,
+            ):
+                self.mRecurrences.append(start.duplicate())
+                self.mFullyCached = True
+
             # Simple expansion is one where there is no BYXXX rule part
-            if not self.hasBy():
+            elif not self.hasBy():
                 self.mFullyCached = self.simpleExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
             else:
                 self.mFullyCached = self.complexExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
@@ -1527,6 +1534,11 @@ class Recurrence(ValueMixin):
         # Loop over all input items
         output = []
         for iter1 in dates:
+            # BYHOUR is ignored for dates without a time
+            if iter1.isDateOnly():
+                output.append(iter1)
+                continue
+
             # Loop over each BYHOUR and generating a new date-time for it and
             # insert into output
             for iter2 in self.mByHours:
@@ -1540,6 +1552,11 @@ class Recurrence(ValueMixin):
         # Loop over all input items
         output = []
         for iter1 in dates:
+            # BYMINUTE is ignored for dates without a time
+            if iter1.isDateOnly():
+                output.append(iter1)
+                continue
+
             # Loop over each BYMINUTE and generating a new date-time for it and
             # insert into output
             for iter2 in self.mByMinutes:
@@ -1553,6 +1570,11 @@ class Recurrence(ValueMixin):
         # Loop over all input items
         output = []
         for iter1 in dates:
+            # BYSECOND is ignored for dates without a time
+            if iter1.isDateOnly():
+                output.append(iter1)
+                continue
+
             # Loop over each BYSECOND and generating a new date-time for it and
             # insert into output
             for iter2 in self.mBySeconds:
-- 
2.43.0


From 674b92dc982527682984aab7b21ef6e7ee516da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 075/123] fix: timezone offsets of dates after the year 9999 do
 not expand onsets for every year

---
 src/pycalendar/icalendar/vtimezone.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 865ce7a..b04d527 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -149,6 +149,7 @@ class VTimezone(Component):
         # item
         temp = dt.duplicate()
         temp.setTimezoneID(None)
+        VTimezone.limitYear(temp)
 
         # Check whether we need to recache
         if self.mCachedExpandAllMaxYear is None or temp.mYear >= self.mCachedExpandAllMaxYear:
@@ -183,6 +184,15 @@ class VTimezone(Component):
 
         return 0
 
+    @staticmethod
+    def limitYear(dt):
+        """
+        The calendar repeats every 400 years, so move dates in years that cannot be written in iCalendar back to an
+        equivalent one, rather than expanding the onsets of an unlimited number of years.
+        """
+        if dt.getYear() > 9999:
+            dt.setYear(9600 + dt.getYear() % 400)
+
     def getTimezoneDescriptor(self, dt):
         result = ""
 
@@ -240,6 +250,7 @@ class VTimezone(Component):
         # item
         temp = dt.duplicate()
         temp.setTimezoneID(None)
+        VTimezone.limitYear(temp)
 
         # Had to rework this because some VTIMEZONEs have sub-components where the DST instances are interleaved. That
         # means we have to evaluate each and every sub-component to find the instance immediately less than the time we are checking.
-- 
2.43.0


From 0fe30b92dac540ca53b0191fb11dab6caa61c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 076/123] fix: a rule never gives an instance twice

---
 src/pycalendar/icalendar/recurrence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 155028f..29a6765 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1014,6 +1014,10 @@ class Recurrence(ValueMixin):
                 if (ctr == 1) and (start == iter):
                     continue
 
+                # Ignore one that was already picked in an earlier period
+                if len(items) != 0 and iter <= items[-1]:
+                    continue
+
                 # Add current one to list
                 items.append(iter)
                 if maxInstances and len(items) > maxInstances:
-- 
2.43.0


From e1b18b83a6e96b085dd419a84f18d8f5ff6ef296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 077/123] fix: BYWEEKNO weeks that start at the edge of a year
 were missed

---
 src/pycalendar/icalendar/recurrence.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 29a6765..3a9c628 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1030,8 +1030,12 @@ class Recurrence(ValueMixin):
                     if ctr >= self.mCount:
                         return True
 
-            # Exit if after period we want
-            if range.isDateAfterPeriod(start_iter):
+            # Exit if after period we want (the first week of a year can start before that year does)
+            exit_iter = start_iter
+            if self.mByWeekNo and self.mFreq == definitions.eRecurrence_YEARLY:
+                exit_iter = start_iter.duplicate()
+                exit_iter.offsetDay(-7)
+            if range.isDateAfterPeriod(exit_iter):
                 return False
 
             # Get next item
@@ -1426,6 +1430,12 @@ class Recurrence(ValueMixin):
                 weekno = iter2 if iter2 > 0 else weeks_in_year + 1 + iter2
                 if weekno < 1 or weekno > weeks_in_year:
                     continue
+
+                # Dates at the edge of the year can be in a week of another one, so move those to one that is not
+                if temp.getMonth() == 1:
+                    temp.offsetDay(7)
+                elif temp.getMonth() == 12:
+                    temp.offsetDay(-7)
                 temp.setWeekNo(weekno)
                 output.append(temp)
 
-- 
2.43.0


From c7957dcf901e0fb391cf70c8216e9c26df0bf034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 078/123] fix: instances that are given twice count once for
 the limit on instances

---
 src/pycalendar/icalendar/recurrenceset.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 804bb26..a2f522e 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -188,21 +188,19 @@ class RecurrenceSet(object):
         for iter in self.mRdates:
             if range.isDateWithinPeriod(iter):
                 include.append(iter.duplicate())
-                if maxInstances and len(include) > maxInstances:
-                    raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
         for iter in self.mRperiods:
             if range.isPeriodOverlap(iter):
                 include.append(iter.getStart().duplicate())
-                if maxInstances and len(include) > maxInstances:
-                    raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
 
         # Make sure the list is unique
         include = [x for x in set(include)]
         include.sort(key=lambda x: x.getPosixTime())
+        if maxInstances and len(include) > maxInstances:
+            raise TooManyInstancesError("Too many instances")
 
         # Now create list of items to exclude. Note that an included period might start before the range
         exclude = []
-- 
2.43.0


From 3d873f1d6aa616056878c6f5744731c3e597a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 079/123] fix: equality of properties and parameters no longer
 depends on the order or grouping of parameter values

---
 src/pycalendar/icalendar/property.py |  8 ++++++--
 src/pycalendar/parameter.py          |  4 ++--
 src/pycalendar/property.py           | 10 ++++++++++
 src/pycalendar/vcard/property.py     |  4 ++--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 8043de4..0ed412b 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -242,14 +242,18 @@ class Property(PropertyBase):
     def __hash__(self):
         return hash((
             self.mName,
-            tuple([tuple(self.mParameters[attrname]) for attrname in sorted(self.mParameters.keys())]),
+            self._comparableParameters(),
             self.mValue,
         ))
 
     def __eq__(self, other):
         if not isinstance(other, Property):
             return False
-        return self.mName == other.mName and self.mValue == other.mValue and self.mParameters == other.mParameters
+        return (
+            self.mName == other.mName and
+            self.mValue == other.mValue and
+            self._comparableParameters() == other._comparableParameters()
+        )
 
     def getRecurrenceValue(self):
 
diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 212e77c..be81d8b 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -42,7 +42,7 @@ class Parameter(object):
         return other
 
     def __hash__(self):
-        return hash((self.mName.upper(), tuple(self.mValues)))
+        return hash((self.mName.upper(), tuple(sorted(self.mValues))))
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -50,7 +50,7 @@ class Parameter(object):
     def __eq__(self, other):
         if not isinstance(other, Parameter):
             return False
-        return self.mName.upper() == other.mName.upper() and self.mValues == other.mValues
+        return self.mName.upper() == other.mName.upper() and sorted(self.mValues) == sorted(other.mValues)
 
     def getName(self):
         return self.mName
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 215116d..16fc40c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -103,6 +103,16 @@ class PropertyBase(object):
     def __eq__(self, other):
         raise NotImplementedError
 
+    def _comparableParameters(self):
+        """
+        The parameters with all the values of each, in an order that does not depend on how they were written.
+        """
+
+        return tuple([
+            (attrname, tuple(sorted([value for attr in self.mParameters[attrname] for value in attr.getValues()])))
+            for attrname in sorted(self.mParameters.keys())
+        ])
+
     def __repr__(self):
         return "Property: %s" % (self.getText(),)
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 8d1236d..1bfa17d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -194,7 +194,7 @@ class Property(PropertyBase):
         return hash((
             self.mGroup,
             self.mName,
-            tuple([tuple(self.mParameters[attrname]) for attrname in sorted(self.mParameters.keys())]),
+            self._comparableParameters(),
             self.mValue,
         ))
 
@@ -205,7 +205,7 @@ class Property(PropertyBase):
             self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
-            self.mParameters == other.mParameters
+            self._comparableParameters() == other._comparableParameters()
         )
 
     def parseTextParameters(self, txt, data):
-- 
2.43.0


From fe790dba9f1ac70d634c014f3c7822b690acfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 080/123] fix: components that differ only in how often a
 property occurs are not equal

---
 src/pycalendar/componentbase.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index eb6d632..3636f64 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -148,13 +148,18 @@ class ComponentBase(object):
         return ()
 
     def compareProperties(self, other):
-        mine = set()
-        for props in self.mProperties.values():
-            mine.update(props)
-        theirs = set()
-        for props in other.mProperties.values():
-            theirs.update(props)
-        return mine == theirs
+        if set(self.mProperties.keys()) != set(other.mProperties.keys()):
+            return False
+        for propname, props in self.mProperties.items():
+            # The same properties, each of them as many times, in any order
+            theirs = list(other.mProperties[propname])
+            if len(props) != len(theirs):
+                return False
+            for prop in props:
+                if prop not in theirs:
+                    return False
+                theirs.remove(prop)
+        return True
 
     def getProperties(self, propname=None):
         return self.mProperties.get(propname.upper(), []) if propname else self.mProperties
-- 
2.43.0


From 96e85ade6395c3f4c0f083777d556d97c18271cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 081/123] fix: property values with dates, floating and UTC
 times are not equal to each other

---
 src/pycalendar/datetime.py             |  6 ++++++
 src/pycalendar/datetimevalue.py        |  6 ++++++
 src/pycalendar/icalendar/recurrence.py |  3 ++-
 src/pycalendar/periodvalue.py          | 10 ++++++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 9b10319..ddf8c30 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -219,6 +219,12 @@ class DateTime(ValueMixin):
         else:
             return cmp(self.getPosixTime(), comp.getPosixTime())
 
+    def isSame(self, comp):
+        """
+        Same form as well as same time: a date is not its midnight, nor is a floating time the same as a UTC time.
+        """
+        return self == comp and self.mDateOnly == comp.mDateOnly and (self.mDateOnly or self.mTZUTC == comp.mTZUTC and self.mTZID == comp.mTZID)
+
     def compareDate(self, comp):
         return (self.mYear == comp.mYear) and (self.mMonth == comp.mMonth) and (self.mDay == comp.mDay)
 
diff --git a/src/pycalendar/datetimevalue.py b/src/pycalendar/datetimevalue.py
index cd502f8..604c115 100644
--- a/src/pycalendar/datetimevalue.py
+++ b/src/pycalendar/datetimevalue.py
@@ -28,6 +28,12 @@ class DateTimeValue(WrapperValue, Value):
     def getType(self):
         return (Value.VALUETYPE_DATETIME, Value.VALUETYPE_DATE)[self.mValue.isDateOnly()]
 
+    # The hash of the base class goes with this too
+    __hash__ = Value.__hash__
+
+    def __eq__(self, other):
+        return super(DateTimeValue, self).__eq__(other) and self.mValue.isSame(other.getValue())
+
     def parse(self, data, variant):
         self.mValue.parse(data, fullISO=(variant == "vcard"))
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3a9c628..ca6f2aa 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -201,7 +201,8 @@ class Recurrence(ValueMixin):
         return (
             (self.mFreq == comp.mFreq) and
             (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (self.mUntil == comp.mUntil) and
+            (self.mUseUntil == comp.mUseUntil) and
+            (self.mUntil.isSame(comp.mUntil) if self.mUntil is not None and comp.mUntil is not None else self.mUntil is comp.mUntil) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
diff --git a/src/pycalendar/periodvalue.py b/src/pycalendar/periodvalue.py
index 99bd447..145fdde 100644
--- a/src/pycalendar/periodvalue.py
+++ b/src/pycalendar/periodvalue.py
@@ -25,4 +25,14 @@ class PeriodValue(WrapperValue, Value):
     _wrappedClass = Period
     _wrappedType = Value.VALUETYPE_PERIOD
 
+    # The hash of the base class goes with this too
+    __hash__ = Value.__hash__
+
+    def __eq__(self, other):
+        return (
+            super(PeriodValue, self).__eq__(other) and
+            self.mValue.getStart().isSame(other.getValue().getStart()) and
+            self.mValue.getEnd().isSame(other.getValue().getEnd())
+        )
+
 Value.registerType(Value.VALUETYPE_PERIOD, PeriodValue, xmldefinitions.value_period)
-- 
2.43.0


From e508d765e2fe91a0570ec0e47ccc702358cb35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 082/123] fix: vCard value type utc-offset was spelled wrong

---
 src/pycalendar/vcard/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/definitions.py b/src/pycalendar/vcard/definitions.py
index 17b86aa..ddc6c14 100644
--- a/src/pycalendar/vcard/definitions.py
+++ b/src/pycalendar/vcard/definitions.py
@@ -77,7 +77,7 @@ Value_INTEGER = "INTEGER"
 Value_TEXT = "TEXT"
 Value_TIME = "TIME"
 Value_URI = "URI"
-Value_UTCOFFSET = "UTCOFFSET"
+Value_UTCOFFSET = "UTC-OFFSET"
 Value_VCARD = "VCARD"
 
 Parameter_ENCODING = "ENCODING"
-- 
2.43.0


From e8268d2dec6ea30e3a1128ab1a51b88a36393c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 083/123] fix: timezone files are looked up inside the timezone
 directory only, however that is spelled

---
 src/pycalendar/timezonedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..55d343a 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
-        tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        # The file must be inside the directory, however that is spelled
+        dbpath = os.path.abspath(self.dbpath)
+        tzpath = os.path.abspath(os.path.join(dbpath, "%s.ics" % (tzid,)))
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From f06dbc0fefc02d4b52cb55b8f1fb91d1da49be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 084/123] fix: a timezone file with an invalid property is no
 timezone, as other invalid files

---
 src/pycalendar/timezonedb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55d343a..6292270 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -15,7 +15,7 @@
 ##
 
 from pycalendar.exceptions import NoTimezoneInDatabase, \
-    InvalidData
+    ErrorBase
 import os
 
 
@@ -121,7 +121,7 @@ class TimezoneDatabase(object):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-            except (IOError, InvalidData):
+            except (IOError, ErrorBase):
                 raise NoTimezoneInDatabase(self.dbpath, tzid)
         else:
             raise NoTimezoneInDatabase(self.dbpath, tzid)
-- 
2.43.0


From 9301dfc1905c506d5090adc54663487edb9fdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 085/123] fix: timezones used by lists of dates, periods,
 calendar properties and sub-components are included in output

---
 src/pycalendar/icalendar/calendar.py      |  5 ++++-
 src/pycalendar/icalendar/component.py     | 12 ++++++------
 src/pycalendar/icalendar/property.py      | 16 ++++++++++++++++
 src/pycalendar/icalendar/vavailability.py | 13 -------------
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index d430402..93a547b 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -680,8 +680,11 @@ class Calendar(ContainerBase):
         if includeTimezones is None:
             includeTimezones = Calendar.NONSTD_TIMEZONES
 
-        # Get timezone names from each component
+        # Get timezone names from each property and component
         tzids = set()
+        for props in self.mProperties.itervalues():
+            for prop in props:
+                prop.getTimezones(tzids)
         for component in self.mComponents:
             if component.getType() != definitions.cICalComponent_VTIMEZONE:
                 component.getTimezones(tzids)
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index c086016..4860a71 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -181,11 +181,11 @@ class Component(ComponentBase):
         # Look for all date-time properties
         for props in self.mProperties.itervalues():
             for prop in props:
-                # Try to get a date-time value from the property
-                dtv = prop.getDateTimeValue()
-                if dtv is not None:
-                    # Add timezone id if appropriate
-                    if dtv.getValue().getTimezoneID():
-                        tzids.add(dtv.getValue().getTimezoneID())
+                # Add timezone ids if appropriate
+                prop.getTimezones(tzids)
+
+        # Look in all sub-components
+        for component in self.mComponents:
+            component.getTimezones(tzids)
 
 Component.sComponentType = Component
diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 0ed412b..142552c 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -255,6 +255,22 @@ class Property(PropertyBase):
             self._comparableParameters() == other._comparableParameters()
         )
 
+    def getTimezones(self, tzids):
+        """
+        Add the timezone ids used by any date-time or period value of this property.
+
+        @param tzids: result to report back
+        @type tzids: L{set}
+        """
+        for value in self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,):
+            if isinstance(value, DateTimeValue):
+                dts = (value.getValue(),)
+            elif isinstance(value, PeriodValue):
+                dts = (value.getValue().getStart(), value.getValue().getEnd(),)
+            else:
+                dts = ()
+            tzids.update([dt.getTimezoneID() for dt in dts if dt.getTimezoneID()])
+
     def getRecurrenceValue(self):
 
         if isinstance(self.mValue, RecurrenceValue):
diff --git a/src/pycalendar/icalendar/vavailability.py b/src/pycalendar/icalendar/vavailability.py
index 0f386f6..589a56c 100644
--- a/src/pycalendar/icalendar/vavailability.py
+++ b/src/pycalendar/icalendar/vavailability.py
@@ -100,17 +100,4 @@ class VAvailability(Component):
             definitions.cICalProperty_DTEND,
         )
 
-    def getTimezones(self, tzids):
-        """
-        In addition to looking in the VAVAILABILITY component, we must also return any TZIDs used
-        in AVAILABLE child components.
-
-        @param tzids: result to report back
-        @type tzids: L{set}
-        """
-
-        super(VAvailability, self).getTimezones(tzids)
-        for available in self.getComponents(definitions.cICalComponent_AVAILABLE):
-            available.getTimezones(tzids)
-
 Component.registerComponent(definitions.cICalComponent_VAVAILABILITY, VAvailability)
-- 
2.43.0


From 3c8be02d0392d5d14b10ce184cee21433e1d53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 086/123] fix: two DTSTART properties in a VEVENT are a problem
 to validation

---
 src/pycalendar/icalendar/vevent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..7747aa2 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -33,6 +33,7 @@ class VEvent(ComponentRecur):
         definitions.cICalProperty_CLASS,
         definitions.cICalProperty_CREATED,
         definitions.cICalProperty_DESCRIPTION,
+        definitions.cICalProperty_DTSTART,
         definitions.cICalProperty_GEO,
         definitions.cICalProperty_LAST_MODIFIED,
         definitions.cICalProperty_LOCATION,
-- 
2.43.0


From f8d716d8f160b229e131bf134d70fabe244fb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 087/123] fix: zone end dates understand every last<day> and
 <day>>=<n>

---
 src/zonal/zone.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..b8b1218 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -371,21 +371,14 @@ class ZoneRule(object):
                 if len(splits) > 1 and not splits[1].startswith("#"):
                     month = int(rule.Rule.MONTH_NAME_TO_POS[splits[1]])
                     if len(splits) > 2 and not splits[2].startswith("#"):
-                        if splits[2] == "lastSun":
+                        if splits[2] in rule.Rule.LASTDAY_NAME_TO_DAY:
                             dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SUNDAY)
+                            dt.setDayOfWeekInMonth(-1, rule.Rule.LASTDAY_NAME_TO_DAY[splits[2]])
                             splits[2] = dt.getDay()
-                        elif splits[2] == "lastSat":
+                        elif ">=" in splits[2]:
+                            dayname, dayoffset = splits[2].split(">=")
                             dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SATURDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=1":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=8":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(8, DateTime.SUNDAY)
+                            dt.setNextDayOfWeek(int(dayoffset), rule.Rule.DAY_NAME_TO_DAY[dayname])
                             splits[2] = dt.getDay()
                         day = int(splits[2])
                         if len(splits) > 3 and not splits[3].startswith("#"):
-- 
2.43.0


From 229d9e0e01b4e49dab7dd3255022ba8eeab10d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 088/123] fix: a zone whose rules start later than asked for is
 in its own standard time

---
 src/zonal/zone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index b8b1218..07d3f03 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -454,6 +454,10 @@ class ZoneRule(object):
                 found_one = True
 
             if found_start == 0:
+                if not found_one:
+                    # No rule applies yet, so standard time does
+                    last_offset = self.getUTCOffset()
+                    last_stdoffset = self.getUTCOffset()
                 results.append((lastUntilUTC, last_offset, self, None))
 
             return last_offset, last_stdoffset
-- 
2.43.0


From cdf9d242c9faff0c091a83ce690108f3137052df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 089/123] fix: timezone rules on a day shifted into the next or
 previous month recur on the right days

---
 src/zonal/rule.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..bcbefa9 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -162,6 +162,10 @@ class Rule(object):
         "Dec": 12,
     }
 
+    # The day of the year each month (and the next year) starts on: counted from the end of the
+    # year from March on, so that leap years make no difference
+    START_OF_MONTH = (1, 32, -306, -275, -245, -214, -184, -153, -122, -92, -61, -31, 1)
+
     MONTH_POS_TO_NAME = ("", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
 
     def __init__(self):
@@ -388,6 +392,21 @@ class Rule(object):
 
         return offset, day, bymday
 
+    def getYearDays(self, start, first):
+        """
+        Get the days of the year for a week that may cross into another month.
+
+        @param start: day of the year the month in that week starts on, from START_OF_MONTH
+        @type start: C{int}
+        @param first: first day of the week, relative to start
+        @type first: C{int}
+        """
+        days = [start + first + i for i in range(7)]
+        if start > 0:
+            # There is no day zero: the day before the first is the last of the previous year
+            days = [day if day > 0 else day - 1 for day in days]
+        return days
+
     def expand(self, results, zoneinfo, maxYear):
         """
         Expand the Rule into a set of transition date/offset pairs
@@ -490,7 +509,7 @@ class Rule(object):
 
                 if dayOfWeek == indicatedDay:
                     rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
-                elif dayOfWeek < indicatedDay or dayOfWeek == 6 and indicatedDay == 0:
+                elif divmod(indicatedDay - dayOfWeek, 7)[1] == 1:
                     # This is OK as we have moved back a day and thus no month transition
                     # could have occurred
                     fakeOffset = daysInMonth(start.getMonth(), start.getYear()) - 6
@@ -502,41 +521,36 @@ class Rule(object):
                     # This is bad news as we have moved forward a day possibly into the next month
                     # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
                     rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
+                    rrule.setByYearDay(self.getYearDays(Rule.START_OF_MONTH[Rule.MONTH_NAME_TO_POS[self.inMonth]], -6)[::-1])
                     rrule.setByDay(
                         ((0, divmod(Rule.LASTDAY_NAME_TO_DAY[self.onDay] + 1, 7)[1]),),
                     )
 
             elif self.onDay.find(">=") != -1:
                 indicatedDay, dayoffset = self.onDay.split(">=")
+                dayoffset = int(dayoffset)
 
                 # Need to check whether day has changed due to time shifting
                 dayOfWeek = start.getDayOfWeek()
                 indicatedDay = Rule.DAY_NAME_TO_DAY[indicatedDay]
 
                 if dayOfWeek == indicatedDay:
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
+                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, dayoffset)
                     if bymday:
                         rrule.setByMonthDay(bymday)
                     rrule.setByDay(((offset, rday),))
-                elif dayoffset == 1 and divmod(dayoffset - indicatedDay, 7)[1] == 6:
+                elif dayoffset == 1 and divmod(dayOfWeek - indicatedDay, 7)[1] == 6:
                     # This is bad news as we have moved backward a day possibly into the next month
                     # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
                     rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
+                    rrule.setByYearDay(self.getYearDays(Rule.START_OF_MONTH[Rule.MONTH_NAME_TO_POS[self.inMonth] - 1], -1))
                     rrule.setByDay(
-                        ((0, divmod(indicatedDay + 1, 7)[1]),),
+                        ((0, divmod(indicatedDay - 1, 7)[1]),),
                     )
                 else:
                     # This is OK as we have moved forward a day and thus no month transition
                     # could have occurred
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
+                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, dayoffset)
                     if bymday:
                         rrule.setByMonthDay(bymday)
                     rrule.setByDay(((offset, rday),))
-- 
2.43.0


From c13198c301180fbd3c494b6c97131d0680a12b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 090/123] fix: a zone end time may have seconds and a clock
 letter

---
 src/zonal/zone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 07d3f03..7a0fddb 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -382,13 +382,13 @@ class ZoneRule(object):
                             splits[2] = dt.getDay()
                         day = int(splits[2])
                         if len(splits) > 3 and not splits[3].startswith("#"):
+                            mode = None
+                            if not splits[3][-1].isdigit():
+                                mode = splits[3][-1]
+                                splits[3] = splits[3][:-1]
                             splits = splits[3].split(":")
                             hours = int(splits[0])
-                            minutes = int(splits[1][:2])
-                            if len(splits[1]) > 2:
-                                mode = splits[1][2:]
-                            else:
-                                mode = None
+                            minutes = int(splits[1])
                             if len(splits) > 2:
                                 seconds = int(splits[2])
 
-- 
2.43.0


From 5333eada7305e987b2b63ef0b5fc2013aa60cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 091/123] fix: the start of a zone is not one of the recurring
 changes of its rules

---
 src/zonal/zone.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 7a0fddb..a8a7cf4 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -21,6 +21,7 @@ from pycalendar.icalendar.vtimezone import VTimezone
 from pycalendar.icalendar.vtimezonedaylight import Daylight
 from pycalendar.icalendar.vtimezonestandard import Standard
 from pycalendar.utcoffsetvalue import UTCOffsetValue
+import copy
 import rule
 import utils
 
@@ -440,7 +441,11 @@ class ZoneRule(object):
                             last_offset = self.getUTCOffset()
                             last_stdoffset = self.getUTCOffset()
                             dtutc = dt.getUTC(last_offset, last_stdoffset)
-                        results.append((lastUntilUTC, last_offset, self, last_tzrule))
+                        # This is not one of the rule's own transitions, so do not mix it with those
+                        start_tzrule = copy.copy(last_tzrule)
+                        if start_tzrule is not None:
+                            start_tzrule.toYear = "only"
+                        results.append((lastUntilUTC, last_offset, self, start_tzrule))
                     found_start = True
 
                     if dtutc >= finalUntil.getUTC(last_offset, last_stdoffset):
-- 
2.43.0


From 4811a9daf35301b7fbdc3110fce3363073f85a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 092/123] fix: a timezone rule whose offsets change ends when
 they do

---
 src/zonal/rule.py | 6 ++++--
 src/zonal/zone.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index bcbefa9..84e2f23 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -446,7 +446,7 @@ class Rule(object):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount):
+    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount, bounded=False):
         """
         Generate a VTIMEZONE sub-component for this Rule.
 
@@ -464,6 +464,8 @@ class Rule(object):
         @type offsetto: C{int}
         @param instanceCount: the number of instances in the set
         @type instanceCount: C{int}
+        @param bounded: whether the set ends before the rule does
+        @type bounded: C{bool}
         """
 
         # Determine type of component based on offset
@@ -561,7 +563,7 @@ class Rule(object):
                     assert False, "onDay value is not recognized: %s" % (self.onDay,)
 
             # Add any UNTIL
-            if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
+            if bounded or zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
                 until = end.duplicate()
                 until.offsetSeconds(-offsetfrom)
                 until.setTimezoneUTC(True)
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index a8a7cf4..526e643 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -214,6 +214,7 @@ class Zone(object):
                                 rulemap[tzrule][startIndex][1],
                                 rulemap[tzrule][startIndex][2],
                                 index - startIndex,
+                                True,
                             )
                             lastOffsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
                             startIndex = index
-- 
2.43.0


From b20b9b67505b479109102a80d0d1364828c5477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 093/123] fix: timezone rules for weeks that cross a month's
 end or lie in February recur on the right days

---
 src/zonal/rule.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 84e2f23..27661ab 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -378,7 +378,11 @@ class Rule(object):
                 offset = 4
             else:
                 days_in_month = daysInMonth(month, year)
-                if days_in_month - offset == 6:
+                if month == 2:
+                    # The length varies, so do not count from the end
+                    bymday = [offset + i for i in range(7) if (offset + i) <= 29]
+                    offset = 0
+                elif days_in_month - offset == 6:
                     offset = -1
                 elif days_in_month - offset == 13:
                     offset = -2
@@ -402,10 +406,11 @@ class Rule(object):
         @type first: C{int}
         """
         days = [start + first + i for i in range(7)]
+        # There is no day zero: the day before the first is the last of the previous year
         if start > 0:
-            # There is no day zero: the day before the first is the last of the previous year
-            days = [day if day > 0 else day - 1 for day in days]
-        return days
+            return [day if day > 0 else day - 1 for day in days]
+        else:
+            return [day if day < 0 else day + 1 for day in days]
 
     def expand(self, results, zoneinfo, maxYear):
         """
@@ -511,6 +516,10 @@ class Rule(object):
 
                 if dayOfWeek == indicatedDay:
                     rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
+                elif start.getMonth() == 2 and divmod(indicatedDay - dayOfWeek, 7)[1] == 1:
+                    # We have moved back a day in a month whose length varies, so count from its end
+                    rrule.setByMonthDay(range(-8, -1))
+                    rrule.setByDay(((0, Rule.DAY_NAME_TO_RDAY[dayOfWeek]),))
                 elif divmod(indicatedDay - dayOfWeek, 7)[1] == 1:
                     # This is OK as we have moved back a day and thus no month transition
                     # could have occurred
@@ -536,22 +545,17 @@ class Rule(object):
                 dayOfWeek = start.getDayOfWeek()
                 indicatedDay = Rule.DAY_NAME_TO_DAY[indicatedDay]
 
-                if dayOfWeek == indicatedDay:
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, dayoffset)
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                elif dayoffset == 1 and divmod(dayOfWeek - indicatedDay, 7)[1] == 6:
-                    # This is bad news as we have moved backward a day possibly into the next month
+                # The first day of the week in which the actual day lies
+                firstDay = dayoffset + divmod(dayOfWeek - indicatedDay + 1, 7)[1] - 1
+                month = Rule.MONTH_NAME_TO_POS[self.inMonth]
+
+                if firstDay < 1 or firstDay + 6 > daysInMonth(month, start.getYear()):
+                    # This is bad news as that week crosses into another month
                     # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
                     rrule.setByMonth(())
-                    rrule.setByYearDay(self.getYearDays(Rule.START_OF_MONTH[Rule.MONTH_NAME_TO_POS[self.inMonth] - 1], -1))
-                    rrule.setByDay(
-                        ((0, divmod(indicatedDay - 1, 7)[1]),),
-                    )
+                    rrule.setByYearDay(self.getYearDays(Rule.START_OF_MONTH[month - 1], firstDay - 1))
+                    rrule.setByDay(((0, Rule.DAY_NAME_TO_RDAY[dayOfWeek]),))
                 else:
-                    # This is OK as we have moved forward a day and thus no month transition
-                    # could have occurred
                     offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, dayoffset)
                     if bymday:
                         rrule.setByMonthDay(bymday)
-- 
2.43.0


From e2c6dfe1ca670fab7cbf13f1c4a28e58fa2c8d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 094/123] fix: a zone without changes since the first year
 asked for still gets its offset

---
 src/zonal/zone.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 526e643..27b6f08 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -152,6 +152,7 @@ class Zone(object):
 
         # Now scan transitions looking for real changes and note those
         results = []
+        before = None
         last_transition = (startdt, start_offset, start_offset)
         for transition in transitions:
             dtutc, to_offset, zonerule, rule = transition
@@ -166,8 +167,14 @@ class Zone(object):
                         results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
                     else:
                         results.append((last_transition[0], last_transition[1], last_transition[2], zonerule, None))
+            else:
+                before = (dt, last_transition[1], to_offset, zonerule, rule)
             last_transition = (dt, to_offset, last_transition[2], rule)
 
+        # With no change since minYear what was in force before it still is
+        if not results and before is not None:
+            results.append(before)
+
         return results
 
     def vtimezone(self, calendar, rules, minYear, maxYear):
-- 
2.43.0


From dd34e08fc0dfa341e33c6793af72ee4cf3a22e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 095/123] fix: timezone rules on a fixed day shifted into
 another month recur on the right day

---
 src/zonal/rule.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 27661ab..6d7258c 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -566,6 +566,15 @@ class Rule(object):
                 except:
                     assert False, "onDay value is not recognized: %s" % (self.onDay,)
 
+                month = Rule.MONTH_NAME_TO_POS[self.inMonth]
+                if start.getMonth() != month:
+                    # Time shifting moved it to the last day of the previous or the first of the next month
+                    rrule.setByMonth(())
+                    if int(self.onDay) == 1:
+                        rrule.setByYearDay(self.getYearDays(Rule.START_OF_MONTH[month - 1], -1)[:1])
+                    else:
+                        rrule.setByYearDay(self.getYearDays(Rule.START_OF_MONTH[month], 0)[:1])
+
             # Add any UNTIL
             if bounded or zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
                 until = end.duplicate()
-- 
2.43.0


From 1c44eecb22486bb2fa721f981ca1ddd5681ea330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 096/123] fix: a timezone link changes the identifier only, not
 names and abbreviations that contain it

---
 src/zonal/tzconvert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 0bdba7d..706f586 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -195,7 +195,9 @@ class tzconvert(object):
 
                 with open(fromPath) as f:
                     icsdata = f.read()
-                icsdata = icsdata.replace(linkFrom, linkTo)
+                # Only the identifiers change: other values (e.g. TZNAME) may contain the name too
+                for propname in ("TZID", "X-LIC-LOCATION"):
+                    icsdata = icsdata.replace("%s:%s\r\n" % (propname, linkFrom,), "%s:%s\r\n" % (propname, linkTo,))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From 5b020bef429191e19c1e4d999a07f019298aa4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 097/123] fix: timezone rules are expanded anew when asked for
 other years

---
 src/zonal/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 6d7258c..e0fdb5f 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -180,6 +180,7 @@ class Rule(object):
         self.letter = ""
 
         self.dt_cache = None
+        self.dt_cache_year = None
 
     def __str__(self):
         return self.generate()
@@ -441,12 +442,13 @@ class Rule(object):
         @param maxYear: maximum year to expand to
         @type maxYear: C{int}
         """
-        if self.dt_cache is None:
+        if self.dt_cache is None or self.dt_cache_year != maxYear:
             start = self.startYear()
             end = self.endYear()
             if end > maxYear:
                 end = maxYear - 1
             self.dt_cache = []
+            self.dt_cache_year = maxYear
             for year in xrange(start, end + 1):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
-- 
2.43.0


From 1cf11f174f11b2253b9f65ba051d7f80c5619e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 098/123] fix: components without UID are written in the order
 given, not a random one

---
 src/pycalendar/icalendar/component.py      | 3 ++-
 src/pycalendar/icalendar/componentrecur.py | 3 +++
 src/pycalendar/icalendar/valarm.py         | 3 +++
 src/pycalendar/icalendar/vtimezone.py      | 3 +++
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 4860a71..01c1e40 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -79,7 +79,8 @@ class Component(ComponentBase):
             return self.mMapKey
 
     def getSortKey(self):
-        return self.getMapKey()
+        # Not the map key as that is random when there is no UID
+        return self.mUID if self.mUID else ""
 
     def getMasterKey(self):
         return self.mUID
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index b9c5d45..49b1171 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -145,6 +145,9 @@ class ComponentRecur(Component):
             self.mMapKey = str(uuid.uuid4())
         return self.mMapKey
 
+    def getSortKey(self):
+        return self.mMapKey if self.mUID and self.mMapKey else ""
+
     def getMasterKey(self):
         return ComponentRecur.mapKey(self.mUID)
 
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 1f2d739..6c617be 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -364,6 +364,9 @@ class VAlarm(Component):
     def getType(self):
         return definitions.cICalComponent_VALARM
 
+    def getSortKey(self):
+        return "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+
     def getAction(self):
         return self.mAction
 
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index b04d527..eb774bc 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -68,6 +68,9 @@ class VTimezone(Component):
     def getMapKey(self):
         return self.mID
 
+    def getSortKey(self):
+        return self.mID
+
     def finalise(self):
         # Get TZID
         temp = self.loadValueString(definitions.cICalProperty_TZID)
-- 
2.43.0


From 4ed8300022d8cb7237dfedec1525493ad5888663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 099/123] fix: a derived instance has its master's timezone and
 own kind of end, and shares no date-time

---
 src/pycalendar/icalendar/calendar.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 93a547b..fdfb966 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -375,7 +375,7 @@ class Calendar(ContainerBase):
             return None
 
         # Create the derived instance
-        newcomp = master.duplicate()
+        newcomp = master.duplicate(parent=self)
 
         # Strip out unwanted recurrence properties
         for propname in (
@@ -388,27 +388,32 @@ class Calendar(ContainerBase):
             newcomp.removeProperties(propname)
 
         # New DTSTART is the RECURRENCE-ID we are deriving but adjusted to the
-        # original DTSTART's localtime
+        # original DTSTART's timezone
         dtstart = newcomp.getStart()
-        dtend = newcomp.getEnd()
-        oldduration = dtend - dtstart
 
         newdtstartValue = recurrenceID.duplicate()
         if not dtstart.isDateOnly():
-            if dtstart.local():
+            if not dtstart.floating():
                 newdtstartValue.adjustTimezone(dtstart.getTimezone())
         else:
             newdtstartValue.setDateOnly(True)
 
         newcomp.removeProperties(definitions.cICalProperty_DTSTART)
-        newcomp.removeProperties(definitions.cICalProperty_DTEND)
         prop = Property(definitions.cICalProperty_DTSTART, newdtstartValue)
         newcomp.addProperty(prop)
-        if not newcomp.useDuration():
-            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
-            newcomp.addProperty(prop)
 
-        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
+        # An explicit end moves along with DTSTART
+        for propname in (
+            definitions.cICalProperty_DTEND,
+            definitions.cICalProperty_DUE,
+        ):
+            oldend = newcomp.loadValueDateTime(propname)
+            if oldend is not None:
+                newcomp.removeProperties(propname)
+                prop = Property(propname, newdtstartValue + (oldend - dtstart))
+                newcomp.addProperty(prop)
+
+        newcomp.addProperty(Property(definitions.cICalProperty_RECURRENCE_ID, newdtstartValue.duplicate()))
 
         # After creating/changing a component we need to do this to keep PyCalendar happy
         newcomp.finalise()
-- 
2.43.0


From 9c62b9b5600267c1dd4c54af567bbc48a022c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 100/123] fix: UIDs changed to ones in use, several masters and
 removing everything keep the index of components

---
 src/pycalendar/icalendar/calendar.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index fdfb966..c05a0a4 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -158,12 +158,11 @@ class Calendar(ContainerBase):
 
         # Maps
         if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
+            overrides = self.mOverriddenComponentsByUID.pop(oldUID)
+            self.mOverriddenComponentsByUID[newUID].extend(overrides)
         for ctype in self.mMasterComponentsByTypeAndUID:
             if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
-                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-                del self.mMasterComponentsByTypeAndUID[ctype][oldUID]
+                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype].pop(oldUID)
 
     def finalise(self):
         # Get calendar name if present
@@ -357,7 +356,17 @@ class Calendar(ContainerBase):
             if rid:
                 self.mOverriddenComponentsByUID[uid].remove(component)
             else:
-                del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
+                # There may have been another one with the same UID
+                self.mMasterComponentsByTypeAndUID[component.getType()].pop(uid, None)
+
+    def removeAllComponent(self, compname=None):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeAllComponent(compname)
+        if not compname:
+            self.mOverriddenComponentsByUID.clear()
+            self.mMasterComponentsByTypeAndUID.clear()
 
     def deriveComponent(self, recurrenceID):
         """
-- 
2.43.0


From ad076ff2f838ed2d67a200a64a4e5669f294179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 101/123] fix: free-busy time of calendars can be determined

---
 src/pycalendar/icalendar/calendar.py  | 89 +++++++++++----------------
 src/pycalendar/icalendar/freebusy.py  |  3 +-
 src/pycalendar/icalendar/vfreebusy.py | 16 ++++-
 3 files changed, 52 insertions(+), 56 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index c05a0a4..bf9c4a7 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -539,63 +539,58 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
-        # TODO: fix this
-        # list = ExpandedComponents()
+        list = []
         self.getVEvents(period, list)
-        if len(list) == 0:
-            return
-
-        # Get start/end list for each non-all-day expanded components
-        dtstart = []
-        dtend = []
-        for dt in list:
-
-            # Ignore if all-day
-            if dt.getInstanceStart().isDateOnly():
-                continue
 
-            # Ignore if transparent to free-busy
-            transp = ""
-            if dt.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
-                continue
-
-            # Add start/end to list
-            dtstart.append(dt.getInstanceStart())
-            dtend.append(dt.getInstanceEnd())
-
-        # No longer need the expanded items
-        list.clear()
+        # Get periods for each non-all-day expanded components that makes its time busy
+        busy = []
+        for comp in list:
+            if self._isBusyTime(comp):
+                busy.append(Period(comp.getInstanceStart(), comp.getInstanceEnd()).duplicate())
+        if len(busy) == 0:
+            return
 
         # Create non-overlapping periods as properties in the freebusy component
-        temp = Period(dtstart.front(), dtend.front())
-        dtstart_iter = dtstart.iter()
-        dtstart_iter.next()
-        dtend_iter = dtend.iter()
-        dtend_iter.next()
-        for _ignore in (None,):
+        busy.sort()
+        temp = busy[0]
+        for item in busy[1:]:
 
             # Check for non-overlap
-            if dtstart_iter > temp.getEnd():
+            if item.getStart() > temp.getEnd():
 
                 # Current period is complete
+                temp.adjustToUTC()
                 fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
 
                 # Reset period to new range
-                temp = Period(dtstart_iter, dtend_iter)
+                temp = item
 
             # They overlap - check for extended end
-            if dtend_iter > temp.getEnd():
+            elif item.getEnd() > temp.getEnd():
 
                 # Extend the end
-                temp = Period(temp.getStart(), dtend_iter)
+                temp = Period(temp.getStart(), item.getEnd())
 
         # Add remaining period as property
+        temp.adjustToUTC()
         fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
 
+    def _isBusyTime(self, comp):
+        """
+        Whether an expanded VEVENT contributes to busy time: not all day, not transparent,
+        not cancelled and taking any time at all.
+        """
+        return (
+            not comp.getInstanceStart().isDateOnly() and
+            comp.getInstanceStart() < comp.getInstanceEnd() and
+            comp.getOwner().loadValueString(definitions.cICalProperty_TRANSP) != definitions.cICalProperty_TRANSPARENT and
+            comp.getOwner().getStatus() != definitions.eStatus_VEvent_Cancelled
+        )
+
     def getFreeBusy(self, period, fb):
         # First create expanded set
 
@@ -605,35 +600,25 @@ class Calendar(ContainerBase):
         # Get start/end list for each non-all-day expanded components
         for comp in list:
 
-            # Ignore if all-day
-            if comp.getInstanceStart().isDateOnly():
-                continue
-
-            # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            # Ignore if all-day, transparent or cancelled
+            if not self._isBusyTime(comp):
                 continue
 
             # Add free busy item to list
-            status = comp.getMaster().getStatus()
-            if status in (definitions.eStatus_VEvent_None, definitions.eStatus_VEvent_Confirmed):
-                fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-            elif status == definitions.eStatus_VEvent_Tentative:
+            if comp.getOwner().getStatus() == definitions.eStatus_VEvent_Tentative:
                 fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
-            elif status == definitions.eStatus_VEvent_Cancelled:
-                # Cancelled => does not contribute to busy time
-                pass
+            else:
+                fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
 
         # Now get the VFREEBUSY info
         list2 = []
-        self.getVFreeBusy(period, list2)
+        self.getVFreeBusyList(period, list2)
 
         # Get start/end list for each free-busy
         for comp in list2:
 
             # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
+            comp.expandPeriodFB(period, fb)
 
         # Add remaining period as property
         FreeBusy.resolveOverlaps(fb)
diff --git a/src/pycalendar/icalendar/freebusy.py b/src/pycalendar/icalendar/freebusy.py
index 0480cb4..a1aadf1 100644
--- a/src/pycalendar/icalendar/freebusy.py
+++ b/src/pycalendar/icalendar/freebusy.py
@@ -45,6 +45,7 @@ class FreeBusy(object):
     def isPeriodOverlap(self, period):
         return self.mPeriod.isPeriodOverlap(period)
 
-    def resolveOverlaps(self, fb):
+    @staticmethod
+    def resolveOverlaps(fb):
         # TODO:
         pass
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..0b4d029 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -75,6 +75,9 @@ class VFreeBusy(Component):
         # Do inherited
         super(VFreeBusy, self).finalise()
 
+        # Busy time has to be determined again
+        self.mCachedBusyTime = False
+
         # Get DTSTART
         temp = self.loadValueDateTime(definitions.cICalProperty_DTSTART)
         self.mHasStart = temp is not None
@@ -216,7 +219,8 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                if fb.isPeriodOverlap(period):
+                    list.append(fb.duplicate())
 
     def cacheBusyTime(self):
 
@@ -251,11 +255,17 @@ class VFreeBusy(Component):
                     is_busy = True
                     type = FreeBusy.BUSYTENTATIVE
 
-                else:
+                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:
 
                     is_busy = False
                     type = FreeBusy.FREE
 
+                else:
+
+                    # Types that are not known are busy
+                    is_busy = True
+                    type = FreeBusy.BUSY
+
             else:
 
                 # Default is busy when no parameter
@@ -309,7 +319,7 @@ class VFreeBusy(Component):
                 start = self.mStart
             else:
                 start = min_start
-            if self.mHasEnd:
+            if self.mHasEnd or self.mDuration:
                 end = self.mEnd
             else:
                 end = max_end
-- 
2.43.0


From 7daa7aa73d39b9667abe0a74a987d212d3e4c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 102/123] fix: busy periods determined for a free-busy
 component count as its busy time

---
 src/pycalendar/icalendar/calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index bf9c4a7..b257df4 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -564,7 +564,7 @@ class Calendar(ContainerBase):
 
                 # Current period is complete
                 temp.adjustToUTC()
-                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, [temp, ]))
 
                 # Reset period to new range
                 temp = item
@@ -577,7 +577,7 @@ class Calendar(ContainerBase):
 
         # Add remaining period as property
         temp.adjustToUTC()
-        fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+        fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, [temp, ]))
 
     def _isBusyTime(self, comp):
         """
-- 
2.43.0


From 79f4342d98346f47de93ea4d72712f830ceb87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 103/123] fix: today and now of date-times could not be set

---
 src/pycalendar/datetime.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index ddf8c30..6a468e6 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,24 @@ class DateTime(ValueMixin):
 
         return other
 
+    def copy(self, copy_from):
+        self.mYear = copy_from.mYear
+        self.mMonth = copy_from.mMonth
+        self.mDay = copy_from.mDay
+
+        self.mHours = copy_from.mHours
+        self.mMinutes = copy_from.mMinutes
+        self.mSeconds = copy_from.mSeconds
+
+        self.mDateOnly = copy_from.mDateOnly
+
+        self.mTZUTC = copy_from.mTZUTC
+        self.mTZID = copy_from.mTZID
+        self.mTZOffset = copy_from.mTZOffset
+
+        self.mPosixTimeCached = copy_from.mPosixTimeCached
+        self.mPosixTime = copy_from.mPosixTime
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -675,7 +693,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self.copy(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -688,7 +706,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self.copy(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -697,7 +715,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self.copy(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From e3364ae02ed889d6d1b428bed26930737a809e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 104/123] fix: making a UID, naming a calendar and the first
 time of an alarm failed

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 src/pycalendar/icalendar/valarm.py   | 2 +-
 src/pycalendar/stringutils.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index b257df4..db9c7b2 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -113,7 +113,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 6c617be..b6fc2b8 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -674,7 +674,7 @@ class VAlarm(Component):
             dt.copy(self.getTriggerOn())
         else:
             # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..e0baa32 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -99,4 +99,4 @@ def compareStringsSafe(s1, s2):
 
 
 def md5digest(txt):
-    return md5.new(txt).hexdigest()
+    return md5(txt).hexdigest()
-- 
2.43.0


From 680893377e938153d30b363a31fd162a27759bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 105/123] fix: components answer after their timing was edited
 what their properties say

---
 src/pycalendar/icalendar/componentrecur.py | 41 +++++++++++++---------
 src/pycalendar/icalendar/vfreebusy.py      | 29 +++++++++------
 src/pycalendar/icalendar/vtodo.py          |  6 ++++
 3 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 49b1171..54a6342 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -490,7 +490,7 @@ class ComponentRecur(Component):
     # Editing
     def editSummary(self, summary):
         # Updated cached value
-        self.mSummary = summary
+        self.mSummary = summary if summary else None
 
         # Remove existing items
         self.editProperty(definitions.cICalProperty_SUMMARY, summary)
@@ -502,12 +502,12 @@ class ComponentRecur(Component):
         self.editProperty(definitions.cICalProperty_LOCATION, location)
 
     def editTiming(self):
-        # Updated cached values
+        # Updated cached values (not changing the values of the existing properties)
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
-        self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mStart = DateTime.getToday()
+        self.mEnd = DateTime.getToday()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -520,8 +520,8 @@ class ComponentRecur(Component):
         self.mHasStart = False
         self.mHasEnd = True
         self.mDuration = False
-        self.mStart = due
-        self.mEnd = due
+        self.mStart = due.duplicate()
+        self.mEnd = due.duplicate()
 
         # Remove existing DUE & DTSTART & DTEND & DURATION items
         self.removeProperties(definitions.cICalProperty_DUE)
@@ -530,14 +530,14 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DURATION)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DUE, due)
+        prop = Property(definitions.cICalProperty_DUE, due.duplicate())
         self.addProperty(prop)
 
     def editTimingStartEnd(self, start, end):
         # Updated cached values
         self.mHasStart = self.mHasEnd = True
-        self.mStart = start
-        self.mEnd = end
+        self.mStart = start.duplicate()
+        self.mEnd = end.duplicate()
         self.mDuration = False
         self.FixStartEnd()
         # Remove existing DTSTART & DTEND & DURATION & DUE items
@@ -547,21 +547,25 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, self.mStart.duplicate())
         self.addProperty(prop)
 
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp:
+            prop = Property(definitions.cICalProperty_DTEND, self.mEnd.duplicate())
             self.addProperty(prop)
 
+        # Same as when the properties are read
+        self.mHasEnd = self.hasProperty(definitions.cICalProperty_DTEND)
+        self.mDuration = False
+
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
         self.mHasStart = True
         self.mHasEnd = False
-        self.mStart = start
+        self.mStart = start.duplicate()
         self.mEnd = start + duration
         self.mDuration = True
 
@@ -572,13 +576,16 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, start.duplicate())
         self.addProperty(prop)
 
-        # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
-            prop = Property(definitions.cICalProperty_DURATION, duration)
+        # If its an all day event and the duration is one day, ignore it (which is not what other components default to)
+        isevent = self.getType() == definitions.cICalComponent_VEVENT
+        if (not isevent or not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
+            prop = Property(definitions.cICalProperty_DURATION, duration.duplicate())
             self.addProperty(prop)
+        else:
+            self.mDuration = False
 
     def editRecurrenceSet(self, recurs):
         # Must have items
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 0b4d029..60d8dc1 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -141,12 +141,13 @@ class VFreeBusy(Component):
         return self.mBusyTime
 
     def editTiming(self):
-        # Updated cached values
+        # Updated cached values (not changing the values of the existing properties)
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
-        self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mStart = DateTime.getToday()
+        self.mEnd = DateTime.getToday()
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -156,10 +157,11 @@ class VFreeBusy(Component):
     def editTimingStartEnd(self, start, end):
         # Updated cached values
         self.mHasStart = self.mHasEnd = True
-        self.mStart = start
-        self.mEnd = end
+        self.mStart = start.duplicate()
+        self.mEnd = end.duplicate()
         self.mDuration = False
         self.fixStartEnd()
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -167,23 +169,28 @@ class VFreeBusy(Component):
         self.removeProperties(definitions.cICalProperty_DURATION)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, self.mStart.duplicate())
         self.addProperty(prop)
 
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp:
+            prop = Property(definitions.cICalProperty_DTEND, self.mEnd.duplicate())
             self.addProperty(prop)
 
+        # Same as when the properties are read
+        self.mHasEnd = self.hasProperty(definitions.cICalProperty_DTEND)
+        self.mDuration = False
+
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
         self.mHasStart = True
         self.mHasEnd = False
-        self.mStart = start
+        self.mStart = start.duplicate()
         self.mEnd = start + duration
         self.mDuration = True
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -192,13 +199,13 @@ class VFreeBusy(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, start.duplicate())
         self.addProperty(prop)
 
         # If its an all day event and the duration is one day, ignore it
         if (not start.isDateOnly() or (duration.getWeeks() != 0) or
                 (duration.getDays() > 1)):
-            prop = Property(definitions.cICalProperty_DURATION, duration)
+            prop = Property(definitions.cICalProperty_DURATION, duration.duplicate())
             self.addProperty(prop)
 
     # Generating info
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..f291b40 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -299,6 +299,12 @@ class VToDo(ComponentRecur):
         return fixed, unfixed
 
     # Editing
+    def editTimingStartDuration(self, start, duration):
+        super(VToDo, self).editTimingStartDuration(start, duration)
+
+        # The duration determines when it is due
+        self.mHasEnd = True
+
     def editStatus(self, status):
         # Only if it is different
         if self.mStatus != status:
-- 
2.43.0


From 79de7ea85a080333f5cd191edb1019e35f8e7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 106/123] fix: editing recurrence sets and excluding
 recurrences failed

---
 src/pycalendar/componentbase.py            | 12 ++++++++
 src/pycalendar/icalendar/componentrecur.py | 28 +++++++++---------
 src/pycalendar/icalendar/recurrence.py     | 34 ++++++++++------------
 src/pycalendar/icalendar/recurrenceset.py  | 15 ++++------
 4 files changed, 49 insertions(+), 40 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3636f64..bd7618f 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -549,6 +549,18 @@ class ComponentBase(object):
                                 value.addPeriod(obj.getValue())
                             else:
                                 value.subtractPeriod(obj.getValue())
+                elif iter.getDateTimeValue() is not None:
+                    # A single date-time that was added rather than read
+                    if add:
+                        value.addDT(iter.getDateTimeValue().getValue())
+                    else:
+                        value.subtractDT(iter.getDateTimeValue().getValue())
+                elif iter.getPeriodValue() is not None:
+                    # A single period that was added rather than read
+                    if add:
+                        value.addPeriod(iter.getPeriodValue().getValue())
+                    else:
+                        value.subtractPeriod(iter.getPeriodValue().getValue())
 
             return True
         else:
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 54a6342..94ba55d 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -593,7 +593,7 @@ class ComponentRecur(Component):
             self.mRecurrences = RecurrenceSet()
 
         # Updated cached values
-        self.mRecurrences = recurs
+        self.mRecurrences = recurs.duplicate()
 
         # Remove existing RRULE, EXRULE, RDATE & EXDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
@@ -605,35 +605,36 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.getExrules():
+        for iter in self.mRecurrences.getExrules():
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+        for iter in self.mRecurrences.getDates() + self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
-        for iter in self.mRecurrences.getExdates():
-            prop = Property(definitions.cICalProperty_EXDATE, iter)
+        for iter in self.mRecurrences.getExdates() + self.mRecurrences.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
             self.addProperty(prop)
+        self._resetRecurrenceSet()
 
     def excludeRecurrence(self, start):
         # Must have items
         if self.mRecurrences is None:
             return
 
-        # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
-
         # Add property
-        prop = Property(definitions.cICalProperty_EXDATE, start)
+        prop = Property(definitions.cICalProperty_EXDATE, [start.duplicate()])
         self.addProperty(prop)
 
+        # Add to recurrence set
+        self._resetRecurrenceSet()
+
     def excludeFutureRecurrence(self, start):
         # Must have items
         if self.mRecurrences is None:
             return
 
         # Adjust RRULES to end before start
-        self.mRecurrences.excludeFutureRecurrence(start)
+        self.mRecurrences.excludeFutureRecurrence(self.mStart, start)
 
         # Remove existing RRULE & RDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
@@ -643,9 +644,10 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+        for iter in self.mRecurrences.getDates() + self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
+        self._resetRecurrenceSet()
 
     def initFromMaster(self):
         # Only if not master
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index ca6f2aa..338fbea 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1048,36 +1048,34 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is not None:
             self.mRecurrences = []
 
-    # IMPORTANT ExcludeFutureRecurrence assumes mCacheStart is setup with the
-    # owning VEVENT's DTSTART
-    # Currently this method is only called when a recurrence is being removed
-    # so
-    # the recurrence data should be cached
-
-    # Exclude dates on or after the chosen one
-    def excludeFutureRecurrence(self, exclude):
-        # Expand the rule up to the exclude date
+    # Exclude dates on or after the chosen one, where start is the owning VEVENT's DTSTART. Returns False
+    # if it adds nothing to the start any more
+    def excludeFutureRecurrence(self, start, exclude):
+        # Expand the rule up to the exclude date (the start itself is always there)
         items = []
-        period = Period()
-        period.init(self.mCacheStart[0], exclude)
-        self.expand(self.mCacheStart[0], period, items)
+        self.expand(start, Period(start, exclude), items)
+        items = [iter for iter in items if iter > start]
+        if len(items) == 0:
+            return False
 
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
-            # The last one is just less than the exclude date
-            if len(items) != 0:
-                # Now use the data as the UNTIL
-                self.mUseUntil = True
-                self.mUntil = items[-1]
+            # The last one is just less than the exclude date. Now use the data as the UNTIL
+            self.mUseUntil = True
+            self.mUntil = items[-1]
+            if self.mUntil.local() and not self.mUntil.isDateOnly():
+                # Has to be in UTC when the start has a timezone
+                self.mUntil.adjustToUTC()
 
         # Adjust COUNT
         elif self.getUseCount():
             # The last one is just less than the exclude date
             self.mUseCount = True
-            self.mCount = len(items)
+            self.mCount = 1 + len(items)
 
         # Now clear out the cached set after making changes
         self.clear()
+        return True
 
     def generateYearlySet(self, start, items):
         # All possible BYxxx are valid, though some combinations are not
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index a2f522e..827ff58 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -237,16 +237,13 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.clear()
 
-    def excludeFutureRecurrence(self, exclude):
-        # Adjust RRULES to end before start
-        for iter in self.mRrules:
-            iter.excludeFutureRecurrence(exclude)
+    def excludeFutureRecurrence(self, start, exclude):
+        # Adjust RRULES to end before the excluded one, removing those that have nothing before it
+        self.mRrules = [iter for iter in self.mRrules if iter.excludeFutureRecurrence(start, exclude)]
 
-        # Remove RDATES on or after start
-        self.mRdates.removeOnOrAfter(exclude)
-        for iter in self.mRperiods:
-            if iter > exclude:
-                self.mRperiods.remove(iter)
+        # Remove RDATES on or after the excluded one
+        self.mRdates = [iter for iter in self.mRdates if iter < exclude]
+        self.mRperiods = [iter for iter in self.mRperiods if iter.getStart() < exclude]
 
     # UI operations
     def isSimpleUI(self):
-- 
2.43.0


From a58c95aeec2e8c92eaadfa43e57b94be00d72d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 107/123] fix: status and completion of to-dos are written as
 the properties they are

---
 src/pycalendar/icalendar/vtodo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index f291b40..3289cc5 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -323,16 +323,17 @@ class VToDo(ComponentRecur):
             if status == definitions.eStatus_VToDo_Completed:
                 value = definitions.cICalProperty_STATUS_COMPLETED
                 # Add the completed item
-                self.mCompleted.setNowUTC()
+                self.mCompleted = DateTime.getNowUTC()
                 self.mHasCompleted = True
-                prop = Property(definitions.cICalProperty_STATUS_COMPLETED, self.mCompleted)
+                prop = Property(definitions.cICalProperty_COMPLETED, self.mCompleted.duplicate())
                 self.addProperty(prop)
             elif status == definitions.eStatus_VToDo_InProcess:
                 value = definitions.cICalProperty_STATUS_IN_PROCESS
             elif status == definitions.eStatus_VToDo_Cancelled:
                 value = definitions.cICalProperty_STATUS_CANCELLED
-            prop = Property(definitions.cICalProperty_STATUS, value)
-            self.addProperty(prop)
+            if value is not None:
+                prop = Property(definitions.cICalProperty_STATUS, value)
+                self.addProperty(prop)
 
     def editCompleted(self, completed):
         # Remove existing COMPLETED item
@@ -343,7 +344,7 @@ class VToDo(ComponentRecur):
         self.mCompleted = completed.duplicate()
         self.mCompleted.adjustToUTC()
         self.mHasCompleted = True
-        prop = Property(definitions.cICalProperty_STATUS_COMPLETED, self.mCompleted)
+        prop = Property(definitions.cICalProperty_COMPLETED, self.mCompleted.duplicate())
         self.addProperty(prop)
 
     def sortedPropertyKeyOrder(self):
-- 
2.43.0


From 6069fee7a9d17282052e90cbe732d3b9faa5ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 108/123] fix: editing and acknowledging alarms writes and
 answers the same

---
 src/pycalendar/icalendar/valarm.py | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index b6fc2b8..d03d116 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -99,14 +99,16 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
-            valarm.addProperty(prop)
+            # Only when there is some
+            if self.mSpeakText is not None:
+                prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
+                valarm.addProperty(prop)
 
         def remove(self, valarm):
             valarm.removeProperties(definitions.cICalProperty_ACTION_X_SPEAKTEXT)
 
         def isSpeakText(self):
-            return len(self.mSpeakText) != 0
+            return self.mSpeakText is not None and len(self.mSpeakText) != 0
 
         def getSpeakText(self):
             return self.mSpeakText
@@ -460,7 +462,7 @@ class VAlarm(Component):
             self.mRepeatInterval = temp
 
         # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+        self.mMapKey = self.getSortKey()
 
         # Alarm status - private to Mulberry
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
@@ -512,6 +514,7 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mAlarmStatus = status
+        self.mStatusInit = False
 
         # Add new
         status_txt = ""
@@ -531,7 +534,8 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mAction = action
-        self.mActionData = data
+        self.mActionData = data.duplicate()
+        self.mMapKey = self.getSortKey()
 
         # Add new properties to alarm
         action_txt = VAlarm.sActionValueMap.get(self.mAction, definitions.cICalProperty_ACTION_PROCEDURE)
@@ -547,10 +551,12 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mTriggerAbsolute = True
-        self.mTriggerOn = dt
+        self.mTriggerOn = dt.duplicate()
+        self.mMapKey = self.getSortKey()
+        self.mStatusInit = False
 
         # Add new
-        prop = Property(definitions.cICalProperty_TRIGGER, dt)
+        prop = Property(definitions.cICalProperty_TRIGGER, dt.duplicate())
         self.addProperty(prop)
 
     def editTriggerBy(self, duration, trigger_start):
@@ -559,11 +565,13 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mTriggerAbsolute = False
-        self.mTriggerBy = duration
+        self.mTriggerBy = duration.duplicate()
         self.mTriggerOnStart = trigger_start
+        self.mMapKey = self.getSortKey()
+        self.mStatusInit = False
 
         # Add new (with parameter)
-        prop = Property(definitions.cICalProperty_TRIGGER, duration)
+        prop = Property(definitions.cICalProperty_TRIGGER, duration.duplicate())
         attr = Parameter(
             definitions.cICalParameter_RELATED,
             (
@@ -581,12 +589,13 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mRepeats = repeat
-        self.mRepeatInterval = interval
+        self.mRepeatInterval = interval.duplicate()
+        self.mStatusInit = False
 
         # Add new
         if self.mRepeats > 0:
             self.addProperty(Property(definitions.cICalProperty_REPEAT, repeat))
-            self.addProperty(Property(definitions.cICalProperty_DURATION, interval))
+            self.addProperty(Property(definitions.cICalProperty_DURATION, interval.duplicate()))
 
     def getAlarmStatus(self):
         return self.mAlarmStatus
@@ -613,7 +622,7 @@ class VAlarm(Component):
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, self.mLastTrigger.duplicate()))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
-- 
2.43.0


From a612bc39d27eac89e802126733946914e39d5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 109/123] fix: finalise forgets what is no longer stated

---
 src/pycalendar/icalendar/calendar.py       | 6 ++----
 src/pycalendar/icalendar/component.py      | 6 ++----
 src/pycalendar/icalendar/componentrecur.py | 7 ++++---
 src/pycalendar/icalendar/vevent.py         | 1 +
 src/pycalendar/icalendar/vfreebusy.py      | 3 +++
 src/pycalendar/icalendar/vtodo.py          | 1 +
 6 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index db9c7b2..3036e7b 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -169,13 +169,11 @@ class Calendar(ContainerBase):
 
         # Get X-WR-CALNAME
         temps = self.loadValueString(definitions.cICalProperty_XWRCALNAME)
-        if temps is not None:
-            self.mName = temps
+        self.mName = temps if temps is not None else ""
 
         # Get X-WR-CALDESC
         temps = self.loadValueString(definitions.cICalProperty_XWRCALDESC)
-        if temps is not None:
-            self.mDescription = temps
+        self.mDescription = temps if temps is not None else ""
 
     def sortedComponentNames(self):
         return (
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 01c1e40..463a4cf 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -162,13 +162,11 @@ class Component(ComponentBase):
     def finalise(self):
         # Get UID
         temps = self.loadValueString(definitions.cICalProperty_UID)
-        if temps is not None:
-            self.mUID = temps
+        self.mUID = temps if temps is not None else ""
 
         # Get SEQ
         temp = self.loadValueInteger(definitions.cICalProperty_SEQUENCE)
-        if temp is not None:
-            self.mSeq = temp
+        self.mSeq = temp if temp is not None else 0
 
         # Cache the original sequence when the component is read in.
         # This will be used to synchronise changes between two instances of the
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 94ba55d..e4430f5 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -269,9 +269,7 @@ class ComponentRecur(Component):
             self.mDuration = False
 
         # Get SUMMARY
-        temp = self.loadValueString(definitions.cICalProperty_SUMMARY)
-        if temp is not None:
-            self.mSummary = temp
+        self.mSummary = self.loadValueString(definitions.cICalProperty_SUMMARY)
 
         # Get RECURRENCE-ID
         self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
@@ -291,6 +289,9 @@ class ComponentRecur(Component):
                 self.mAdjustFuture = False
                 self.mAdjustPrior = False
         else:
+            self.mRecurrenceID = None
+            self.mAdjustFuture = False
+            self.mAdjustPrior = False
             self.mMapKey = self.mapKey(self.mUID)
 
         self._resetRecurrenceSet()
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 7747aa2..1e67748 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -84,6 +84,7 @@ class VEvent(ComponentRecur):
         # Do inherited
         super(VEvent, self).finalise()
 
+        self.mStatus = definitions.eStatus_VEvent_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 60d8dc1..b09308f 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -90,9 +90,12 @@ class VFreeBusy(Component):
             # Try DURATION instead
             temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
             if temp is not None:
+                self.mHasEnd = False
                 self.mEnd = self.mStart + temp
                 self.mDuration = True
             else:
+                self.mHasEnd = False
+                self.mDuration = False
                 # Force end to start, which will then be fixed to sensible
                 # value later
                 self.mEnd = self.mStart
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 3289cc5..5d3eff0 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -243,6 +243,7 @@ class VToDo(ComponentRecur):
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
         # Get STATUS
+        self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
-- 
2.43.0


From e99334b8dd7e73fcb3fafaccc3a60c8e617a3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 110/123] fix: dates stay the same date when moved to another
 time zone

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 6a468e6..d50e56a 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -661,8 +661,9 @@ class DateTime(ValueMixin):
             if not self.mTZUTC:
                 self.adjustToUTC()
             self.setTimezone(tzid)
-            offset_to = self.timeZoneSecondsOffset(relative_to_utc=True)
-            self.offsetSeconds(offset_to)
+            if not self.mDateOnly:
+                offset_to = self.timeZoneSecondsOffset(relative_to_utc=True)
+                self.offsetSeconds(offset_to)
         return self
 
     def adjustToUTC(self):
-- 
2.43.0


From eb7c12079bba95c9f3a6509e39fb895e56dad8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 111/123] fix: equality, copies and expansion of rules use the
 COUNT or UNTIL that is in use

---
 src/pycalendar/icalendar/recurrence.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 338fbea..158afbb 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -107,7 +107,7 @@ class Recurrence(ValueMixin):
         other.mUseCount = self.mUseCount
         other.mCount = self.mCount
         other.mUseUntil = self.mUseUntil
-        if other.mUseUntil:
+        if self.mUntil is not None:
             other.mUntil = self.mUntil.duplicate()
 
         other.mInterval = self.mInterval
@@ -172,10 +172,7 @@ class Recurrence(ValueMixin):
     def __hash__(self):
         return hash((
             self.mFreq,
-            self.mUseCount,
-            self.mCount,
-            self.mUseUntil,
-            self.mUntil,
+            self._limits(),
             self.mInterval,
             tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
             tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
@@ -200,9 +197,8 @@ class Recurrence(ValueMixin):
     def equals(self, comp):
         return (
             (self.mFreq == comp.mFreq) and
-            (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and
-            (self.mUntil.isSame(comp.mUntil) if self.mUntil is not None and comp.mUntil is not None else self.mUntil is comp.mUntil) and
+            self._limits() == comp._limits() and
+            (self._limits()[1] is None or self.mUntil.isSame(comp.mUntil)) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
@@ -216,6 +212,15 @@ class Recurrence(ValueMixin):
             (self.mWeekstart == comp.mWeekstart)
         )
 
+    def _limits(self):
+        """
+        The COUNT and UNTIL that are in use - COUNT if there are both.
+        """
+        if self.mUseCount:
+            return (self.mCount, None)
+        else:
+            return (None, self.mUntil if self.mUseUntil else None)
+
     def equalsNum(self, items1, items2):
         # Check sizes first
         if items1 is None:
@@ -1005,7 +1010,7 @@ class Recurrence(ValueMixin):
                     return False
 
                 # Exit if beyond the UNTIL limit
-                if self.mUseUntil:
+                if self.mUseUntil and not self.mUseCount:
                     # Exit if next item is after until (its OK if its the same
                     # as UNTIL as UNTIL is inclusive)
                     if iter > float_until:
-- 
2.43.0


From b01b51076cc7b1af6c72b081affa97aeaad9ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 112/123] fix: finalise of a time zone starts again with what
 its observances say now

---
 src/pycalendar/icalendar/vtimezone.py        | 5 +++++
 src/pycalendar/icalendar/vtimezoneelement.py | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index eb774bc..a75a628 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -77,6 +77,11 @@ class VTimezone(Component):
         if temp is not None:
             self.mID = temp
 
+        # Forget what was expanded before
+        self.mUTCOffsetSortKey = None
+        self.mCachedExpandAllMaxYear = None
+        self.mCachedOffsets = None
+
         # Sort sub-components by DTSTART
         self.mComponents.sort(key=lambda x: x.getStart())
 
diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index 25f6071..2a09123 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -77,8 +77,12 @@ class VTimezoneElement(Component):
 
         # Get TZNAME
         temps = self.loadValueString(definitions.cICalProperty_TZNAME)
-        if temps is not None:
-            self.mTZName = temps
+        self.mTZName = temps if temps is not None else ""
+
+        # Start again with the recurrence and what was expanded from it
+        self.mRecurrences = RecurrenceSet()
+        self.mCachedExpandBelow = None
+        self.mCachedExpandBelowItems = None
 
         # Get RRULEs
         self.loadValueRRULE(definitions.cICalProperty_RRULE, self.mRecurrences, True)
-- 
2.43.0


From c07d80d9b3711faa26dbd796ff896b9f871892a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 113/123] fix: recurrence sets can be compared and described

---
 src/pycalendar/icalendar/recurrenceset.py | 27 ++++++++++++-----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 827ff58..917ea2a 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -48,23 +48,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -109,10 +109,11 @@ class RecurrenceSet(object):
         dt1 = dates1[:]
         dt2 = dates2[:]
 
-        dt1.sort(key=lambda x: x.getPosixTime())
-        dt2.sort(key=lambda x: x.getPosixTime())
+        key = lambda x: (x.getPosixTime(), x.isDateOnly(), x.getTimezoneUTC(), x.getTimezoneID())
+        dt1.sort(key=key)
+        dt2.sort(key=key)
 
-        return dt1.equal(dt2)
+        return all([i1.isSame(i2) for i1, i2 in zip(dt1, dt2)])
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -128,7 +129,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
@@ -256,7 +257,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isSimpleRule()
+            return self.mRrules[0].isSimpleRule()
         else:
             return True
 
@@ -268,7 +269,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isAdvancedRule()
+            return self.mRrules[0].isAdvancedRule()
         else:
             return True
 
@@ -287,7 +288,7 @@ class RecurrenceSet(object):
         if ((len(self.mRrules) == 1) and (len(self.mExrules) == 0) and (len(self.mRdates) == 0) and
                 (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                 (len(self.mExperiods) == 0)):
-            return self.mRrules.firstElement().getUIDescription()
+            return self.mRrules[0].getUIDescription()
 
         # Indicate some form of complex recurrence
         return "Multiple recurrence rules, dates or exclusions"
-- 
2.43.0


From 3029c9d04d025caefd8a4ee38d9081662cee45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 114/123] fix: VERSION and CALSCALE are checked whatever the
 case of their names

---
 src/pycalendar/icalendar/calendar.py | 5 +++--
 src/pycalendar/vcard/card.py         | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 3036e7b..a97b5d1 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -645,13 +645,14 @@ class Calendar(ContainerBase):
         self.addProperty(Property(definitions.cICalProperty_CALSCALE, "GREGORIAN"))
 
     def validProperty(self, prop):
-        if prop.getName() == definitions.cICalProperty_VERSION:
+        name = prop.getName().upper()
+        if name == definitions.cICalProperty_VERSION:
 
             tvalue = prop.getTextValue()
             if ((tvalue is None) or (tvalue.getValue() != "2.0")):
                 return False
 
-        elif prop.getName() == definitions.cICalProperty_CALSCALE:
+        elif name == definitions.cICalProperty_CALSCALE:
 
             tvalue = prop.getTextValue()
             if ((tvalue is None) or (tvalue.getValue() != "GREGORIAN")):
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 7ae04b6..2bac48c 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -186,7 +186,7 @@ class Card(ContainerBase):
         self.addProperty(Property(name=definitions.Property_VERSION, value="3.0"))
 
     def validProperty(self, prop):
-        if prop.getName() == definitions.Property_VERSION:
+        if prop.getName().upper() == definitions.Property_VERSION:
 
             tvalue = prop.getValue()
             if ((tvalue is None) or (tvalue.getValue() != "3.0")):
-- 
2.43.0


From 47e45926c3b9119c82a2e9f7212f788c5244bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:03 +0000
Subject: [PATCH 115/123] fix: the instances tool lists the start whatever the
 rule

---
 src/pycalendar/instances.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/instances.py b/src/pycalendar/instances.py
index 3a33ea3..cfe3551 100755
--- a/src/pycalendar/instances.py
+++ b/src/pycalendar/instances.py
@@ -18,6 +18,7 @@
 from __future__ import print_function
 from pycalendar.datetime import DateTime
 from pycalendar.icalendar.recurrence import Recurrence
+from pycalendar.icalendar.recurrenceset import RecurrenceSet
 from pycalendar.period import Period
 import sys
 
@@ -34,7 +35,10 @@ def instances(start, rrule):
     end.offsetYear(100)
     items = []
     range = Period(start, end)
-    recur.expand(start, range, items)
+    # The start is always an instance, which only the set takes care of
+    recurs = RecurrenceSet()
+    recurs.addRule(recur)
+    recurs.expand(start, range, items)
     print("DTSTART:{}".format(start))
     print("RRULE:{}".format(rrule))
     print("Instances: {}".format(", ".join(map(str, items))))
-- 
2.43.0


From c7a29b7fbfa7572d9af79b30e7fe8be2936b2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:15 +0000
Subject: [PATCH 116/123] fix: the validator tells calendars from cards by the
 first line, in any case

---
 src/pycalendar/validator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/validator.py b/src/pycalendar/validator.py
index a48d640..0f11458 100755
--- a/src/pycalendar/validator.py
+++ b/src/pycalendar/validator.py
@@ -20,6 +20,7 @@ from pycalendar.exceptions import ErrorBase
 from pycalendar.parser import ParserContext
 from pycalendar.vcard.card import Card
 import os
+import re
 import sys
 
 
@@ -33,13 +34,16 @@ def validate(fname):
 
     ParserContext.allRaise()
 
-    if data.find("BEGIN:VCALENDAR") != -1:
+    # The first line says what it is - it can be folded, and in any case
+    first = re.sub("\r?\n[ \t]", "", data).lstrip().upper()
+
+    if first.startswith("BEGIN:VCALENDAR"):
         try:
             cal = Calendar.parseText(data)
         except ErrorBase as e:
             print("Failed to parse iCalendar: {}: {}".format(e.mReason, e.mData,))
             sys.exit(1)
-    elif data.find("BEGIN:VCARD") != -1:
+    elif first.startswith("BEGIN:VCARD"):
         try:
             cal = Card.parseText(data)
         except ErrorBase as e:
-- 
2.43.0


From 14c2fd1973a56f873af6c273e4d2c04b3cbd7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:26 +0000
Subject: [PATCH 117/123] fix: tzverify leaves out every transition that
 changes nothing

---
 src/zonal/tzverify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/tzverify.py b/src/zonal/tzverify.py
index e5cce98..0cd1f3b 100755
--- a/src/zonal/tzverify.py
+++ b/src/zonal/tzverify.py
@@ -131,7 +131,7 @@ These cannot be checked.""" % (", ".join(sorted(missing)),)
         for i in set(d1):
             if i[0] == start:
                 d1.discard(i)
-                break
+                continue
             if i[2] == i[3]:
                 d1.discard(i)
         d2 = set2.difference(set1)
-- 
2.43.0


From 6aa70307d6dd772dd376d43423e30afd0b3151e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 118/123] fix: an organization is kept the same way whatever it
 is given in

---
 src/pycalendar/vcard/orgvalue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index dcff9fc..260bf1d 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -26,7 +26,7 @@ class OrgValue(Value):
     """
 
     def __init__(self, value=None):
-        self.mValue = value
+        self.setValue(value)
 
     def duplicate(self):
         return OrgValue(self.mValue)
@@ -42,7 +42,7 @@ class OrgValue(Value):
 
     def parseJSONValue(self, jobject):
         if isinstance(jobject, list):
-            self.mValue = tuple([x.encode("utf-8") for x in jobject])
+            self.setValue([x.encode("utf-8") for x in jobject])
         else:
             self.mValue = jobject.encode("utf-8")
 
@@ -53,6 +53,9 @@ class OrgValue(Value):
         return self.mValue
 
     def setValue(self, value):
+        # One component is kept as a str and several as a tuple, whatever they are given in
+        if isinstance(value, (list, tuple)):
+            value = tuple(value) if len(value) != 1 else value[0]
         self.mValue = value
 
 Value.registerType(Value.VALUETYPE_ORG, OrgValue, None, xmldefinitions.value_text)
-- 
2.43.0


From abed6a525adc002aa49895077993f699b2c16a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:50 +0000
Subject: [PATCH 119/123] fix: a time zone can be the default for floating
 times

---
 src/pycalendar/datetime.py                | 17 +++++++++++++++--
 src/pycalendar/icalendar/recurrence.py    |  2 +-
 src/pycalendar/icalendar/recurrenceset.py |  6 +++---
 src/pycalendar/icalendar/vtimezone.py     |  2 +-
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index d50e56a..b4d8c39 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -134,7 +134,7 @@ class DateTime(ValueMixin):
         return "DateTime: %s" % (self.getText(),)
 
     def __hash__(self):
-        return hash(self.getPosixTime())
+        return hash(self.getSortTime())
 
     # Operators
     def __add__(self, duration):
@@ -246,6 +246,18 @@ class DateTime(ValueMixin):
     def compareDate(self, comp):
         return (self.mYear == comp.mYear) and (self.mMonth == comp.mMonth) and (self.mDay == comp.mDay)
 
+    def getSortTime(self):
+        """
+        The posix time, except that a floating time is taken to be UTC, so that the result does not depend on the
+        default timezone (whose own transitions are floating times).
+        """
+        if not self.floating():
+            return self.getPosixTime()
+        result = self.daysSince1970() * 24L * 60L * 60L
+        if not self.mDateOnly:
+            result += (self.mHours * 60L + self.mMinutes) * 60L + self.mSeconds
+        return result
+
     def getPosixTime(self):
         # Look for cached value (or floating time which has to be calculated
         # each time)
@@ -1171,7 +1183,8 @@ class DateTime(ValueMixin):
     def timeZoneSecondsOffset(self, relative_to_utc=False):
         if self.mTZUTC:
             return 0
-        if self.mTZOffset is None:
+        # That of a floating time changes with the default timezone
+        if self.mTZOffset is None or self.floating():
             tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
             self.mTZOffset = tz.timeZoneSecondsOffset(self, relative_to_utc)
         return self.mTZOffset
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 158afbb..16f16d7 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1718,7 +1718,7 @@ class Recurrence(ValueMixin):
     def sortedUnique(self, dates):
         output = []
         # dates.sort(cmp=DateTime.sort)
-        for iter1 in sorted(dates, key=lambda x: x.getPosixTime()):
+        for iter1 in sorted(dates, key=lambda x: x.getSortTime()):
             if len(output) == 0 or iter1 != output[-1]:
                 output.append(iter1)
 
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 917ea2a..8bd30b2 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -109,7 +109,7 @@ class RecurrenceSet(object):
         dt1 = dates1[:]
         dt2 = dates2[:]
 
-        key = lambda x: (x.getPosixTime(), x.isDateOnly(), x.getTimezoneUTC(), x.getTimezoneID())
+        key = lambda x: (x.getSortTime(), x.isDateOnly(), x.getTimezoneUTC(), x.getTimezoneID())
         dt1.sort(key=key)
         dt2.sort(key=key)
 
@@ -199,7 +199,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         include = [x for x in set(include)]
-        include.sort(key=lambda x: x.getPosixTime())
+        include.sort(key=lambda x: x.getSortTime())
         if maxInstances and len(include) > maxInstances:
             raise TooManyInstancesError("Too many instances")
 
@@ -222,7 +222,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         exclude = [x for x in set(exclude)]
-        exclude.sort(key=lambda x: x.getPosixTime())
+        exclude.sort(key=lambda x: x.getSortTime())
 
         # Add difference between to the two sets (include - exclude) to the
         # results
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index a75a628..950ed67 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -297,7 +297,7 @@ class VTimezone(Component):
             utcdt.setTimezoneUTC(True)
             items.insert(1, utcdt)
             utc_results.append(tuple(items))
-        utc_results.sort(key=lambda x: x[0].getPosixTime())
+        utc_results.sort(key=lambda x: x[0].getSortTime())
         return utc_results
 
     def sortedPropertyKeyOrder(self):
-- 
2.43.0


From 95f358c890b7a4ad8fe80536155058468e79159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:22 +0000
Subject: [PATCH 120/123] fix: a time zone without its offsets does not break
 the use of times in it

---
 src/pycalendar/icalendar/vtimezoneelement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index 2a09123..be34d12 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -161,6 +161,12 @@ class VTimezoneElement(Component):
         # Ignore if there is no change in offset
         offsetto = self.loadValueInteger(definitions.cICalProperty_TZOFFSETTO, Value.VALUETYPE_UTC_OFFSET)
         offsetfrom = self.loadValueInteger(definitions.cICalProperty_TZOFFSETFROM, Value.VALUETYPE_UTC_OFFSET)
+
+        # These are required, but might be missing
+        if offsetto is None:
+            offsetto = self.mUTCOffset
+        if offsetfrom is None:
+            offsetfrom = self.mUTCOffsetFrom
 #        if offsetto == offsetfrom:
 #            return ()
 
-- 
2.43.0


From 2bd0373c6cb4afb7b4b88c85423aa95159730086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:26 +0000
Subject: [PATCH 121/123] fix: the status text of a to-do can be asked for

---
 src/pycalendar/icalendar/vtodo.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 5d3eff0..5d6e7c5 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -151,7 +151,7 @@ class VToDo(ComponentRecur):
         self.mStatus = status
 
     def getStatusText(self):
-        sout = StringIO()
+        sout = StringIO.StringIO()
 
         if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
             if self.hasEnd():
@@ -159,10 +159,10 @@ class VToDo(ComponentRecur):
                 today = DateTime()
                 today.setToday()
                 if self.getEnd() > today:
-                    sout.append("Due: ")
+                    sout.write("Due: ")
                     whendue = self.getEnd() - today
                     if (whendue.getDays() > 0) and (whendue.getDays() <= 7):
-                        sout.write(whendue.getDays())
+                        sout.write(str(whendue.getDays()))
                         sout.write(" days")
                     else:
                         sout.write(self.getEnd().getLocaleDate(DateTime.NUMERICDATE))
@@ -172,10 +172,10 @@ class VToDo(ComponentRecur):
                     sout.write("Overdue: ")
                     overdue = today - self.getEnd()
                     if overdue.getWeeks() != 0:
-                        sout.write(overdue.getWeeks())
+                        sout.write(str(overdue.getWeeks()))
                         sout.write(" weeks")
                     else:
-                        sout.write(overdue.getDays() + 1)
+                        sout.write(str(overdue.getDays() + 1))
                         sout.write(" days")
             else:
                 sout.write("Not Completed")
@@ -185,10 +185,10 @@ class VToDo(ComponentRecur):
                 sout.write(self.getCompleted().getLocaleDate(DateTime.NUMERICDATE))
             else:
                 sout.write("Completed")
-        elif definitions.eStatus_VToDo_Cancelled:
+        elif self.mStatus == definitions.eStatus_VToDo_Cancelled:
             sout.write("Cancelled")
 
-        return sout.toString()
+        return sout.getvalue()
 
     def getCompletionState(self):
         if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
-- 
2.43.0


From 8bf68ddd44ca01cc307ab1e7f5083db69ce0fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:33 +0000
Subject: [PATCH 122/123] fix: a single recurrence rule is described

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 16f16d7..fa98a1e 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -843,7 +843,7 @@ class Recurrence(ValueMixin):
     def getUIDescription(self):
         try:
             # For now just use iCal item
-            sout = StringIO()
+            sout = StringIO.StringIO()
             self.generate(sout)
             result = sout.getvalue()
         except:
-- 
2.43.0


From 6ccc252040cffa0d80d735220507d0f8f8e598b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:37 +0000
Subject: [PATCH 123/123] fix: the table of a month has rows

---
 src/pycalendar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 5fa6127..ebe93d0 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -477,7 +477,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
     for day in range(1, max_day + 1):
         # Insert new row if we are at the start of a row
         if (col == 0) or (day == 1):
-            table.extend([0] * 7)
+            table.append([0] * 7)
             row += 1
 
         # Set the table item to the current day
@@ -512,7 +512,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
         day = daysInMonth(temp.getMonth(), temp.getYear())
         back_col = initial_col - 1
         while(back_col >= 0):
-            table[row][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
+            table[0][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
 
             # Check on today
             if (temp.getYear() == today.getYear()) and (temp.getMonth() == today.getMonth()) and (day == today.getDay()):
-- 
2.43.0

