From e9cb0792bc292610489ce165ae1c4fad7accc105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 001/119] fix: BYYEARDAY dropped every day that is not in the
 first or last month

setYearDay(allow_invalid=True) left e.g. day 305 as the 305th of January,
which recurrence expansion then threw away as an invalid date.
---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..ba791bb 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -321,8 +321,9 @@ class DateTime(ValueMixin):
             # Decrement day
             self.mDay += day + 1
 
-        if not allow_invalid:
-            # Normalise to get proper year/month/day values
+        if not allow_invalid or day not in (366, -366):
+            # Normalise to get proper year/month/day values - only day 366 of a
+            # non-leap year is an invalid date
             self.normalise()
         else:
             self.changed()
-- 
2.43.0


From 7497906272f1cda86e304c523f8513e645715bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 002/119] fix: WEEKLY rules applied BYMONTH to the wrong day of
 a week spanning two months

---
 src/pycalendar/icalendar/recurrence.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..03e05e2 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1148,12 +1148,6 @@ class Recurrence(ValueMixin):
         # Start with initial date-time
         items.append(start.duplicate())
 
-        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            # BYMONTH limits the range of possible values
-            items[:] = self.byMonthLimit(items)
-            if (len(items) == 0):
-                return
-
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoLimit(items)
             if (len(items) == 0):
@@ -1166,6 +1160,13 @@ class Recurrence(ValueMixin):
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             items[:] = self.byDayExpandWeekly(items)
 
+        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
+            # BYMONTH limits the range of possible values - a week can span two
+            # months so this applies to the actual days
+            items[:] = self.byMonthLimit(items)
+            if (len(items) == 0):
+                return
+
         if (self.mByHours is not None) and (len(self.mByHours) != 0):
             items[:] = self.byHourExpand(items)
 
-- 
2.43.0


From 783ad552dd8edceb026fcab31dc8e6ac63b4e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 003/119] fix: YEARLY rules with BYMONTHDAY but no BYMONTH only
 used the month of DTSTART

RFC 5545 makes BYMONTHDAY expand a YEARLY rule over every month.
---
 src/pycalendar/icalendar/recurrence.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 03e05e2..4dca9c7 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1061,7 +1061,11 @@ class Recurrence(ValueMixin):
             items[:] = self.byYearDayExpand(items)
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
-            items[:] = self.byMonthDayExpand(items)
+            if self.mByMonth or self.mByWeekNo or self.mByYearDay:
+                items[:] = self.byMonthDayExpand(items)
+            else:
+                # Nothing else picks a month so this applies to all of them
+                items[:] = self.byMonthDayExpand(self.everyMonthExpand(items))
 
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             # BYDAY is complicated:
@@ -1383,6 +1387,17 @@ class Recurrence(ValueMixin):
 
         return output
 
+    def everyMonthExpand(self, dates):
+        # Loop over all input items, generating one for each month of the year
+        output = []
+        for iter1 in dates:
+            for month in range(1, 13):
+                temp = iter1.duplicate()
+                temp.setMonth(month)
+                output.append(temp)
+
+        return output
+
     def byWeekNoExpand(self, dates):
         # Loop over all input items
         output = []
-- 
2.43.0


From c855f5d56759b444c023f40ac56763bac5e3cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 004/119] fix: BYWEEKNO picked the wrong week in many years

It was a week out in years starting on a Sunday, and ignored WKST and negative
week numbers.
---
 src/pycalendar/icalendar/recurrence.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 4dca9c7..d8141b1 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1399,18 +1399,35 @@ class Recurrence(ValueMixin):
         return output
 
     def byWeekNoExpand(self, dates):
+        # Must take into account the WKST value
+
         # Loop over all input items
         output = []
         for iter1 in dates:
+            # Week 1 is the one that contains 4th January
+            week1 = self.startOfWeek(iter1.getYear())
+            weeks = (self.startOfWeek(iter1.getYear() + 1) - week1).getTotalSeconds() / (7 * 24 * 60 * 60)
+
             # Loop over each BYWEEKNO and generating a new date-time for it and
-            # insert into output
+            # insert into output, keeping the day of the week
             for iter2 in self.mByWeekNo:
+                weekno = iter2 if iter2 > 0 else weeks + 1 + iter2
+                if weekno < 1 or weekno > weeks:
+                    continue
+                day = week1.duplicate()
+                day.offsetDay((weekno - 1) * 7 + (iter1.getDayOfWeek() - self.mWeekstart) % 7)
                 temp = iter1.duplicate()
-                temp.setWeekNo(iter2)
+                temp.setYYMMDD(day.getYear(), day.getMonth(), day.getDay())
                 output.append(temp)
 
         return output
 
+    def startOfWeek(self, year):
+        # Start of week number 1 in the specified year
+        result = DateTime(year, 1, 4)
+        result.offsetDay(-((result.getDayOfWeek() - self.mWeekstart) % 7))
+        return result
+
     def byYearDayExpand(self, dates):
         # Loop over all input items
         output = []
-- 
2.43.0


From eb684d3753a2b3bd9f4acb98a5fe045f57797eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 005/119] fix: a date picked by two BYxxx values counted as two
 instances

e.g. BYMONTHDAY=31,-1 used up COUNT twice over for one date and shifted BYSETPOS.
---
 src/pycalendar/icalendar/recurrence.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index d8141b1..a3b91d2 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -961,7 +961,7 @@ class Recurrence(ValueMixin):
 
             # Always sort the set as BYxxx rules may not be sorted
             # set_items.sort(cmp=DateTime.sort)
-            set_items.sort(key=lambda x: x.getPosixTime())
+            set_items = self.sortedUnique(set_items)
 
             # Process each one in the generated set
             for iter in set_items:
@@ -1684,7 +1684,7 @@ class Recurrence(ValueMixin):
     def bySetPosLimit(self, dates):
         # The input dates MUST be sorted in order for this to work properly
         # dates.sort(cmp=DateTime.sort)
-        dates.sort(key=lambda x: x.getPosixTime())
+        dates = self.sortedUnique(dates)
 
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
@@ -1701,3 +1701,13 @@ class Recurrence(ValueMixin):
                     output.append(dates[input_size + iter])
 
         return output
+
+    def sortedUnique(self, dates):
+        # Two BYxxx values can pick the same date (e.g. BYMONTHDAY=31,-1), but it
+        # is only one instance
+        output = []
+        for iter in sorted(dates, key=lambda x: x.getPosixTime()):
+            if len(output) == 0 or iter != output[-1]:
+                output.append(iter)
+
+        return output
-- 
2.43.0


From 49ccaf71046aae981ed82abaf85502929c511e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 006/119] fix: the instance limit was ignored when an expansion
 came from the cache

---
 src/pycalendar/icalendar/recurrence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a3b91d2..83b0491 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -872,7 +872,13 @@ class Recurrence(ValueMixin):
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
+        count = 0
         for iter in self.mRecurrences:
+            # The limit applies no matter where the items came from
+            if maxInstances and not range.isDateAfterPeriod(iter):
+                count += 1
+                if count > maxInstances:
+                    raise TooManyInstancesError("Too many instances")
             if range.isDateWithinPeriod(iter):
                 items.append(iter)
             else:
-- 
2.43.0


From 4b4a5c29d6a24d58e2103d0438db25b6c67171c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 007/119] fix: changing a date returned by an expansion changed
 later expansions

The items of the cache itself were handed out.
---
 src/pycalendar/icalendar/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 83b0491..3e35385 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -880,7 +880,8 @@ class Recurrence(ValueMixin):
                 if count > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                # Callers get their own copy, the cached one must not change
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
-- 
2.43.0


From c8cc6c18b886f5f090cdabd544e6f60530c49cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 008/119] fix: recurrence cache gave stale or partial results

- after an expansion that hit the instance limit, the partial list was used as
  if it were complete
- after DTSTART or the range end were changed in place
- after DTSTART changed between date, floating, UTC or timezone, when the values
  compare as equal; likewise for ranges given as dates and as date-times
---
 src/pycalendar/icalendar/recurrence.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3e35385..d815dd5 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -846,19 +846,23 @@ class Recurrence(ValueMixin):
             self.mRecurrences = []
 
         # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
+        if self.mCached and not self.sameDateTime(start, self.mCacheStart):
             self.mCached = False
             self.mFullyCached = False
 
         # Is the current cache complete or does it extend past the requested
         # range end
         if not self.mCached or not self.mFullyCached \
-                and (self.mCacheUpto is None or self.mCacheUpto < range.getEnd()):
+                and (self.mCacheUpto is None or not self.sameType(self.mCacheUpto, range.getEnd()) or self.mCacheUpto < range.getEnd()):
 
             # Always wipe the existing cached items as we always start from the very first instance
             # so we can properly track the count limit
             self.mRecurrences = []
 
+            # Nothing is cached if the expansion does not complete
+            self.mCached = False
+            self.mFullyCached = False
+
             # Simple expansion is one where there is no BYXXX rule part
             if not self.hasBy():
                 self.mFullyCached = self.simpleExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
@@ -867,8 +871,8 @@ class Recurrence(ValueMixin):
 
             # Set cache values
             self.mCached = True
-            self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheStart = start.duplicate()
+            self.mCacheUpto = range.getEnd().duplicate()
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
@@ -886,6 +890,20 @@ class Recurrence(ValueMixin):
                 limited = True
         return limited
 
+    @staticmethod
+    def sameType(dt1, dt2):
+        return (
+            dt1.isDateOnly() == dt2.isDateOnly() and
+            dt1.getTimezoneUTC() == dt2.getTimezoneUTC() and
+            dt1.getTimezoneID() == dt2.getTimezoneID()
+        )
+
+    @staticmethod
+    def sameDateTime(dt1, dt2):
+        # An all day, a floating or a timed value in some timezone compare as equal
+        # to others that do not recur in the same way
+        return Recurrence.sameType(dt1, dt2) and dt1 == dt2
+
     def simpleExpand(self, start, range, items, float_offset, maxInstances=None):
         start_iter = start.duplicate()
         ctr = 0
-- 
2.43.0


From 2b7dfc9ff8780a65e9d4e932499af73ffa9d26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 009/119] fix: BYMONTH had no effect on YEARLY rules with
 BYYEARDAY or BYWEEKNO

---
 src/pycalendar/icalendar/recurrence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index d815dd5..2873412 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1109,6 +1109,10 @@ class Recurrence(ValueMixin):
             else:
                 items[:] = self.byDayExpandYearly(items)
 
+        if self.mByMonth and (self.mByWeekNo or self.mByYearDay):
+            # These have moved the dates to other months, so limit them
+            items[:] = self.byMonthLimit(filter(lambda x: not x.invalid(), items))
+
         if (self.mByHours is not None) and (len(self.mByHours) != 0):
             items[:] = self.byHourExpand(items)
 
-- 
2.43.0


From 50227339f02c2855abd606cc404db8eb9d36a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 010/119] fix: timezone onsets of the last year asked about
 were missing

expandBelow and expandAll share a cache that is filled for whole years, but it
only went up to the start of the year (or the end of the range) asked about, so
descriptors and onsets depended on what was asked before.
---
 src/pycalendar/icalendar/vtimezoneelement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..b56fdde 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -124,7 +124,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(below.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -184,7 +184,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(end.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -193,7 +193,7 @@ class VTimezoneElement(Component):
                 self.mCachedExpandBelow = self.mStart.duplicate()
             if temp > self.mCachedExpandBelow:
                 self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, end)
+                period = Period(self.mStart, temp)
                 self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                 self.mCachedExpandBelow = temp
 
-- 
2.43.0


From e4e265c8687619b2822bc55cd84c3c1110a8f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 011/119] fix: UTC offset cache ignored seconds

Onsets that are not on a whole minute (local mean time) made the offset depend on
which second of that minute was asked about first.
---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..7274e46 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From 87575848e5370f6a23e1cd04b95e428d7f7c0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 012/119] fix: UTC offset at the end of the year was sometimes
 that of the old year

An onset at the start of a year falls in the previous year in UTC when the zone is
ahead of UTC, but the cache of onsets stops at the end of a local year.
---
 src/pycalendar/icalendar/vtimezone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 7274e46..919236c 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -150,8 +150,9 @@ class VTimezone(Component):
         temp = dt.duplicate()
         temp.setTimezoneID(None)
 
-        # Check whether we need to recache
-        if self.mCachedExpandAllMaxYear is None or temp.mYear >= self.mCachedExpandAllMaxYear:
+        # Check whether we need to recache - always go past the end of the year asked about
+        # as a UTC time can be in the next year locally
+        if self.mCachedExpandAllMaxYear is None or temp.mYear + 1 >= self.mCachedExpandAllMaxYear:
             cacheMax = temp.duplicate()
             cacheMax.setHHMMSS(0, 0, 0)
             cacheMax.offsetYear(2)
-- 
2.43.0


From 49b9914b2bae7e521f417fa59f6a0f07fa0fad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 013/119] fix: lists of text were split at escaped separators

---
 src/pycalendar/multivalue.py |  9 +++---
 src/pycalendar/utils.py      | 54 ++++++++++++++----------------------
 2 files changed, 26 insertions(+), 37 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..c4472b2 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from pycalendar.utils import splitEscapedText
 from pycalendar.value import Value
 
 
@@ -56,11 +57,11 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
-        if "," in data:
-            tokens = data.split(",")
+        # Tokenize on comma, though not one that is escaped in text
+        if self.mType == Value.VALUETYPE_TEXT:
+            tokens = splitEscapedText(data, ",")
         else:
-            tokens = (data,)
+            tokens = data.split(",")
         for token in tokens:
             # Create single value, and parse data
             value = Value.createFromType(self.mType)
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..a17545f 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -259,23 +259,33 @@ def decodeParameterValue(value):
         return value
 
 
-# vCard text list parsing/generation
-def parseTextList(data, sep=';', always_list=False):
+def splitEscapedText(data, sep):
     """
-    Each element of the list has to be separately un-escaped
+    Split escaped text at each separator that is not itself escaped. The items are not un-escaped.
     """
     results = []
     item = []
-    pre_s = ''
+    escaped = False
     for s in data:
-        if s == sep and pre_s != '\\':
-            results.append(decodeTextValue("".join(item)))
+        if s == sep and not escaped:
+            results.append("".join(item))
             item = []
         else:
             item.append(s)
-        pre_s = s
 
-    results.append(decodeTextValue("".join(item)))
+        # An escaped backslash does not escape what follows it
+        escaped = s == '\\' and not escaped
+
+    results.append("".join(item))
+    return results
+
+
+# vCard text list parsing/generation
+def parseTextList(data, sep=';', always_list=False):
+    """
+    Each element of the list has to be separately un-escaped
+    """
+    results = [decodeTextValue(item) for item in splitEscapedText(data, sep)]
 
     return tuple(results) if len(results) > 1 or always_list else (results[0] if len(results) else "")
 
@@ -296,31 +306,9 @@ def generateTextList(os, data, sep=';'):
 # vCard double-nested list parsing/generation
 def parseDoubleNestedList(data, maxsize):
     results = []
-    items = [""]
-    pre_s = ''
-    for s in data:
-        if s == ';' and pre_s != '\\':
-
-            if len(items) > 1:
-                results.append(tuple([decodeTextValue(item) for item in items]))
-            elif len(items) == 1:
-                results.append(decodeTextValue(items[0]))
-            else:
-                results.append("")
-
-            items = [""]
-        elif s == ',' and pre_s != '\\':
-            items.append("")
-        else:
-            items[-1] += s
-        pre_s = s
-
-    if len(items) > 1:
-        results.append(tuple([decodeTextValue(item) for item in items]))
-    elif len(items) == 1:
-        results.append(decodeTextValue(items[0]))
-    else:
-        results.append("")
+    for element in splitEscapedText(data, ';'):
+        items = [decodeTextValue(item) for item in splitEscapedText(element, ',')]
+        results.append(tuple(items) if len(items) > 1 else items[0])
 
     for _ignore in range(maxsize - len(results)):
         results.append("")
-- 
2.43.0


From d655a19b12827df5faa2db1daca0ddfc00c7ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 014/119] fix: an error while reading was taken for the end of
 the data

---
 src/pycalendar/utils.py | 56 +++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index a17545f..9052894 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -18,6 +18,23 @@ from pycalendar.parser import ParserContext
 import cStringIO as StringIO
 
 
+def readLine(ins):
+    """
+    Read one line, without its line ending.
+
+    @return: the line, or L{None} at the end of the data
+    """
+    myline = ins.readline()
+    if len(myline) == 0:
+        return None
+    if myline[-1] == "\n":
+        return myline[:-2] if myline[-2:-1] == "\r" else myline[:-1]
+    elif myline[-1] == "\r":
+        return myline[:-1]
+    else:
+        return myline
+
+
 def readFoldedLine(ins, lines):
 
     # If line2 already has data, transfer that into line1
@@ -25,47 +42,14 @@ def readFoldedLine(ins, lines):
         lines[0] = lines[1]
     else:
         # Fill first line
-        try:
-            myline = ins.readline()
-            if len(myline) == 0:
-                raise ValueError("Folding: empty first line")
-            if myline[-1] == "\n":
-                if myline[-2] == "\r":
-                    lines[0] = myline[:-2]
-                else:
-                    lines[0] = myline[:-1]
-            elif myline[-1] == "\r":
-                lines[0] = myline[:-1]
-            else:
-                lines[0] = myline
-        except IndexError:
-            lines[0] = ""
-        except:
-            lines[0] = None
+        lines[0] = readLine(ins)
+        if lines[0] is None:
             return False
 
     # Now loop looking ahead at the next line to see if it is folded
     while True:
         # Get next line
-        try:
-            myline = ins.readline()
-            if len(myline) == 0:
-                raise ValueError("Folding: empty next line")
-            if myline[-1] == "\n":
-                if myline[-2] == "\r":
-                    lines[1] = myline[:-2]
-                else:
-                    lines[1] = myline[:-1]
-            elif myline[-1] == "\r":
-                lines[1] = myline[:-1]
-            else:
-                lines[1] = myline
-        except IndexError:
-            lines[1] = ""
-        except:
-            lines[1] = None
-            return True
-
+        lines[1] = readLine(ins)
         if not lines[1]:
             return True
 
-- 
2.43.0


From 8072f4d5b6d03baf43bf6fa6d80a1222a761755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 015/119] fix: truncated data was accepted when a component was
 still open

---
 src/pycalendar/containerbase.py      | 4 ++++
 src/pycalendar/icalendar/calendar.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..0e26f31 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -163,6 +163,10 @@ class ContainerBase(ComponentBase):
                 # Look for end of object
                 elif line == self.getEndDelimiter():
 
+                    # All sub-components must be complete
+                    if comp is not self:
+                        raise InvalidData("%s data not complete" % (self.sContainerDescriptor,), line)
+
                     # Finalise the current calendar
                     self.finalise()
 
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..dcfa40c 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -260,6 +260,10 @@ class Calendar(ContainerBase):
 
                 elif line == self.getEndDelimiter():
 
+                    # All sub-components must be complete
+                    if comp is not self:
+                        raise InvalidData("iCalendar data not complete", line)
+
                     # Change state
                     state = GOT_VCALENDAR
 
@@ -297,6 +301,10 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
-- 
2.43.0


From 5ec37de34f56a54d135ac4282609dd007983e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 016/119] fix: JSON parameters with several values could not be
 read

---
 src/pycalendar/property.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..f97b777 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -440,7 +440,8 @@ class PropertyBase(object):
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    values = value if isinstance(value, list) else [value]
+                    attrvalue = Parameter(name=name.encode("utf-8"), value=[v.encode("utf-8") for v in values])
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From d97f2b68e03c8a134aea3924d48f4b48e5dab669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 017/119] fix: the order of parameter values made equal
 properties differ

---
 src/pycalendar/parameter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..b3e6b60 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -42,7 +42,7 @@ class Parameter(object):
         return other
 
     def __hash__(self):
-        return hash((self.mName.upper(), tuple(self.mValues)))
+        return hash((self.mName.upper(), tuple(sorted(self.mValues))))
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -50,7 +50,8 @@ class Parameter(object):
     def __eq__(self, other):
         if not isinstance(other, Parameter):
             return False
-        return self.mName.upper() == other.mName.upper() and self.mValues == other.mValues
+        # The order of values does not matter, they are always written out sorted
+        return self.mName.upper() == other.mName.upper() and sorted(self.mValues) == sorted(other.mValues)
 
     def getName(self):
         return self.mName
-- 
2.43.0


From 06a8a02e51ee69a1aea2633e4cd4e4f2998a4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 018/119] fix: vCard JSON lost groups and could not hold N, ADR
 and ORG

---
 src/pycalendar/property.py       | 8 ++++++++
 src/pycalendar/utils.py          | 9 +++++++++
 src/pycalendar/vcard/adr.py      | 2 +-
 src/pycalendar/vcard/adrvalue.py | 3 ++-
 src/pycalendar/vcard/n.py        | 2 +-
 src/pycalendar/vcard/nvalue.py   | 3 ++-
 src/pycalendar/vcard/orgvalue.py | 8 ++++----
 7 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index f97b777..782cbeb 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -438,6 +438,11 @@ class PropertyBase(object):
             # Get the parameters
             if jobject[1]:
                 for name, value in jobject[1].items():
+                    # A vCard group is not a parameter
+                    if prop.sUsesGroup and name.lower() == "group":
+                        prop.mGroup = value.encode("utf-8")
+                        continue
+
                     # Now add parameter value
                     name = name.upper()
                     values = value if isinstance(value, list) else [value]
@@ -492,6 +497,9 @@ class PropertyBase(object):
         ]
         jobject.append(prop)
 
+        if self.sUsesGroup and self.mGroup:
+            prop[1]["group"] = self.mGroup
+
         # Write all parameters
         for key in sorted(self.mParameters.keys()):
             for attr in self.mParameters[key]:
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 9052894..cd1b941 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -326,6 +326,15 @@ def generateDoubleNestedList(os, data):
     except:
         pass
 
+
+def parseJSONList(jobject):
+    """
+    Convert a possibly nested list of JSON strings to the equivalent tuples of C{str}
+    """
+    if isinstance(jobject, basestring):
+        return jobject.encode("utf-8")
+    return tuple([parseJSONList(item) for item in jobject])
+
 # Date/time calcs
 days_in_month = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
 days_in_month_leap = (0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..1f35b7a 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -100,7 +100,7 @@ class Adr(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseJSONList(jobject)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/adrvalue.py b/src/pycalendar/vcard/adrvalue.py
index 8a1f01a..22a7d8a 100644
--- a/src/pycalendar/vcard/adrvalue.py
+++ b/src/pycalendar/vcard/adrvalue.py
@@ -16,6 +16,7 @@
 
 # vCard ADR value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.adr import Adr
@@ -26,4 +27,4 @@ class AdrValue(WrapperValue, Value):
     _wrappedClass = Adr
     _wrappedType = Value.VALUETYPE_ADR
 
-Value.registerType(Value.VALUETYPE_ADR, AdrValue, None)
+Value.registerType(Value.VALUETYPE_ADR, AdrValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..f614a07 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -99,7 +99,7 @@ class N(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseJSONList(jobject)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/nvalue.py b/src/pycalendar/vcard/nvalue.py
index e5e9c00..a2b97b3 100644
--- a/src/pycalendar/vcard/nvalue.py
+++ b/src/pycalendar/vcard/nvalue.py
@@ -16,6 +16,7 @@
 
 # vCard N value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.n import N
@@ -26,4 +27,4 @@ class NValue(WrapperValue, Value):
     _wrappedClass = N
     _wrappedType = Value.VALUETYPE_N
 
-Value.registerType(Value.VALUETYPE_N, NValue, None)
+Value.registerType(Value.VALUETYPE_N, NValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..449e8d1 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -16,7 +16,7 @@
 
 # vCard ORG value
 
-from pycalendar import utils
+from pycalendar import utils, xmldefinitions
 from pycalendar.value import Value
 
 
@@ -41,10 +41,10 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseJSONList(jobject)
 
     def writeJSONValue(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append(self.mValue if isinstance(self.mValue, basestring) else list(self.mValue))
 
     def getValue(self):
         return self.mValue
@@ -52,4 +52,4 @@ class OrgValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
+Value.registerType(Value.VALUETYPE_ORG, OrgValue, None, xmldefinitions.value_text)
-- 
2.43.0


From 8dfb7fb6b0628590aa01841e001b414050ced2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 019/119] fix: JSON lost all but the last of repeated
 parameters

---
 src/pycalendar/parameter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index b3e6b60..a36505c 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -116,4 +116,10 @@ class Parameter(object):
             text.text = value
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        # The same parameter may be present more than once
+        name = self.getName().lower()
+        values = self.mValues
+        if name in jobject:
+            previous = jobject[name]
+            values = (previous if isinstance(previous, list) else [previous]) + values
+        jobject[name] = values if len(values) != 1 else values[0]
-- 
2.43.0


From 72c17a41674bd224a4b432ace157f43894f7731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 020/119] fix: time zones in JSON data were not available to
 date values

---
 src/pycalendar/icalendar/calendar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index dcfa40c..6ee93ad 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -200,6 +200,17 @@ class Calendar(ContainerBase):
 
         return result
 
+    @classmethod
+    def parseJSONData(cls, data):
+
+        result = super(Calendar, cls).parseJSONData(data)
+
+        # As for text, all timezones must be accessible by any date object
+        from pycalendar.timezonedb import TimezoneDatabase
+        TimezoneDatabase.mergeTimezones(result, result.getComponents(definitions.cICalComponent_VTIMEZONE))
+
+        return result
+
     def parseComponent(self, ins):
 
         result = None
-- 
2.43.0


From e8b84309ac7187d9ba43a91c885423dccd0b9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 021/119] fix: TZID was ignored on PERIOD values

---
 src/pycalendar/icalendar/property.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 02a42ff..67219f8 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -266,16 +266,20 @@ class Property(PropertyBase):
         """
 
         # Look for TZID parameter
-        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME) and self.hasParameter(definitions.cICalParameter_TZID):
+        if (
+            value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and
+            self.hasParameter(definitions.cICalParameter_TZID)
+        ):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
-            if isinstance(self.mValue, DateTimeValue):
-                self.mValue.getValue().setTimezoneID(tzid)
-
-            elif isinstance(self.mValue, MultiValue):
-                for item in self.mValue.getValues():
-                    if isinstance(item, DateTimeValue):
-                        item.getValue().setTimezoneID(tzid)
+            for item in (self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,)):
+                if isinstance(item, DateTimeValue):
+                    item.getValue().setTimezoneID(tzid)
+                elif isinstance(item, PeriodValue):
+                    period = item.getValue()
+                    period.getStart().setTimezoneID(tzid)
+                    if not period.getUseDuration():
+                        period.getEnd().setTimezoneID(tzid)
 
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
-- 
2.43.0


From 073b18822c22c4498e7f1b092c9cfce014b4a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 022/119] fix: filtered output failed for filters with
 sub-components

---
 src/pycalendar/componentbase.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..e597d9d 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -407,7 +407,7 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
+            for subcomp in self.sortedComponents():
                 subfilter = filter.getSubComponentFilter(subcomp.getType())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
@@ -428,9 +428,10 @@ class ComponentBase(object):
 
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
+                for subcomp in self.sortedComponents():
+                    subcomp.writeXML(comps, namespace)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
@@ -447,9 +448,9 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
-- 
2.43.0


From 1bc3a59cd42f5c7ed6812b7544e55237356f332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 023/119] fix: time zones only used in lists of dates or
 periods were not included

---
 src/pycalendar/icalendar/component.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..32d124f 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -17,8 +17,11 @@
 from pycalendar import stringutils
 from pycalendar.componentbase import ComponentBase
 from pycalendar.datetime import DateTime
+from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.icalendar import definitions
 from pycalendar.icalendar.property import Property
+from pycalendar.multivalue import MultiValue
+from pycalendar.periodvalue import PeriodValue
 import os
 import time
 import uuid
@@ -181,11 +184,17 @@ class Component(ComponentBase):
         # Look for all date-time properties
         for props in self.mProperties.itervalues():
             for prop in props:
-                # Try to get a date-time value from the property
-                dtv = prop.getDateTimeValue()
-                if dtv is not None:
+                # Try to get date-time values from the property
+                value = prop.getValue()
+                for item in (value.getValues() if isinstance(value, MultiValue) else (value,)):
+                    if isinstance(item, DateTimeValue):
+                        dt = item.getValue()
+                    elif isinstance(item, PeriodValue):
+                        dt = item.getValue().getStart()
+                    else:
+                        continue
                     # Add timezone id if appropriate
-                    if dtv.getValue().getTimezoneID():
-                        tzids.add(dtv.getValue().getTimezoneID())
+                    if dt.getTimezoneID():
+                        tzids.add(dt.getTimezoneID())
 
 Component.sComponentType = Component
-- 
2.43.0


From 297af167f45b4229e983c722c37a0515420593d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 024/119] fix: alarms were written in an order that changed
 from object to object

---
 src/pycalendar/icalendar/valarm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..6ad218d 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -339,6 +339,7 @@ class VAlarm(Component):
 
     def duplicate(self, parent=None):
         other = super(VAlarm, self).duplicate(parent=parent)
+        other.mMapKey = self.getMapKey()
         other.mAction = self.mAction
         other.mTriggerAbsolute = self.mTriggerAbsolute
         other.mTriggerOn = self.mTriggerOn.duplicate()
@@ -454,7 +455,7 @@ class VAlarm(Component):
             self.mRepeatInterval = temp
 
         # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+        self.mMapKey = "%s:%s" % (self.mAction, (self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy).getText(),)
 
         # Alarm status - private to Mulberry
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
-- 
2.43.0


From 22899f31809abe36b913b955a59cf81036cccc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 025/119] fix: recurrences with an RDATE that is a period could
 not be expanded

---
 src/pycalendar/componentbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index e597d9d..617b79b 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -539,9 +539,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
-- 
2.43.0


From 42704f3821076c3cc32fd8bc03b156b9c358c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 026/119] fix: period properties made from values did not write
 their time zone

---
 src/pycalendar/icalendar/property.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 67219f8..7750c2f 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -333,6 +333,10 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if len(periodlist) > 0:
+            self._init_attr_period_timezone(periodlist[0])
+
     def _init_attr_value_duration(self, du):
         # Value
         self.mValue = DurationValue(value=du)
@@ -347,6 +351,17 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        self._init_attr_period_timezone(pe)
+
+    def _init_attr_period_timezone(self, pe):
+        start = pe.getStart()
+        if not start.isDateOnly() and start.local():
+            if definitions.cICalParameter_TZID in self.mParameters:
+                del self.mParameters[definitions.cICalParameter_TZID]
+            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
+                Parameter(name=definitions.cICalParameter_TZID, value=start.getTimezoneID()))
+
     def _init_attr_value_recur(self, recur):
         # Value
         self.mValue = RecurrenceValue(value=recur)
-- 
2.43.0


From 323b7b14143ffe63d19ff5163a836c9d093f3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 027/119] fix: components that differ only in how often a
 property occurs compared equal

---
 src/pycalendar/componentbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 617b79b..9a0d672 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -21,6 +21,7 @@ from pycalendar.periodvalue import PeriodValue
 from pycalendar.value import Value
 import xml.etree.cElementTree as XML
 from pycalendar.exceptions import InvalidComponent, ErrorBase
+import collections
 
 
 class ComponentBase(object):
@@ -148,10 +149,10 @@ class ComponentBase(object):
         return ()
 
     def compareProperties(self, other):
-        mine = set()
+        mine = collections.Counter()
         for props in self.mProperties.values():
             mine.update(props)
-        theirs = set()
+        theirs = collections.Counter()
         for props in other.mProperties.values():
             theirs.update(props)
         return mine == theirs
-- 
2.43.0


From f347d804391dc3d7398e023580c6a5274118278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 028/119] fix: vCard properties in different groups compared
 equal

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..7177e1e 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From 1b0a42ade3a6345809620e3fb9b881848468bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 029/119] fix: a period kept its first end or duration when its
 start, end or duration changed later

---
 src/pycalendar/period.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..7af803e 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -85,7 +85,7 @@ class Period(ValueMixin):
                     self.mUseDuration = True
                     self.mEnd = None
                 else:
-                    self.mEnd.parse(end, fullISO)
+                    self.mEnd = DateTime.parseText(end, fullISO)
                     self.mUseDuration = False
                     self.mDuration = None
             else:
@@ -137,24 +137,28 @@ class Period(ValueMixin):
         return self.mStart
 
     def getEnd(self):
-        if self.mEnd is None:
-            self.mEnd = self.mStart + self.mDuration
+        if self.mUseDuration:
+            # Always determine this from the current start and duration
+            return self.mStart + self.mDuration
         return self.mEnd
 
     def getDuration(self):
-        if self.mDuration is None:
-            self.mDuration = self.mEnd - self.mStart
+        if not self.mUseDuration:
+            # Always determine this from the current start and end
+            return self.mEnd - self.mStart
         return self.mDuration
 
     def getUseDuration(self):
         return self.mUseDuration
 
     def setUseDuration(self, use):
+        if use and not self.mUseDuration:
+            self.mDuration = self.getDuration()
+            self.mEnd = None
+        elif not use and self.mUseDuration:
+            self.mEnd = self.getEnd()
+            self.mDuration = None
         self.mUseDuration = use
-        if self.mUseDuration and self.mDuration is None:
-            self.getDuration()
-        elif not self.mUseDuration and self.mEnd is None:
-            self.getEnd()
 
     def isDateWithinPeriod(self, dt):
         # Inclusive start, exclusive end
@@ -174,7 +178,8 @@ class Period(ValueMixin):
 
     def adjustToUTC(self):
         self.mStart.adjustToUTC()
-        self.getEnd().adjustToUTC()
+        if not self.mUseDuration:
+            self.mEnd.adjustToUTC()
 
     def describeDuration(self):
         return ""
-- 
2.43.0


From d26458e4fcf666068e90a20c6152e12c96c5d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 030/119] fix: periods could not be compared with != or >

---
 src/pycalendar/period.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 7af803e..c091d9f 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -56,11 +56,17 @@ class Period(ValueMixin):
     def __str__(self):
         return self.getText()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
+        if not isinstance(comp, Period):
+            return False
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
     def __gt__(self, comp):
-        return self.mStart > comp
+        return self.mStart > comp.mStart  \
+            or (self.mStart == comp.mStart) and self.getEnd() > comp.getEnd()
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
-- 
2.43.0


From 2431d883201ba0c3f7f80d74b4a9c947b8f98401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 031/119] fix: durations could not be compared with !=

---
 src/pycalendar/duration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..98d1523 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -51,7 +51,12 @@ class Duration(ValueMixin):
     def __hash__(self):
         return hash(self.getTotalSeconds())
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
+        if not isinstance(comp, Duration):
+            return False
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
     def __gt__(self, comp):
-- 
2.43.0


From 964481fbaf10eee3eee9075a6b4ef2fc97614c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 032/119] fix: excluding a recurrence instance always failed

---
 src/pycalendar/icalendar/componentrecur.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..088b153 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -613,10 +613,11 @@ class ComponentRecur(Component):
             return
 
         # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
+        start = start.duplicate()
+        self.mRecurrences.subtractDT(start)
 
         # Add property
-        prop = Property(definitions.cICalProperty_EXDATE, start)
+        prop = Property(definitions.cICalProperty_EXDATE, [start])
         self.addProperty(prop)
 
     def excludeFutureRecurrence(self, start):
-- 
2.43.0


From 1eea60ac496c13cd1995a862db6862103bd91d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 033/119] fix: instances of recurring events with a duration
 had no length

---
 src/pycalendar/icalendar/componentexpanded.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..d73791a 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -120,10 +120,7 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid
 
             # End is based on original events settings
-            if self.mOwner.hasEnd():
-                self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
-            else:
-                self.mInstanceEnd = self.mInstanceStart.duplicate()
+            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
             self.mRecurring = True
 
-- 
2.43.0


From 4a461128163e2beca9c16c02d34ec4f97243fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 034/119] fix: changing the dates of an expanded event changed
 the event

---
 src/pycalendar/icalendar/componentexpanded.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index d73791a..40186c5 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -108,8 +108,8 @@ class ComponentExpanded(object):
         # rid is not set if the owner is the master (case 1)
         if rid is None:
             # Just get start/end from owner
-            self.mInstanceStart = self.mOwner.getStart()
-            self.mInstanceEnd = self.mOwner.getEnd()
+            self.mInstanceStart = self.mOwner.getStart().duplicate()
+            self.mInstanceEnd = self.mOwner.getEnd().duplicate()
             self.mRecurring = False
 
         # If the owner is not a recurrence instance then it is case 2
@@ -117,7 +117,7 @@ class ComponentExpanded(object):
             # Derive start/end from rid and duration of master
 
             # Start of the recurrence instance is the recurrence id
-            self.mInstanceStart = rid
+            self.mInstanceStart = rid.duplicate()
 
             # End is based on original events settings
             self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
@@ -128,8 +128,8 @@ class ComponentExpanded(object):
         # as the component rid we have case 3
         elif rid == self.mOwner.getRecurrenceID():
             # Derive start/end directly from the owner
-            self.mInstanceStart = self.mOwner.getStart()
-            self.mInstanceEnd = self.mOwner.getEnd()
+            self.mInstanceStart = self.mOwner.getStart().duplicate()
+            self.mInstanceEnd = self.mOwner.getEnd().duplicate()
 
             self.mRecurring = True
 
-- 
2.43.0


From 265a6d195de8dfbfdff187dc875b21ed725cc5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 035/119] fix: expanded events were not sorted

---
 src/pycalendar/icalendar/componentexpanded.py | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 40186c5..d39d576 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -23,33 +23,28 @@ class ComponentExpanded(object):
     def sort_by_dtstart_allday(e1, e2):
 
         if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
         elif e1.mInstanceStart.isDateOnly():
-            return True
+            return -1
         elif e2.mInstanceStart.isDateOnly():
-            return False
+            return 1
         elif e1.mInstanceStart == e2.mInstanceStart:
             if e1.mInstanceEnd == e2.mInstanceEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
+                return cmp(e1.getOwner().getStamp(), e2.getOwner().getStamp())
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+                return cmp(e2.mInstanceEnd, e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
         if e1.mInstanceStart == e2.mInstanceStart:
-            if (
-                e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
-                not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
-            ):
-                return e1.mInstanceStart.isDateOnly()
-            else:
-                return False
+            # Put all-day ones first
+            return cmp(e2.mInstanceStart.isDateOnly(), e1.mInstanceStart.isDateOnly())
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     def __init__(self, owner, rid):
 
-- 
2.43.0


From bc678deb5e5256f05b7aaefb34d7c8884416267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 036/119] fix: the difference of two lists of dates lost their
 order

---
 src/pycalendar/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index cd1b941..6e19e7a 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -495,7 +495,6 @@ def set_difference(v1, v2):
     if len(v1) == 0 or len(v2) == 0:
         return v1
 
-    s1 = set(v1)
+    # Keep the order of the first list
     s2 = set(v2)
-    s3 = s1.difference(s2)
-    return list(s3)
+    return [x for x in v1 if x not in s2]
-- 
2.43.0


From afaa16369b1fd4ae1fe35cc4c256b46e2f132204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 037/119] fix: instances from periods ended with the length of
 the event

---
 src/pycalendar/icalendar/componentexpanded.py |  3 +++
 src/pycalendar/icalendar/componentrecur.py    | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index d39d576..8cc77a3 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -77,6 +77,9 @@ class ComponentExpanded(object):
     def getInstanceEnd(self):
         return self.mInstanceEnd
 
+    def setInstanceEnd(self, end):
+        self.mInstanceEnd = end.duplicate()
+
     def recurring(self):
         return self.mRecurring
 
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 088b153..69a1c46 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -672,4 +672,13 @@ class ComponentRecur(Component):
                 self.mEnd = self.mStart + temp
 
     def createExpanded(self, master, recurid):
-        return ComponentExpanded(master, recurid)
+        result = ComponentExpanded(master, recurid)
+
+        # An instance that comes from a period has its own end
+        if master is self:
+            for period in self.mRecurrences.getPeriods():
+                if period.getStart() == recurid:
+                    result.setInstanceEnd(period.getEnd())
+                    break
+
+        return result
-- 
2.43.0


From 0d8cb9080ad89eef121344ea571503b8fd40bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 038/119] fix: periods that start before the window could not
 be excluded

---
 src/pycalendar/icalendar/recurrenceset.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..bf7c667 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -210,13 +210,11 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.expand(start, range, exclude, float_offset=float_offset)
 
-        # EXDATES
+        # EXDATES - these are not limited to the range as they also exclude periods that start before it
         for iter in self.mExdates:
-            if range.isDateWithinPeriod(iter):
-                exclude.append(iter)
+            exclude.append(iter)
         for iter in self.mExperiods:
-            if range.isPeriodOverlap(iter):
-                exclude.append(iter.getStart())
+            exclude.append(iter.getStart())
 
         # Make sure the list is unique
         exclude = [x for x in set(exclude)]
-- 
2.43.0


From 2d4aeea873aca91a76405b1b8210336d0424f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 039/119] fix: overrides of this and future instances were
 ignored or failed

---
 src/pycalendar/icalendar/componentrecur.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 69a1c46..20588ad 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -428,8 +428,8 @@ class ComponentRecur(Component):
                             results.append(self.createExpanded(self, iter))
                     else:
                         # Sort each list first
-                        prior.sort(self.sort_by_dtstart)
-                        future.sort(self.sort_by_dtstart)
+                        prior.sort(key=lambda x: x.getRecurrenceID())
+                        future.sort(key=lambda x: x.getRecurrenceID())
 
                         # Add each expanded item
                         for iter1 in items:
@@ -438,17 +438,15 @@ class ComponentRecur(Component):
                             # instead of the master as appropriate
                             slave = None
 
-                            # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, 0, -1):
-                                riter2 = prior[i]
-                                if riter2.getStart() > iter1:
+                            # Find most appropriate THISANDPRIOR item - the first one after
+                            for riter2 in prior:
+                                if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
                                     break
 
-                            # Find most appropriate THISANDFUTURE item
-                            for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
-                                if riter2.getStart() < iter1:
+                            # Find most appropriate THISANDFUTURE item - the last one before
+                            for riter2 in reversed(future):
+                                if riter2.getRecurrenceID() < iter1:
                                     slave = riter2
                                     break
 
-- 
2.43.0


From a26a83b5e8128013b26efe2d1b7537c1d58639d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 040/119] fix: time zone identifiers could lead out of the time
 zone database

---
 src/pycalendar/timezonedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..5aa2c9d 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
-        tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        # The timezone identifier must not lead out of the database directory
+        dbpath = os.path.abspath(self.dbpath)
+        tzpath = os.path.abspath(os.path.join(dbpath, "%s.ics" % (tzid,)))
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From 8a70e6474a7be7eae880375dab943cfa58fb9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 041/119] fix: a time zone file that could not be read for a
 moment, or in full, was not used properly ever after

---
 src/pycalendar/timezonedb.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 5aa2c9d..cb99676 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -14,8 +14,7 @@
 #    limitations under the License.
 ##
 
-from pycalendar.exceptions import NoTimezoneInDatabase, \
-    InvalidData
+from pycalendar.exceptions import ErrorBase, NoTimezoneInDatabase
 import os
 
 
@@ -114,15 +113,24 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
+        from pycalendar.icalendar.calendar import Calendar
+
         # The timezone identifier must not lead out of the database directory
         dbpath = os.path.abspath(self.dbpath)
         tzpath = os.path.abspath(os.path.join(dbpath, "%s.ics" % (tzid,)))
         if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
+            # Read into a separate calendar so that nothing is kept of a file that cannot be used
+            calendar = self.calendar
+            self.calendar = Calendar()
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-            except (IOError, InvalidData):
+                for component in self.calendar.getComponents():
+                    calendar.addComponent(component.duplicate(calendar))
+            except (ErrorBase, ValueError):
                 raise NoTimezoneInDatabase(self.dbpath, tzid)
+            finally:
+                self.calendar = calendar
         else:
             raise NoTimezoneInDatabase(self.dbpath, tzid)
 
@@ -185,6 +193,9 @@ class TimezoneDatabase(object):
                     self.cacheTimezone(tzid)
                 except NoTimezoneInDatabase:
                     pass
+                except EnvironmentError:
+                    # The file is there but cannot be read at the moment - do not remember that
+                    return None
                 tz = self.calendar.getTimezone(tzid)
             self.tzcache[tzid] = tz
             if tz is not None and tzid is not None:
-- 
2.43.0


From 95d6c5b247509229d697f137af0d9b1f41d5cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 042/119] fix: time zones without an offset made every later
 use of the zone fail

---
 src/pycalendar/icalendar/vtimezoneelement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index b56fdde..ae1d732 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -155,8 +155,9 @@ class VTimezoneElement(Component):
             start = self.mStart
 
         # Ignore if there is no change in offset
-        offsetto = self.loadValueInteger(definitions.cICalProperty_TZOFFSETTO, Value.VALUETYPE_UTC_OFFSET)
-        offsetfrom = self.loadValueInteger(definitions.cICalProperty_TZOFFSETFROM, Value.VALUETYPE_UTC_OFFSET)
+        # These may be missing in data that is not valid
+        offsetto = self.loadValueInteger(definitions.cICalProperty_TZOFFSETTO, Value.VALUETYPE_UTC_OFFSET) or 0
+        offsetfrom = self.loadValueInteger(definitions.cICalProperty_TZOFFSETFROM, Value.VALUETYPE_UTC_OFFSET) or 0
 #        if offsetto == offsetfrom:
 #            return ()
 
-- 
2.43.0


From fc637351adca20beec790309ef0c941ce5a85fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 043/119] fix: time zones used in embedded components were not
 included

---
 src/pycalendar/icalendar/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 32d124f..961c8c6 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -197,4 +197,8 @@ class Component(ComponentBase):
                     if dt.getTimezoneID():
                         tzids.add(dt.getTimezoneID())
 
+        # Also those of embedded components
+        for component in self.mComponents:
+            component.getTimezones(tzids)
+
 Component.sComponentType = Component
-- 
2.43.0


From 06f62cfd5b6fa0fe8a800f6a007843ad02ab9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 044/119] fix: date-times could not be set to today or now

---
 src/pycalendar/datetime.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index ba791bb..aae497e 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,24 @@ class DateTime(ValueMixin):
 
         return other
 
+    def copy(self, other):
+        """ Take on the value of another date-time. """
+        self.mYear = other.mYear
+        self.mMonth = other.mMonth
+        self.mDay = other.mDay
+
+        self.mHours = other.mHours
+        self.mMinutes = other.mMinutes
+        self.mSeconds = other.mSeconds
+
+        self.mDateOnly = other.mDateOnly
+
+        self.mTZUTC = other.mTZUTC
+        self.mTZID = other.mTZID
+        self.mTZOffset = other.mTZOffset
+
+        self.changed()
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -662,7 +680,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self.copy(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -675,7 +693,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self.copy(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -684,7 +702,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self.copy(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From d7c0f1405a6347d92444020877d8d09684b36ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 045/119] fix: values of properties that had been removed were
 kept by finalise

---
 src/pycalendar/icalendar/calendar.py       |  6 ++----
 src/pycalendar/icalendar/component.py      |  6 ++----
 src/pycalendar/icalendar/componentrecur.py |  9 ++++-----
 src/pycalendar/icalendar/valarm.py         | 18 +++++++++++-------
 src/pycalendar/icalendar/vevent.py         |  1 +
 src/pycalendar/icalendar/vfreebusy.py      |  8 +++++++-
 src/pycalendar/icalendar/vtodo.py          |  1 +
 7 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 6ee93ad..68f166b 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -164,13 +164,11 @@ class Calendar(ContainerBase):
 
         # Get X-WR-CALNAME
         temps = self.loadValueString(definitions.cICalProperty_XWRCALNAME)
-        if temps is not None:
-            self.mName = temps
+        self.mName = temps if temps is not None else ""
 
         # Get X-WR-CALDESC
         temps = self.loadValueString(definitions.cICalProperty_XWRCALDESC)
-        if temps is not None:
-            self.mDescription = temps
+        self.mDescription = temps if temps is not None else ""
 
     def sortedComponentNames(self):
         return (
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 961c8c6..09657a6 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -164,13 +164,11 @@ class Component(ComponentBase):
     def finalise(self):
         # Get UID
         temps = self.loadValueString(definitions.cICalProperty_UID)
-        if temps is not None:
-            self.mUID = temps
+        self.mUID = temps if temps is not None else ""
 
         # Get SEQ
         temp = self.loadValueInteger(definitions.cICalProperty_SEQUENCE)
-        if temp is not None:
-            self.mSeq = temp
+        self.mSeq = temp if temp is not None else 0
 
         # Cache the original sequence when the component is read in.
         # This will be used to synchronise changes between two instances of the
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 20588ad..d5b1158 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -266,14 +266,11 @@ class ComponentRecur(Component):
             self.mDuration = False
 
         # Get SUMMARY
-        temp = self.loadValueString(definitions.cICalProperty_SUMMARY)
-        if temp is not None:
-            self.mSummary = temp
+        self.mSummary = self.loadValueString(definitions.cICalProperty_SUMMARY)
 
         # Get RECURRENCE-ID
         self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
-        if self.mHasRecurrenceID:
-            self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
+        self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
 
         # Update the map key
         if self.mHasRecurrenceID:
@@ -289,6 +286,8 @@ class ComponentRecur(Component):
                 self.mAdjustPrior = False
         else:
             self.mMapKey = self.mapKey(self.mUID)
+            self.mAdjustFuture = False
+            self.mAdjustPrior = False
 
         self._resetRecurrenceSet()
 
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 6ad218d..b7567be 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -419,7 +419,9 @@ class VAlarm(Component):
         temp = self.loadValueString(definitions.cICalProperty_ACTION)
         if temp is not None:
             self.mAction = VAlarm.sActionMap.get(temp, definitions.eAction_VAlarm_Unknown)
-            self.loadAction()
+        else:
+            self.mAction = definitions.eAction_VAlarm_Display
+        self.loadAction()
 
         # Get the trigger
         if self.hasProperty(definitions.cICalProperty_TRIGGER):
@@ -445,19 +447,22 @@ class VAlarm(Component):
                         self.mTriggerOnStart = False
                 else:
                     self.mTriggerOnStart = True
+        else:
+            self.mTriggerAbsolute = False
+            self.mTriggerOnStart = True
+            self.mTriggerBy = Duration(duration=60 * 60)
 
         # Get repeat & interval
         temp = self.loadValueInteger(definitions.cICalProperty_REPEAT)
-        if temp is not None:
-            self.mRepeats = temp
+        self.mRepeats = temp if temp is not None else 0
         temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
-        if temp is not None:
-            self.mRepeatInterval = temp
+        self.mRepeatInterval = temp if temp is not None else Duration(duration=5 * 60)
 
         # Set a map key for sorting
         self.mMapKey = "%s:%s" % (self.mAction, (self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy).getText(),)
 
         # Alarm status - private to Mulberry
+        self.mAlarmStatus = definitions.eAlarm_Status_Pending
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
         if status is not None:
             if status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING:
@@ -471,8 +476,7 @@ class VAlarm(Component):
 
         # Last trigger time - private to Mulberry
         temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
-        if temp is not None:
-            self.mLastTrigger = temp
+        self.mLastTrigger = temp.duplicate() if temp is not None else DateTime()
 
     def validate(self, doFix=False):
         """
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..caede20 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -83,6 +83,7 @@ class VEvent(ComponentRecur):
         # Do inherited
         super(VEvent, self).finalise()
 
+        self.mStatus = definitions.eStatus_VEvent_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..1b17d68 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -87,17 +87,23 @@ class VFreeBusy(Component):
             # Try DURATION instead
             temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
             if temp is not None:
+                self.mHasEnd = False
                 self.mEnd = self.mStart + temp
                 self.mDuration = True
             else:
                 # Force end to start, which will then be fixed to sensible
                 # value later
-                self.mEnd = self.mStart
+                self.mHasEnd = False
+                self.mEnd = self.mStart.duplicate()
+                self.mDuration = False
         else:
             self.mHasEnd = True
             self.mDuration = False
             self.mEnd = temp
 
+        # The busy time has to be worked out again
+        self.mCachedBusyTime = False
+
     def fixStartEnd(self):
         # End is always greater than start if start exists
         if self.mHasStart and self.mEnd <= self.mStart:
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..4806c52 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -243,6 +243,7 @@ class VToDo(ComponentRecur):
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
         # Get STATUS
+        self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
-- 
2.43.0


From 042f88fa256cc2cfba397077d5ecf8dc769a465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 046/119] fix: the status text of a to-do could not be had

---
 src/pycalendar/icalendar/vtodo.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4806c52..ee42f09 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -21,7 +21,7 @@ from pycalendar.icalendar.component import Component
 from pycalendar.icalendar.componentrecur import ComponentRecur
 from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.validation import ICALENDAR_VALUE_CHECKS
-import cStringIO as StringIO
+from cStringIO import StringIO
 
 
 class VToDo(ComponentRecur):
@@ -159,10 +159,10 @@ class VToDo(ComponentRecur):
                 today = DateTime()
                 today.setToday()
                 if self.getEnd() > today:
-                    sout.append("Due: ")
+                    sout.write("Due: ")
                     whendue = self.getEnd() - today
                     if (whendue.getDays() > 0) and (whendue.getDays() <= 7):
-                        sout.write(whendue.getDays())
+                        sout.write(str(whendue.getDays()))
                         sout.write(" days")
                     else:
                         sout.write(self.getEnd().getLocaleDate(DateTime.NUMERICDATE))
@@ -172,10 +172,10 @@ class VToDo(ComponentRecur):
                     sout.write("Overdue: ")
                     overdue = today - self.getEnd()
                     if overdue.getWeeks() != 0:
-                        sout.write(overdue.getWeeks())
+                        sout.write(str(overdue.getWeeks()))
                         sout.write(" weeks")
                     else:
-                        sout.write(overdue.getDays() + 1)
+                        sout.write(str(overdue.getDays() + 1))
                         sout.write(" days")
             else:
                 sout.write("Not Completed")
@@ -185,10 +185,10 @@ class VToDo(ComponentRecur):
                 sout.write(self.getCompleted().getLocaleDate(DateTime.NUMERICDATE))
             else:
                 sout.write("Completed")
-        elif definitions.eStatus_VToDo_Cancelled:
+        elif self.mStatus == definitions.eStatus_VToDo_Cancelled:
             sout.write("Cancelled")
 
-        return sout.toString()
+        return sout.getvalue()
 
     def getCompletionState(self):
         if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
-- 
2.43.0


From 29e90227b3e347eb32c06e155c406e45d18ba2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 047/119] fix: a to-do without status was written with an empty
 one

---
 src/pycalendar/icalendar/vtodo.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index ee42f09..bba1e1e 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -315,19 +315,21 @@ class VToDo(ComponentRecur):
             value = None
             if status == definitions.eStatus_VToDo_NeedsAction:
                 value = definitions.cICalProperty_STATUS_NEEDS_ACTION
-            if status == definitions.eStatus_VToDo_Completed:
+            elif status == definitions.eStatus_VToDo_Completed:
                 value = definitions.cICalProperty_STATUS_COMPLETED
                 # Add the completed item
-                self.mCompleted.setNowUTC()
+                self.mCompleted = DateTime.getNowUTC()
                 self.mHasCompleted = True
-                prop = Property(definitions.cICalProperty_STATUS_COMPLETED, self.mCompleted)
+                prop = Property(definitions.cICalProperty_COMPLETED, self.mCompleted)
                 self.addProperty(prop)
             elif status == definitions.eStatus_VToDo_InProcess:
                 value = definitions.cICalProperty_STATUS_IN_PROCESS
             elif status == definitions.eStatus_VToDo_Cancelled:
                 value = definitions.cICalProperty_STATUS_CANCELLED
-            prop = Property(definitions.cICalProperty_STATUS, value)
-            self.addProperty(prop)
+
+            if value is not None:
+                prop = Property(definitions.cICalProperty_STATUS, value)
+                self.addProperty(prop)
 
     def editCompleted(self, completed):
         # Remove existing COMPLETED item
@@ -338,7 +340,7 @@ class VToDo(ComponentRecur):
         self.mCompleted = completed.duplicate()
         self.mCompleted.adjustToUTC()
         self.mHasCompleted = True
-        prop = Property(definitions.cICalProperty_STATUS_COMPLETED, self.mCompleted)
+        prop = Property(definitions.cICalProperty_COMPLETED, self.mCompleted)
         self.addProperty(prop)
 
     def sortedPropertyKeyOrder(self):
-- 
2.43.0


From ced5f1afd4bd3311d9b061d139245f7c2041ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 048/119] fix: the name of a calendar could not be edited

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 68f166b..80381c2 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -107,7 +107,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
-- 
2.43.0


From 81c131c4b3a30a4d7bfa107d1e7de398ac1d859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 049/119] fix: recurrence sets could not be edited, and future
 instances not excluded

---
 src/pycalendar/icalendar/componentrecur.py | 31 ++++++++++--------
 src/pycalendar/icalendar/recurrence.py     | 31 ++++++++++++------
 src/pycalendar/icalendar/recurrenceset.py  | 37 ++++++++++------------
 3 files changed, 56 insertions(+), 43 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index d5b1158..7eb132a 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -577,12 +577,8 @@ class ComponentRecur(Component):
             self.addProperty(prop)
 
     def editRecurrenceSet(self, recurs):
-        # Must have items
-        if self.mRecurrences is None:
-            self.mRecurrences = RecurrenceSet()
-
-        # Updated cached values
-        self.mRecurrences = recurs
+        # Updated cached values (a copy as it will be changed by later edits)
+        self.mRecurrences = recurs.duplicate()
 
         # Remove existing RRULE, EXRULE, RDATE & EXDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
@@ -594,14 +590,23 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.getExrules():
+        for iter in self.mRecurrences.getExrules():
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
+        self._addRecurrenceDates()
+        for iter in self.mRecurrences.getExdates():
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
+            self.addProperty(prop)
+        for iter in self.mRecurrences.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
+            self.addProperty(prop)
+
+    def _addRecurrenceDates(self):
         for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
-        for iter in self.mRecurrences.getExdates():
-            prop = Property(definitions.cICalProperty_EXDATE, iter)
+        for iter in self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
 
     def excludeRecurrence(self, start):
@@ -623,7 +628,7 @@ class ComponentRecur(Component):
             return
 
         # Adjust RRULES to end before start
-        self.mRecurrences.excludeFutureRecurrence(start)
+        self.mRecurrences.excludeFutureRecurrence(start, self.mStart)
 
         # Remove existing RRULE & RDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
@@ -633,9 +638,7 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
-            self.addProperty(prop)
+        self._addRecurrenceDates()
 
     def initFromMaster(self):
         # Only if not master
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 2873412..e1b3020 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1046,20 +1046,32 @@ class Recurrence(ValueMixin):
     # the recurrence data should be cached
 
     # Exclude dates on or after the chosen one
-    def excludeFutureRecurrence(self, exclude):
+    def excludeFutureRecurrence(self, exclude, start):
+        """
+        Make the rule end before a date.
+
+        @param exclude: the first date to exclude
+        @type exclude: L{DateTime}
+        @param start: the start of the component which has the rule
+        @type start: L{DateTime}
+
+        @return: L{True} if there is anything left, L{False} otherwise (the rule is not changed then)
+        """
+
         # Expand the rule up to the exclude date
         items = []
-        period = Period()
-        period.init(self.mCacheStart, exclude)
-        self.expand(self.mCacheStart, period, items)
+        self.expand(start, Period(start, exclude), items)
+        if len(items) == 0:
+            return False
 
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
-            # The last one is just less than the exclude date
-            if len(items) != 0:
-                # Now use the data as the UNTIL
-                self.mUseUntil = True
-                self.mUntil = items[-1]
+            # The last one is just less than the exclude date, use it as the UNTIL which is
+            # in UTC unless it is a date or floating
+            self.mUseUntil = True
+            self.mUntil = items[-1].duplicate()
+            if not self.mUntil.isDateOnly() and not self.mUntil.floating():
+                self.mUntil.adjustToUTC()
 
         # Adjust COUNT
         elif self.getUseCount():
@@ -1069,6 +1081,7 @@ class Recurrence(ValueMixin):
 
         # Now clear out the cached set after making changes
         self.clear()
+        return True
 
     def generateYearlySet(self, start, items):
         # All possible BYxxx are valid, though some combinations are not
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index bf7c667..d08c833 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -47,23 +47,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -111,7 +111,7 @@ class RecurrenceSet(object):
         dt1.sort(key=lambda x: x.getPosixTime())
         dt2.sort(key=lambda x: x.getPosixTime())
 
-        return dt1.equal(dt2)
+        return dt1 == dt2
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -127,7 +127,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
@@ -234,16 +234,13 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.clear()
 
-    def excludeFutureRecurrence(self, exclude):
-        # Adjust RRULES to end before start
-        for iter in self.mRrules:
-            iter.excludeFutureRecurrence(exclude)
+    def excludeFutureRecurrence(self, exclude, start):
+        # Adjust RRULES to end before exclude, and remove those that do not even start before it
+        self.mRrules = [iter for iter in self.mRrules if iter.excludeFutureRecurrence(exclude, start)]
 
-        # Remove RDATES on or after start
-        self.mRdates.removeOnOrAfter(exclude)
-        for iter in self.mRperiods:
-            if iter > exclude:
-                self.mRperiods.remove(iter)
+        # Remove RDATES on or after exclude
+        self.mRdates = [iter for iter in self.mRdates if iter < exclude]
+        self.mRperiods = [iter for iter in self.mRperiods if iter.getStart() < exclude]
 
     # UI operations
     def isSimpleUI(self):
@@ -256,7 +253,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isSimpleRule()
+            return self.mRrules[0].isSimpleRule()
         else:
             return True
 
@@ -268,7 +265,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isAdvancedRule()
+            return self.mRrules[0].isAdvancedRule()
         else:
             return True
 
@@ -287,7 +284,7 @@ class RecurrenceSet(object):
         if ((len(self.mRrules) == 1) and (len(self.mExrules) == 0) and (len(self.mRdates) == 0) and
                 (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                 (len(self.mExperiods) == 0)):
-            return self.mRrules.firstElement().getUIDescription()
+            return self.mRrules[0].getUIDescription()
 
         # Indicate some form of complex recurrence
         return "Multiple recurrence rules, dates or exclusions"
-- 
2.43.0


From 4f2eeabd42b48161505d6cd650b2bb58ab041868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 050/119] fix: times set by editing differed from those written

---
 src/pycalendar/icalendar/componentrecur.py | 28 +++++++++++++++++-----
 src/pycalendar/icalendar/vfreebusy.py      | 27 +++++++++------------
 src/pycalendar/icalendar/vtodo.py          |  9 +++++++
 3 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 7eb132a..f8e82d4 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -73,6 +73,10 @@ class ComponentRecur(Component):
         else:
             return e1.self.mStart < e2.self.mStart
 
+    # The property which holds the end, and whether there is an end without one
+    sEndProperty = definitions.cICalProperty_DTEND
+    sImpliedEnd = True
+
     def __init__(self, parent=None):
         super(ComponentRecur, self).__init__(parent=parent)
         self.mMaster = self
@@ -486,7 +490,7 @@ class ComponentRecur(Component):
     # Editing
     def editSummary(self, summary):
         # Updated cached value
-        self.mSummary = summary
+        self.mSummary = summary if summary else None
 
         # Remove existing items
         self.editProperty(definitions.cICalProperty_SUMMARY, summary)
@@ -502,8 +506,8 @@ class ComponentRecur(Component):
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
-        self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mStart = DateTime.getToday()
+        self.mEnd = DateTime.getToday()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -549,9 +553,12 @@ class ComponentRecur(Component):
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        self.mDuration = False
+        if not self._canImplyEnd(start) or self.mEnd != temp:
+            prop = Property(self.sEndProperty, self.mEnd)
             self.addProperty(prop)
+        else:
+            self.mHasEnd = False
 
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
@@ -572,9 +579,18 @@ class ComponentRecur(Component):
         self.addProperty(prop)
 
         # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
+        if (not self._canImplyEnd(start) or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
             prop = Property(definitions.cICalProperty_DURATION, duration)
             self.addProperty(prop)
+        else:
+            self.mDuration = False
+
+    def _canImplyEnd(self, start):
+        """
+        An all day component that says nothing about its end lasts one day, unless it is an
+        instance of something else.
+        """
+        return self.sImpliedEnd and start.isDateOnly() and not self.mHasRecurrenceID
 
     def editRecurrenceSet(self, recurs):
         # Updated cached values (a copy as it will be changed by later edits)
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 1b17d68..8878d7a 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -148,8 +148,9 @@ class VFreeBusy(Component):
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
-        self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mStart = DateTime.getToday()
+        self.mEnd = DateTime.getToday()
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -161,8 +162,9 @@ class VFreeBusy(Component):
         self.mHasStart = self.mHasEnd = True
         self.mStart = start
         self.mEnd = end
-        self.mDuration = False
         self.fixStartEnd()
+        self.mDuration = False
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -173,12 +175,8 @@ class VFreeBusy(Component):
         prop = Property(definitions.cICalProperty_DTSTART, start)
         self.addProperty(prop)
 
-        # If its an all day event and the end one day after the start, ignore it
-        temp = start.duplicate()
-        temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
-            self.addProperty(prop)
+        prop = Property(definitions.cICalProperty_DTEND, self.mEnd)
+        self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
@@ -187,22 +185,19 @@ class VFreeBusy(Component):
         self.mStart = start
         self.mEnd = start + duration
         self.mDuration = True
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
         self.removeProperties(definitions.cICalProperty_DTEND)
         self.removeProperties(definitions.cICalProperty_DURATION)
-        self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
         prop = Property(definitions.cICalProperty_DTSTART, start)
         self.addProperty(prop)
 
-        # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or
-                (duration.getDays() > 1)):
-            prop = Property(definitions.cICalProperty_DURATION, duration)
-            self.addProperty(prop)
+        prop = Property(definitions.cICalProperty_DURATION, duration)
+        self.addProperty(prop)
 
     # Generating info
     def expandPeriodComp(self, period, list):
@@ -222,7 +217,7 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                list.append(fb.duplicate())
 
     def cacheBusyTime(self):
 
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index bba1e1e..ee89bc4 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -114,6 +114,9 @@ class VToDo(ComponentRecur):
 
     propertyValueChecks = ICALENDAR_VALUE_CHECKS
 
+    sEndProperty = definitions.cICalProperty_DUE
+    sImpliedEnd = False
+
     def __init__(self, parent=None):
         super(VToDo, self).__init__(parent=parent)
         self.mPriority = 0
@@ -300,6 +303,12 @@ class VToDo(ComponentRecur):
         return fixed, unfixed
 
     # Editing
+    def editTimingStartDuration(self, start, duration):
+        super(VToDo, self).editTimingStartDuration(start, duration)
+
+        # The duration determines when it is due
+        self.mHasEnd = True
+
     def editStatus(self, status):
         # Only if it is different
         if self.mStatus != status:
-- 
2.43.0


From 9c54ca48a45a259a3bafab9b8465ee0ce0c6c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 051/119] fix: alarms kept the place in the text they had
 before an edit, and audio alarms without text could not be set

---
 src/pycalendar/icalendar/valarm.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index b7567be..86af1bb 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -99,14 +99,15 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
-            valarm.addProperty(prop)
+            if self.mSpeakText is not None:
+                prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
+                valarm.addProperty(prop)
 
         def remove(self, valarm):
             valarm.removeProperties(definitions.cICalProperty_ACTION_X_SPEAKTEXT)
 
         def isSpeakText(self):
-            return len(self.mSpeakText) != 0
+            return self.mSpeakText is not None and len(self.mSpeakText) != 0
 
         def getSpeakText(self):
             return self.mSpeakText
@@ -458,8 +459,7 @@ class VAlarm(Component):
         temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
         self.mRepeatInterval = temp if temp is not None else Duration(duration=5 * 60)
 
-        # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, (self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy).getText(),)
+        self._updateMapKey()
 
         # Alarm status - private to Mulberry
         self.mAlarmStatus = definitions.eAlarm_Status_Pending
@@ -478,6 +478,10 @@ class VAlarm(Component):
         temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
         self.mLastTrigger = temp.duplicate() if temp is not None else DateTime()
 
+    def _updateMapKey(self):
+        # Set a map key for sorting
+        self.mMapKey = "%s:%s" % (self.mAction, (self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy).getText(),)
+
     def validate(self, doFix=False):
         """
         Validate the data in this component and optionally fix any problems, else raise. If
@@ -531,6 +535,7 @@ class VAlarm(Component):
         # Updated cached values
         self.mAction = action
         self.mActionData = data
+        self._updateMapKey()
 
         # Add new properties to alarm
         action_txt = VAlarm.sActionValueMap.get(self.mAction, definitions.cICalProperty_ACTION_PROCEDURE)
@@ -547,6 +552,7 @@ class VAlarm(Component):
         # Updated cached values
         self.mTriggerAbsolute = True
         self.mTriggerOn = dt
+        self._updateMapKey()
 
         # Add new
         prop = Property(definitions.cICalProperty_TRIGGER, dt)
@@ -560,6 +566,7 @@ class VAlarm(Component):
         self.mTriggerAbsolute = False
         self.mTriggerBy = duration
         self.mTriggerOnStart = trigger_start
+        self._updateMapKey()
 
         # Add new (with parameter)
         prop = Property(definitions.cICalProperty_TRIGGER, duration)
-- 
2.43.0


From 91099df23ba80849e5caa2f6c6fbf2189e3d423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 052/119] fix: excluding the future of a rule with a count left
 one instance too few

---
 src/pycalendar/icalendar/recurrence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index e1b3020..02886b3 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1075,9 +1075,10 @@ class Recurrence(ValueMixin):
 
         # Adjust COUNT
         elif self.getUseCount():
-            # The last one is just less than the exclude date
+            # The last one is just less than the exclude date, and the start counts too even
+            # if the rule does not generate it
             self.mUseCount = True
-            self.mCount = len(items)
+            self.mCount = len(items) + (0 if items[0] == start else 1)
 
         # Now clear out the cached set after making changes
         self.clear()
-- 
2.43.0


From 7440a1a68867983fc50fddb48159af22d31e8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 053/119] fix: recurrence instances are looked up by component
 type as well as UID

---
 src/pycalendar/icalendar/calendar.py       | 4 ++--
 src/pycalendar/icalendar/componentrecur.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 80381c2..c8d5e04 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -506,11 +506,11 @@ class Calendar(ContainerBase):
 
     def getRecurrenceInstancesItems(self, type, uid, items):
         # Get instances from list
-        items.extend(self.mOverriddenComponentsByUID.get(uid, ()))
+        items.extend([comp for comp in self.mOverriddenComponentsByUID.get(uid, ()) if comp.getType() == type])
 
     def getRecurrenceInstancesIds(self, type, uid, ids):
         # Get instances from list
-        ids.extend([comp.getRecurrenceID() for comp in self.mOverriddenComponentsByUID.get(uid, ())])
+        ids.extend([comp.getRecurrenceID() for comp in self.mOverriddenComponentsByUID.get(uid, ()) if comp.getType() == type])
 
     # Freebusy generation
     def getVFreeBusyList(self, period, list):
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index f8e82d4..0305421 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -404,7 +404,7 @@ class ComponentRecur(Component):
             if cal is not None:
                 # Remove recurrence instances from the list of items
                 recurs = []
-                cal.getRecurrenceInstancesIds(definitions.cICalComponent_VEVENT, self.getUID(), recurs)
+                cal.getRecurrenceInstancesIds(self.getType(), self.getUID(), recurs)
                 recurs.sort()
                 if len(recurs) != 0:
                     temp = []
@@ -413,7 +413,7 @@ class ComponentRecur(Component):
 
                     # Now get actual instances
                     instances = []
-                    cal.getRecurrenceInstancesItems(definitions.cICalComponent_VEVENT, self.getUID(), instances)
+                    cal.getRecurrenceInstancesItems(self.getType(), self.getUID(), instances)
 
                     # Get list of each ones with RANGE
                     prior = []
-- 
2.43.0


From 28fcbdbb3b654339bc09b066e0182800acf504fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 054/119] fix: a duplicated component which is its own master
 has itself as master

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 0305421..f109c83 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -104,7 +104,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
 
-- 
2.43.0


From a4247ef320759c035d03716d33828af7e39fd4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 055/119] fix: remove the component which was passed in rather
 than one that is equal to it

---
 src/pycalendar/componentbase.py      | 7 ++++++-
 src/pycalendar/icalendar/calendar.py | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 9a0d672..1545696 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -134,7 +134,12 @@ class ComponentBase(object):
         return len(self.getComponents(compname))
 
     def removeComponent(self, component):
-        self.mComponents.remove(component)
+        for index, item in enumerate(self.mComponents):
+            if item is component:
+                del self.mComponents[index]
+                break
+        else:
+            raise ValueError("component not present")
 
     def removeAllComponent(self, compname=None):
         if compname:
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index c8d5e04..c3e7ab2 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -346,8 +346,8 @@ class Calendar(ContainerBase):
             uid = component.getUID()
             rid = component.getRecurrenceID()
             if rid:
-                self.mOverriddenComponentsByUID[uid].remove(component)
-            else:
+                self.mOverriddenComponentsByUID[uid] = [comp for comp in self.mOverriddenComponentsByUID[uid] if comp is not component]
+            elif self.mMasterComponentsByTypeAndUID[component.getType()].get(uid) is component:
                 del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
 
     def deriveComponent(self, recurrenceID):
-- 
2.43.0


From 09fb8753e265062625d2ff1b356966ab00091a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 056/119] fix: removing all components also forgets them by UID

---
 src/pycalendar/icalendar/calendar.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index c3e7ab2..f272128 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -350,6 +350,16 @@ class Calendar(ContainerBase):
             elif self.mMasterComponentsByTypeAndUID[component.getType()].get(uid) is component:
                 del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
 
+    def removeAllComponent(self, compname=None):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeAllComponent(compname)
+
+        if not compname:
+            self.mMasterComponentsByTypeAndUID.clear()
+            self.mOverriddenComponentsByUID.clear()
+
     def deriveComponent(self, recurrenceID):
         """
         Derive an overridden component for the associated RECURRENCE-ID. This assumes
-- 
2.43.0


From ceb09fd25f53abed7048b769b1406c12609fd86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 057/119] fix: changing a UID to one in use keeps the
 overridden components which have that one

---
 src/pycalendar/icalendar/calendar.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index f272128..a84d4a2 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -150,14 +150,13 @@ class Calendar(ContainerBase):
             if component.getUID() == oldUID:
                 component.setUID(newUID)
 
-        # Maps
+        # Maps - there may already be items with the new UID
         if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
+            overridden = self.mOverriddenComponentsByUID.pop(oldUID)
+            self.mOverriddenComponentsByUID[newUID].extend(overridden)
         for ctype in self.mMasterComponentsByTypeAndUID:
             if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
-                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-                del self.mMasterComponentsByTypeAndUID[ctype][oldUID]
+                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype].pop(oldUID)
 
     def finalise(self):
         # Get calendar name if present
-- 
2.43.0


From f59ff9636835a6c77f0f75ceef2d7b841865785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 058/119] fix: a derived to-do has a due date of its own rather
 than the one of its master

---
 src/pycalendar/icalendar/calendar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index a84d4a2..9c13008 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -401,11 +401,11 @@ class Calendar(ContainerBase):
             newdtstartValue.setDateOnly(True)
 
         newcomp.removeProperties(definitions.cICalProperty_DTSTART)
-        newcomp.removeProperties(definitions.cICalProperty_DTEND)
         prop = Property(definitions.cICalProperty_DTSTART, newdtstartValue)
         newcomp.addProperty(prop)
-        if not newcomp.useDuration():
-            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
+        if not newcomp.useDuration() and newcomp.hasEnd():
+            newcomp.removeProperties(newcomp.sEndProperty)
+            prop = Property(newcomp.sEndProperty, newdtstartValue + oldduration)
             newcomp.addProperty(prop)
 
         newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
-- 
2.43.0


From cc3458f0937d1249269c72d7f3176d123484fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 059/119] fix: a date-time with a UTC offset of zero was
 treated as floating

---
 src/pycalendar/datetime.py | 4 ++--
 src/pycalendar/timezone.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index aae497e..27f2afc 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -628,10 +628,10 @@ class DateTime(ValueMixin):
         return self.mTZUTC
 
     def local(self):
-        return (not self.mTZUTC) and self.mTZID
+        return (not self.mTZUTC) and not self.floating()
 
     def floating(self):
-        return (not self.mTZUTC) and not self.mTZID
+        return Timezone.is_float(self.mTZUTC, self.mTZID)
 
     def getTimezone(self):
         return Timezone(utc=self.mTZUTC, tzid=self.mTZID)
diff --git a/src/pycalendar/timezone.py b/src/pycalendar/timezone.py
index 1647aa3..9048478 100644
--- a/src/pycalendar/timezone.py
+++ b/src/pycalendar/timezone.py
@@ -71,7 +71,8 @@ class Timezone(object):
 
     @staticmethod
     def is_float(utc, tzid):
-        return not utc and not tzid
+        # An integer is a UTC offset, and that may be zero
+        return not utc and (tzid is None or tzid == "")
 
     def getUTC(self):
         return self.mUTC
-- 
2.43.0


From 548a8ca3bd86dd133712c9b3d0f311f419c909c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 060/119] fix: durations and periods could not be compared with
 <= or >=

---
 src/pycalendar/duration.py | 6 ++++++
 src/pycalendar/period.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 98d1523..bbd6810 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -65,6 +65,12 @@ class Duration(ValueMixin):
     def __lt__(self, comp):
         return self.getTotalSeconds() < comp.getTotalSeconds()
 
+    def __ge__(self, comp):
+        return not self.__lt__(comp)
+
+    def __le__(self, comp):
+        return not self.__gt__(comp)
+
     def getTotalSeconds(self):
         return [1, -1][not self.mForward] \
             * (self.mSeconds + (self.mMinutes + (self.mHours + (self.mDays + (self.mWeeks * 7)) * 24) * 60) * 60)
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index c091d9f..21cd6bf 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -72,6 +72,12 @@ class Period(ValueMixin):
         return self.mStart < comp.mStart  \
             or (self.mStart == comp.mStart) and self.getEnd() < comp.getEnd()
 
+    def __ge__(self, comp):
+        return not self.__lt__(comp)
+
+    def __le__(self, comp):
+        return not self.__gt__(comp)
+
     @classmethod
     def parseText(cls, data):
         period = cls()
-- 
2.43.0


From a1f32328084e1b63ef256a3260dfa1c486c53ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 061/119] fix: parsing into a duration which had a value kept
 parts of that

---
 src/pycalendar/duration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index bbd6810..d8076af 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -138,6 +138,9 @@ class Duration(ValueMixin):
             offset = 0
             maxoffset = len(data)
 
+            # Nothing is left of a previous value
+            self.setDuration(0)
+
             # Look for +/-
             self.mForward = True
             if data[offset] in ('-', '+'):
-- 
2.43.0


From ead5c7181d3d3723039f96b51610c05abed37bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 062/119] fix: parsing into a date-time which had a value kept
 its time or timezone

---
 src/pycalendar/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 27f2afc..fed3e74 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -982,6 +982,11 @@ class DateTime(ValueMixin):
         # vCard (fullISO), jCal
         #   parse format YYYY[-]MM[-]DD[THH[:]MM[:]SS[(Z/(+/-)HHMM]]
 
+        # Nothing is left of a previous value
+        self.mHours = self.mMinutes = self.mSeconds = 0
+        self.mTZUTC = False
+        self.mTZID = None
+
         try:
             # Parse out the date
             index = self.parseDate(data, fullISO)
-- 
2.43.0


From 6ee4896cf8982570609f8f6ae0cab707d1480c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 063/119] fix: a date-time turned into a date kept its time in
 comparisons

---
 src/pycalendar/datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index fed3e74..51a4b47 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -266,6 +266,9 @@ class DateTime(ValueMixin):
 
     def setDateOnly(self, date_only):
         self.mDateOnly = date_only
+        if date_only:
+            # As everywhere else there is no time
+            self.mSeconds = self.mMinutes = self.mHours = 0
         self.changed()
 
     def setYYMMDD(self, year, month, days):
-- 
2.43.0


From ca880151c93c5d5773bbc7ee391bf01a153306d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 064/119] fix: floating date-times kept the offset of a
 previous default timezone

---
 src/pycalendar/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 51a4b47..283041b 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1130,6 +1130,10 @@ class DateTime(ValueMixin):
     def timeZoneSecondsOffset(self, relative_to_utc=False):
         if self.mTZUTC:
             return 0
+        if self.floating():
+            # Depends on the default timezone, which may change
+            tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
+            return tz.timeZoneSecondsOffset(self, relative_to_utc)
         if self.mTZOffset is None:
             tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
             self.mTZOffset = tz.timeZoneSecondsOffset(self, relative_to_utc)
-- 
2.43.0


From 05766c67d06162590f4c685be3e3cb485e8e4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 065/119] fix: resolving a floating date-time did not end when
 the default timezone was a named one

---
 src/pycalendar/datetime.py                | 13 ++++++++++++-
 src/pycalendar/icalendar/recurrence.py    |  2 +-
 src/pycalendar/icalendar/recurrenceset.py |  8 ++++----
 src/pycalendar/icalendar/vtimezone.py     |  2 +-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 283041b..d350519 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -134,7 +134,7 @@ class DateTime(ValueMixin):
         return "DateTime: %s" % (self.getText(),)
 
     def __hash__(self):
-        return hash(self.getPosixTime())
+        return hash(self.getOrderTime())
 
     # Operators
     def __add__(self, duration):
@@ -261,6 +261,17 @@ class DateTime(ValueMixin):
 
         return self.mPosixTime
 
+    def getOrderTime(self):
+        """
+        A value which orders date-times as L{getPosixTime} does, except that floating ones are
+        taken as they are. It never needs the default timezone, whose own transitions are
+        floating date-times that have to be put in order.
+        """
+        if self.floating():
+            return self.daysSince1970() * 24L * 60L * 60L + (self.mHours * 60L + self.mMinutes) * 60L + self.mSeconds
+        else:
+            return self.getPosixTime()
+
     def isDateOnly(self):
         return self.mDateOnly
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 02886b3..15343fb 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1749,7 +1749,7 @@ class Recurrence(ValueMixin):
         # Two BYxxx values can pick the same date (e.g. BYMONTHDAY=31,-1), but it
         # is only one instance
         output = []
-        for iter in sorted(dates, key=lambda x: x.getPosixTime()):
+        for iter in sorted(dates, key=lambda x: x.getOrderTime()):
             if len(output) == 0 or iter != output[-1]:
                 output.append(iter)
 
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index d08c833..abf35b0 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -108,8 +108,8 @@ class RecurrenceSet(object):
         dt1 = dates1[:]
         dt2 = dates2[:]
 
-        dt1.sort(key=lambda x: x.getPosixTime())
-        dt2.sort(key=lambda x: x.getPosixTime())
+        dt1.sort(key=lambda x: x.getOrderTime())
+        dt2.sort(key=lambda x: x.getOrderTime())
 
         return dt1 == dt2
 
@@ -201,7 +201,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         include = [x for x in set(include)]
-        include.sort(key=lambda x: x.getPosixTime())
+        include.sort(key=lambda x: x.getOrderTime())
 
         # Now create list of items to exclude
         exclude = []
@@ -218,7 +218,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         exclude = [x for x in set(exclude)]
-        exclude.sort(key=lambda x: x.getPosixTime())
+        exclude.sort(key=lambda x: x.getOrderTime())
 
         # Add difference between to the two sets (include - exclude) to the
         # results
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 919236c..41b2d8d 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -269,7 +269,7 @@ class VTimezone(Component):
             utcdt.setTimezoneUTC(True)
             items.insert(1, utcdt)
             utc_results.append(tuple(items))
-        utc_results.sort(key=lambda x: x[0].getPosixTime())
+        utc_results.sort(key=lambda x: x[0].getOrderTime())
         return utc_results
 
     def sortedPropertyKeyOrder(self):
-- 
2.43.0


From 20edaa355f929174f488a02f83068473ff89eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 066/119] fix: days were counted wrongly before 1901 and after
 2100

---
 src/pycalendar/utils.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 6e19e7a..7724c26 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -383,14 +383,9 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
-        else:
-            result = 0
+        # Leap days in all years before the one wanted, less those in all years before 1970 (477)
+        year = 1970 + year_offset - 1
+        result = year // 4 - year // 100 + year // 400 - 477
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From 63f5fdcf212326f8d70520f380eed6ea64678c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 067/119] fix: dates moved to the day before when adjusted to
 some timezones

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index d350519..d0f933d 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -662,8 +662,9 @@ class DateTime(ValueMixin):
             if not self.mTZUTC:
                 self.adjustToUTC()
             self.setTimezone(tzid)
-            offset_to = self.timeZoneSecondsOffset(relative_to_utc=True)
-            self.offsetSeconds(offset_to)
+            if not self.mDateOnly:
+                offset_to = self.timeZoneSecondsOffset(relative_to_utc=True)
+                self.offsetSeconds(offset_to)
         return self
 
     def adjustToUTC(self):
-- 
2.43.0


From b95fce1b10ed61f57ece17b88f4ee0970fddb2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 068/119] fix: setWeekNo was a week off for Sundays and years
 which start with one

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index d0f933d..20bbac2 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -411,8 +411,9 @@ class DateTime(ValueMixin):
 
         # What day does the current year start on, and diff that with the current day
         temp = DateTime(year=self.mYear, month=1, day=1)
-        first_day = temp.getDayOfWeek()
-        current_day = self.getDayOfWeek()
+        # (weeks end with SUNDAY)
+        first_day = temp.getDayOfWeek() or 7
+        current_day = self.getDayOfWeek() or 7
 
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
-- 
2.43.0


From 5843ba21db769c96dae38c467dc280137557a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 069/119] fix: the UTC offset of a date on which it changes
 depended on what had been asked before

---
 src/pycalendar/icalendar/vtimezone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 41b2d8d..eec04bb 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -150,6 +150,9 @@ class VTimezone(Component):
         temp = dt.duplicate()
         temp.setTimezoneID(None)
 
+        # A date is taken at its start
+        temp.setDateOnly(False)
+
         # Check whether we need to recache - always go past the end of the year asked about
         # as a UTC time can be in the next year locally
         if self.mCachedExpandAllMaxYear is None or temp.mYear + 1 >= self.mCachedExpandAllMaxYear:
@@ -233,6 +236,7 @@ class VTimezone(Component):
         # item
         temp = dt.duplicate()
         temp.setTimezoneID(None)
+        temp.setDateOnly(False)
 
         # Had to rework this because some VTIMEZONEs have sub-components where the DST instances are interleaved. That
         # means we have to evaluate each and every sub-component to find the instance immediately less than the time we are checking.
-- 
2.43.0


From c23b5f5aa80302468bf2e9a24eeb4619be88c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 070/119] fix: recurring by month from a day the next month
 lacks did not find the next month with that day

---
 src/pycalendar/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 20bbac2..2750657 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -760,10 +760,10 @@ class DateTime(ValueMixin):
             self.mYear += adjustment_year
 
             if not allow_invalid:
-                self.normalise()
                 while self.mDay > utils.daysInMonth(self.mMonth, self.mYear):
                     self.mMonth += interval
-                    self.normalise()
+                    self.mYear += (self.mMonth - 1) / 12
+                    self.mMonth = ((self.mMonth - 1) % 12) + 1
             normalize = False
         elif freq == definitions.eRecurrence_YEARLY:
             self.mYear += interval
-- 
2.43.0


From 82991399355676e84349852f2dec356f123d412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 071/119] fix: a period with a duration ended at another time
 once adjusted to UTC

---
 src/pycalendar/period.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 21cd6bf..3edf2bf 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -189,8 +189,14 @@ class Period(ValueMixin):
         return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)
 
     def adjustToUTC(self):
-        self.mStart.adjustToUTC()
-        if not self.mUseDuration:
+        if self.mUseDuration:
+            # The duration was added to the local time, so may be another one
+            end = self.getEnd()
+            end.adjustToUTC()
+            self.mStart.adjustToUTC()
+            self.mDuration = end - self.mStart
+        else:
+            self.mStart.adjustToUTC()
             self.mEnd.adjustToUTC()
 
     def describeDuration(self):
-- 
2.43.0


From 62683c82fdec5d891ca1dbe29f89b7564f046aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 072/119] fix: the free-busy time of a calendar could not be
 determined

---
 src/pycalendar/icalendar/calendar.py | 11 +++++------
 src/pycalendar/icalendar/freebusy.py |  3 ++-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 9c13008..6c4f88a 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -525,7 +525,7 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
@@ -596,8 +596,8 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = comp.getOwner().getPropertyString(definitions.cICalProperty_TRANSP)
+            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:
                 continue
 
             # Add free busy item to list
@@ -606,20 +606,19 @@ class Calendar(ContainerBase):
                 fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
             elif status == definitions.eStatus_VEvent_Tentative:
                 fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
             elif status == definitions.eStatus_VEvent_Cancelled:
                 # Cancelled => does not contribute to busy time
                 pass
 
         # Now get the VFREEBUSY info
         list2 = []
-        self.getVFreeBusy(period, list2)
+        self.getVFreeBusyList(period, list2)
 
         # Get start/end list for each free-busy
         for comp in list2:
 
             # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
+            comp.expandPeriodFB(period, fb)
 
         # Add remaining period as property
         FreeBusy.resolveOverlaps(fb)
diff --git a/src/pycalendar/icalendar/freebusy.py b/src/pycalendar/icalendar/freebusy.py
index 0480cb4..a1aadf1 100644
--- a/src/pycalendar/icalendar/freebusy.py
+++ b/src/pycalendar/icalendar/freebusy.py
@@ -45,6 +45,7 @@ class FreeBusy(object):
     def isPeriodOverlap(self, period):
         return self.mPeriod.isPeriodOverlap(period)
 
-    def resolveOverlaps(self, fb):
+    @staticmethod
+    def resolveOverlaps(fb):
         # TODO:
         pass
-- 
2.43.0


From d0e5323fa022a7802e721ff1c10f010d1be8f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 073/119] fix: busy time of a type which is not recognized
 counts as busy

---
 src/pycalendar/icalendar/vfreebusy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 8878d7a..008c2c1 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -252,11 +252,17 @@ class VFreeBusy(Component):
                     is_busy = True
                     type = FreeBusy.BUSYTENTATIVE
 
-                else:
+                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:
 
                     is_busy = False
                     type = FreeBusy.FREE
 
+                else:
+
+                    # Types which are not recognized are busy too
+                    is_busy = True
+                    type = FreeBusy.BUSY
+
             else:
 
                 # Default is busy when no parameter
-- 
2.43.0


From ef5be752af0717713097e9f8302c9c0894ebcaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 074/119] fix: the table of a month could not be made

---
 src/pycalendar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 7724c26..9946fc5 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -439,7 +439,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
     for day in range(1, max_day + 1):
         # Insert new row if we are at the start of a row
         if (col == 0) or (day == 1):
-            table.extend([0] * 7)
+            table.append([0] * 7)
             row += 1
 
         # Set the table item to the current day
@@ -474,7 +474,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
         day = daysInMonth(temp.getMonth(), temp.getYear())
         back_col = initial_col - 1
         while(back_col >= 0):
-            table[row][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
+            table[0][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
 
             # Check on today
             if (temp.getYear() == today.getYear()) and (temp.getMonth() == today.getMonth()) and (day == today.getDay()):
-- 
2.43.0


From 6b6d1b74ea9cb994bc2d8875381b08ace38682a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 075/119] fix: today in a timezone was the date where the
 process runs

---
 src/pycalendar/datetime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 2750657..ddd0cd2 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -700,6 +700,12 @@ class DateTime(ValueMixin):
 
     @staticmethod
     def getToday(tzid=None):
+        # Today in a timezone is the date there
+        if tzid is not None and not tzid.floating():
+            temp = DateTime.getNow(tzid)
+            temp.setDateOnly(True)
+            return temp
+
         # Get from posix time
         now = time.time()
         now_tm = time.localtime(now)
-- 
2.43.0


From c2f484b892bf95d9a0184025114a16d54c27f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 076/119] fix: the next time of an alarm relative to its event
 could not be determined

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 86af1bb..5ab2339 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -680,7 +680,7 @@ class VAlarm(Component):
             dt.copy(self.getTriggerOn())
         else:
             # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
-- 
2.43.0


From 1a93c4202a5b93ac0d44c9a26e242cc03baa6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 077/119] fix: the next time of an alarm was written as the one
 it was last triggered at

---
 src/pycalendar/icalendar/valarm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 5ab2339..9accd94 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -612,14 +612,13 @@ class VAlarm(Component):
 
         if self.mDoneCount < self.mRepeats:
             self.mNextTrigger = self.mLastTrigger + self.mRepeatInterval
-            dt.copy(self.mNextTrigger)
             self.mDoneCount += 1
             self.mAlarmStatus = definitions.eAlarm_Status_Pending
         else:
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt.duplicate()))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
@@ -630,6 +629,8 @@ class VAlarm(Component):
         self.addProperty(Property(definitions.cICalProperty_ALARM_X_ALARMSTATUS, status))
 
         # Now update dt to the next alarm time
+        if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
+            dt.copy(self.mNextTrigger)
         return self.mAlarmStatus == definitions.eAlarm_Status_Pending
 
     def loadAction(self):
-- 
2.43.0


From 529e45aa2177d7701c44a44b257308c6a72f469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 078/119] fix: the next time of an alarm stayed as it was when
 first asked for

---
 src/pycalendar/icalendar/valarm.py | 47 +++++++++++++-----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 9accd94..e1e933e 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -329,7 +329,6 @@ class VAlarm(Component):
         self.mRepeatInterval.setDuration(5 * 60)  # Five minutes
 
         # Status
-        self.mStatusInit = False
         self.mAlarmStatus = definitions.eAlarm_Status_Pending
         self.mLastTrigger = DateTime()
         self.mNextTrigger = DateTime()
@@ -401,17 +400,6 @@ class VAlarm(Component):
         # Do inherited
         super(VAlarm, self).removed()
 
-    def changed(self):
-        # Always force recalc of trigger status
-        self.mStatusInit = False
-
-        # Changed in calendar so change in calendar notifier
-        # calstore::CCalendarNotifier::sCalendarNotifier.ChangedAlarm(this)
-
-        # Do not do inherited as this is always a sub-component and we do not
-        # do top-level component changes
-        # super.changed()
-
     def finalise(self):
         # Do inherited
         super(VAlarm, self).finalise()
@@ -461,18 +449,7 @@ class VAlarm(Component):
 
         self._updateMapKey()
 
-        # Alarm status - private to Mulberry
-        self.mAlarmStatus = definitions.eAlarm_Status_Pending
-        status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
-        if status is not None:
-            if status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING:
-                self.mAlarmStatus = definitions.eAlarm_Status_Pending
-            elif status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_COMPLETED:
-                self.mAlarmStatus = definitions.eAlarm_Status_Completed
-            elif status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_DISABLED:
-                self.mAlarmStatus = definitions.eAlarm_Status_Disabled
-            else:
-                self.mAlarmStatus = definitions.eAlarm_Status_Pending
+        self.loadAlarmStatus()
 
         # Last trigger time - private to Mulberry
         temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
@@ -598,8 +575,8 @@ class VAlarm(Component):
         return self.mAlarmStatus
 
     def getNextTrigger(self, dt):
-        if not self.mStatusInit:
-            self.initNextTrigger()
+        # This depends on the time now and on the parent component, so cannot be cached
+        self.initNextTrigger()
         dt.copy(self.mNextTrigger)
 
     def alarmTriggered(self, dt):
@@ -640,10 +617,12 @@ class VAlarm(Component):
         self.mActionData.load(self)
 
     def initNextTrigger(self):
+        # Start with the recorded status
+        self.loadAlarmStatus()
+
         # Do not bother if its completed
         if self.mAlarmStatus == definitions.eAlarm_Status_Completed:
             return
-        self.mStatusInit = True
 
         # Look for trigger immediately preceeding or equal to utc now
         nowutc = DateTime.getNowUTC()
@@ -674,6 +653,20 @@ class VAlarm(Component):
 
         self.mNextTrigger = trigger
 
+    def loadAlarmStatus(self):
+        # Alarm status - private to Mulberry
+        self.mAlarmStatus = definitions.eAlarm_Status_Pending
+        status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
+        if status is not None:
+            if status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING:
+                self.mAlarmStatus = definitions.eAlarm_Status_Pending
+            elif status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_COMPLETED:
+                self.mAlarmStatus = definitions.eAlarm_Status_Completed
+            elif status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_DISABLED:
+                self.mAlarmStatus = definitions.eAlarm_Status_Disabled
+            else:
+                self.mAlarmStatus = definitions.eAlarm_Status_Pending
+
     def getFirstTrigger(self, dt):
         # If absolute trigger, use that
         if self.isTriggerAbsolute():
-- 
2.43.0


From 5edca5f6dd769a7e141aeeed13e117527ca43a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 079/119] fix: an alarm was triggered again once the clock went
 back

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1e933e..b415e6f 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -643,7 +643,7 @@ class VAlarm(Component):
             trigger = next_trigger
 
         # Check for completion
-        if trigger == self.mLastTrigger or (nowutc - trigger).getTotalSeconds() > 24 * 60 * 60:
+        if trigger <= self.mLastTrigger or (nowutc - trigger).getTotalSeconds() > 24 * 60 * 60:
             if self.mDoneCount == self.mRepeats:
                 self.mAlarmStatus = definitions.eAlarm_Status_Completed
                 return
-- 
2.43.0


From fb0db476cc8b8f384cd7d93f4909e83c65ece4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 080/119] fix: the end of a component stayed that of a DTEND
 which validation removed

---
 src/pycalendar/icalendar/available.py      |  1 +
 src/pycalendar/icalendar/componentrecur.py | 45 ++++++++++++----------
 src/pycalendar/icalendar/vevent.py         |  1 +
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/pycalendar/icalendar/available.py b/src/pycalendar/icalendar/available.py
index 1b173c8..67051da 100644
--- a/src/pycalendar/icalendar/available.py
+++ b/src/pycalendar/icalendar/available.py
@@ -72,6 +72,7 @@ class Available(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+                self._loadEnd()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index f109c83..daf2b9e 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -247,27 +247,7 @@ class ComponentRecur(Component):
         if self.mHasStart:
             self.mStart = temp
 
-        # Get DTEND
-        temp = self.loadValueDateTime(definitions.cICalProperty_DTEND)
-        if temp is None:
-            # Try DURATION instead
-            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
-            if temp is not None:
-                self.mHasEnd = False
-                self.mEnd = self.mStart + temp
-                self.mDuration = True
-            else:
-                # If no end or duration then use the start (bumped by one day for
-                # an all day event)
-                self.mHasEnd = False
-                self.mEnd = self.mStart.duplicate()
-                if self.mEnd.isDateOnly():
-                    self.mEnd.offsetDay(1)
-                self.mDuration = False
-        else:
-            self.mHasEnd = True
-            self.mEnd = temp
-            self.mDuration = False
+        self._loadEnd()
 
         # Get SUMMARY
         self.mSummary = self.loadValueString(definitions.cICalProperty_SUMMARY)
@@ -350,6 +330,29 @@ class ComponentRecur(Component):
                 else:
                     unfixed.append(logProblem)
 
+    def _loadEnd(self):
+        # Get DTEND
+        temp = self.loadValueDateTime(definitions.cICalProperty_DTEND)
+        if temp is None:
+            # Try DURATION instead
+            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
+            if temp is not None:
+                self.mHasEnd = False
+                self.mEnd = self.mStart + temp
+                self.mDuration = True
+            else:
+                # If no end or duration then use the start (bumped by one day for
+                # an all day event)
+                self.mHasEnd = False
+                self.mEnd = self.mStart.duplicate()
+                if self.mEnd.isDateOnly():
+                    self.mEnd.offsetDay(1)
+                self.mDuration = False
+        else:
+            self.mHasEnd = True
+            self.mEnd = temp
+            self.mDuration = False
+
     def _resetRecurrenceSet(self):
         # May need to create items
         self.mRecurrences = None
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index caede20..e2226cf 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -119,6 +119,7 @@ class VEvent(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+                self._loadEnd()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
-- 
2.43.0


From 1ef2df934525be3ebe0a39f8b7dcb3189c66dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 081/119] fix: the status of a component stayed as it was
 before validation made it cancelled

---
 src/pycalendar/icalendar/componentrecur.py |  5 +++++
 src/pycalendar/icalendar/vevent.py         |  3 +++
 src/pycalendar/icalendar/vtodo.py          | 21 ++++++++++++---------
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index daf2b9e..422ec17 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -323,6 +323,7 @@ class ComponentRecur(Component):
                         if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:
                             self.removeProperties(propname)
                             self.addProperty(Property(propname, definitions.cICalProperty_STATUS_CANCELLED))
+                            self._loadStatus()
                             fixed.append(logProblem)
                             break
                     else:
@@ -330,6 +331,10 @@ class ComponentRecur(Component):
                 else:
                     unfixed.append(logProblem)
 
+    def _loadStatus(self):
+        # Those components that have a status override this
+        pass
+
     def _loadEnd(self):
         # Get DTEND
         temp = self.loadValueDateTime(definitions.cICalProperty_DTEND)
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index e2226cf..035801b 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -83,6 +83,9 @@ class VEvent(ComponentRecur):
         # Do inherited
         super(VEvent, self).finalise()
 
+        self._loadStatus()
+
+    def _loadStatus(self):
         self.mStatus = definitions.eStatus_VEvent_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index ee89bc4..a20ffb8 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -246,6 +246,18 @@ class VToDo(ComponentRecur):
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
         # Get STATUS
+        self._loadStatus()
+
+        # Get PERCENT-COMPLETE
+        self.mPercentComplete = self.loadValueInteger(definitions.cICalProperty_PERCENT_COMPLETE)
+
+        # Get COMPLETED
+        temp = self.loadValueDateTime(definitions.cICalProperty_COMPLETED)
+        self.mHasCompleted = temp is not None
+        if self.mHasCompleted:
+            self.mCompleted = temp
+
+    def _loadStatus(self):
         self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
@@ -258,15 +270,6 @@ class VToDo(ComponentRecur):
             elif temp == definitions.cICalProperty_STATUS_CANCELLED:
                 self.mStatus = definitions.eStatus_VToDo_Cancelled
 
-        # Get PERCENT-COMPLETE
-        self.mPercentComplete = self.loadValueInteger(definitions.cICalProperty_PERCENT_COMPLETE)
-
-        # Get COMPLETED
-        temp = self.loadValueDateTime(definitions.cICalProperty_COMPLETED)
-        self.mHasCompleted = temp is not None
-        if self.mHasCompleted:
-            self.mCompleted = temp
-
     def validate(self, doFix=False):
         """
         Validate the data in this component and optionally fix any problems, else raise. If
-- 
2.43.0


From fd2719e2b5a584995866c2fa0ee9b735c61946cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 082/119] fix: a to-do was taken to have a duration after
 validation removed it

---
 src/pycalendar/icalendar/vtodo.py | 33 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index a20ffb8..94b2cca 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -228,20 +228,6 @@ class VToDo(ComponentRecur):
         # Do inherited
         super(VToDo, self).finalise()
 
-        # Get DUE
-        temp = self.loadValueDateTime(definitions.cICalProperty_DUE)
-        if temp is None:
-            # Try DURATION instead
-            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
-            if temp is not None:
-                self.mEnd = self.mStart + temp
-                self.mHasEnd = True
-            else:
-                self.mHasEnd = False
-        else:
-            self.mHasEnd = True
-            self.mEnd = temp
-
         # Get PRIORITY
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
@@ -257,6 +243,24 @@ class VToDo(ComponentRecur):
         if self.mHasCompleted:
             self.mCompleted = temp
 
+    def _loadEnd(self):
+        # Do inherited
+        super(VToDo, self)._loadEnd()
+
+        # Get DUE
+        temp = self.loadValueDateTime(definitions.cICalProperty_DUE)
+        if temp is None:
+            # Try DURATION instead
+            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
+            if temp is not None:
+                self.mEnd = self.mStart + temp
+                self.mHasEnd = True
+            else:
+                self.mHasEnd = False
+        else:
+            self.mHasEnd = True
+            self.mEnd = temp
+
     def _loadStatus(self):
         self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
@@ -289,6 +293,7 @@ class VToDo(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DURATION)
+                self._loadEnd()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
-- 
2.43.0


From 9ba38c7f5f7a0583e654be6ffe8079e4942e2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 083/119] fix: an event with more than one DTSTART was reported
 as valid

---
 src/pycalendar/icalendar/vevent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 035801b..0d3bb5f 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -33,6 +33,7 @@ class VEvent(ComponentRecur):
         definitions.cICalProperty_CLASS,
         definitions.cICalProperty_CREATED,
         definitions.cICalProperty_DESCRIPTION,
+        definitions.cICalProperty_DTSTART,
         definitions.cICalProperty_GEO,
         definitions.cICalProperty_LAST_MODIFIED,
         definitions.cICalProperty_LOCATION,
-- 
2.43.0


From aa0900c389bae617a16893eef9d0163adfb2bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 084/119] fix: an UNTIL date converted to a time by validation
 could leave out the last instance

---
 src/pycalendar/icalendar/componentrecur.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 422ec17..590ed6b 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -288,7 +288,6 @@ class ComponentRecur(Component):
 
         # Check that any UNTIL value matches that for DTSTART
         if self.mHasStart and self.mRecurrences:
-            dtutc = self.mStart.duplicateAsUTC()
             for rrule in self.mRecurrences.getRules():
                 if rrule.getUseUntil():
                     if rrule.getUntil().isDateOnly() ^ self.mStart.isDateOnly():
@@ -300,7 +299,10 @@ class ComponentRecur(Component):
                         if doFix:
                             rrule.getUntil().setDateOnly(self.mStart.isDateOnly())
                             if not self.mStart.isDateOnly():
-                                rrule.getUntil().setHHMMSS(dtutc.getHours(), dtutc.getMinutes(), dtutc.getSeconds())
+                                # The date is one in the timezone of the start
+                                rrule.getUntil().setHHMMSS(self.mStart.getHours(), self.mStart.getMinutes(), self.mStart.getSeconds())
+                                rrule.getUntil().setTimezone(self.mStart.getTimezone())
+                                rrule.getUntil().adjustToUTC()
                                 rrule.getUntil().setTimezone(Timezone(utc=True))
                             self.mRecurrences.changed()
                             fixed.append(logProblem)
-- 
2.43.0


From 7975e58b67de93e342d9f068e36e6bd9b9dd1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 085/119] fix: making a UID failed

---
 src/pycalendar/stringutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..e0baa32 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -99,4 +99,4 @@ def compareStringsSafe(s1, s2):
 
 
 def md5digest(txt):
-    return md5.new(txt).hexdigest()
+    return md5(txt).hexdigest()
-- 
2.43.0


From 16fa323214ad4162efe2b01b6ec93f06d8c2a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 086/119] fix: a UID made up by a restarted process, another
 host or another thread could be one made up before

---
 src/pycalendar/icalendar/component.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 09657a6..7736de6 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -94,14 +94,17 @@ class Component(ComponentBase):
         if uid:
             self.mUID = uid
         else:
-            # Get left-side of UID (first 24 chars of MD5 digest of time, pid
-            # and ctr)
+            # Get left-side of UID (first 24 chars of MD5 digest of time, pid,
+            # ctr and a random number, as the others may be the same in another
+            # process, host or thread)
             lhs_txt = ""
             lhs_txt += str(time.time())
             lhs_txt += "."
             lhs_txt += str(os.getpid())
             lhs_txt += "."
             lhs_txt += str(Component.uid_ctr)
+            lhs_txt += "."
+            lhs_txt += str(uuid.uuid4())
             Component.uid_ctr += 1
             lhs = stringutils.md5digest(lhs_txt)
 
-- 
2.43.0


From ad6fa207a82cb6c54b6e8c8000c85df9331b05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 087/119] fix: components without a UID were written in an
 order made up by chance

---
 src/pycalendar/icalendar/component.py      | 7 +++++--
 src/pycalendar/icalendar/componentrecur.py | 3 ++-
 src/pycalendar/icalendar/valarm.py         | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 7736de6..e133a9d 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -50,6 +50,7 @@ class Component(ComponentBase):
     def __init__(self, parent=None):
 
         super(Component, self).__init__(parent)
+        self.mRandomKey = None
         self.mUID = ""
         self.mSeq = 0
         self.mOriginalSeq = 0
@@ -78,11 +79,13 @@ class Component(ComponentBase):
         elif self.mUID:
             return self.mUID
         else:
-            self.mMapKey = str(uuid.uuid4())
+            self.mMapKey = self.mRandomKey = str(uuid.uuid4())
             return self.mMapKey
 
     def getSortKey(self):
-        return self.getMapKey()
+        # Components without a key of their own stay in the order they are in
+        key = self.getMapKey()
+        return key if key != self.mRandomKey else ""
 
     def getMasterKey(self):
         return self.mUID
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 590ed6b..a2ad563 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -107,6 +107,7 @@ class ComponentRecur(Component):
         other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
+        other.mRandomKey = self.mRandomKey
 
         other.mSummary = self.mSummary
 
@@ -146,7 +147,7 @@ class ComponentRecur(Component):
     def getMapKey(self):
 
         if self.mMapKey is None:
-            self.mMapKey = str(uuid.uuid4())
+            self.mMapKey = self.mRandomKey = str(uuid.uuid4())
         return self.mMapKey
 
     def getMasterKey(self):
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index b415e6f..c9f16c0 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -340,6 +340,7 @@ class VAlarm(Component):
     def duplicate(self, parent=None):
         other = super(VAlarm, self).duplicate(parent=parent)
         other.mMapKey = self.getMapKey()
+        other.mRandomKey = self.mRandomKey
         other.mAction = self.mAction
         other.mTriggerAbsolute = self.mTriggerAbsolute
         other.mTriggerOn = self.mTriggerOn.duplicate()
-- 
2.43.0


From 697befa888d7c9b8609588108c27f6f32d655c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 088/119] fix: the VTIMEZONE of a zone had changes of offset
 its source does not have, or could not be made, where no recurrence gives
 those of a rule

---
 src/zonal/rule.py | 49 +++++++++++++++++++++++++++++++++++------------
 src/zonal/zone.py | 12 ++++--------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..eabf9b1 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -20,6 +20,7 @@ from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.recurrence import Recurrence
 from pycalendar.icalendar.vtimezonedaylight import Daylight
 from pycalendar.icalendar.vtimezonestandard import Standard
+from pycalendar.period import Period
 from pycalendar.utcoffsetvalue import UTCOffsetValue
 from pycalendar.utils import daysInMonth
 import utils
@@ -427,7 +428,7 @@ class Rule(object):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount):
+    def vtimezone(self, vtz, zonerule, instances, offsetfrom, offsetto):
         """
         Generate a VTIMEZONE sub-component for this Rule.
 
@@ -435,18 +436,18 @@ class Rule(object):
         @type vtz: L{VTimezone}
         @param zonerule: the Zone rule line being used
         @type zonerule: L{ZoneRule}
-        @param start: the start time for the first instance
-        @type start: L{DateTime}
-        @param end: the start time for the last instance
-        @type end: L{DateTime}
+        @param instances: the start times of the instances, in order
+        @type instances: C{list} of L{DateTime}
         @param offsetfrom: the UTC offset-from
         @type offsetfrom: C{int}
         @param offsetto: the UTC offset-to
         @type offsetto: C{int}
-        @param instanceCount: the number of instances in the set
-        @type instanceCount: C{int}
         """
 
+        start = instances[0]
+        end = instances[-1]
+        instanceCount = len(instances)
+
         # Determine type of component based on offset
         dstoffset = self.getOffset()
         if dstoffset == 0:
@@ -476,6 +477,33 @@ class Rule(object):
         if start == end:
             instanceCount = 1
 
+        # Not all instances have a recurrence
+        try:
+            rrule = self._recurrence(zonerule, start, end, offsetfrom, instanceCount)
+        except AssertionError:
+            rrule = None
+        if rrule is not None and self._recursAs(rrule, instances, offsetfrom):
+            comp.addProperty(Property(definitions.cICalProperty_RRULE, rrule))
+        else:
+            for instance in instances:
+                comp.addProperty(Property(definitions.cICalProperty_RDATE, instance))
+
+        comp.finalise()
+        vtz.addComponent(comp)
+
+    def _recursAs(self, rrule, instances, offsetfrom):
+        """
+        Check that a recurrence gives the instances, the first included, and no
+        others until the end of the year of the last one.
+        """
+        start = instances[0].duplicate()
+        start.offsetYear(-1)
+        until = DateTime(instances[-1].getYear() + 1, 1, 1, 0, 0, 0)
+        results = []
+        rrule.expand(start, Period(start, until), results, float_offset=offsetfrom)
+        return [item for item in results if item >= instances[0]] == instances
+
+    def _recurrence(self, zonerule, start, end, offsetfrom, instanceCount):
         # Now determine the recurrences (use RDATE if only one year or
         # number of instances is one)
         if self.toYear != "only" and instanceCount != 1:
@@ -554,9 +582,6 @@ class Rule(object):
                 rrule.setUseUntil(True)
                 rrule.setUntil(until)
 
-            comp.addProperty(Property(definitions.cICalProperty_RRULE, rrule))
+            return rrule
         else:
-            comp.addProperty(Property(definitions.cICalProperty_RDATE, start))
-
-        comp.finalise()
-        vtz.addComponent(comp)
+            return None
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..f82bd5f 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -208,11 +208,9 @@ class Zone(object):
                             tzrule.vtimezone(
                                 vtz,
                                 lastZoneRule,
-                                rulemap[tzrule][startIndex][0],
-                                rulemap[tzrule][index - 1][0],
+                                [item[0] for item in rulemap[tzrule][startIndex:index]],
                                 rulemap[tzrule][startIndex][1],
                                 rulemap[tzrule][startIndex][2],
-                                index - startIndex,
                             )
                             lastOffsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
                             startIndex = index
@@ -220,11 +218,9 @@ class Zone(object):
                     tzrule.vtimezone(
                         vtz,
                         lastZoneRule,
-                        rulemap[tzrule][startIndex][0],
-                        rulemap[tzrule][index][0],
+                        [item[0] for item in rulemap[tzrule][startIndex:]],
                         rulemap[tzrule][startIndex][1],
                         rulemap[tzrule][startIndex][2],
-                        len(rulemap[tzrule]),
                     )
                 else:
                     lastZoneRule.vtimezone(
@@ -285,8 +281,8 @@ class Zone(object):
                 mergeTo = values[0]
                 for mergeFrom in values[1:]:
                     # Copy RDATE from to and remove from actual timezone
-                    prop = mergeFrom.getProperties()[definitions.cICalProperty_RDATE][0]
-                    mergeTo.addProperty(prop)
+                    for prop in mergeFrom.getProperties()[definitions.cICalProperty_RDATE]:
+                        mergeTo.addProperty(prop)
                     vtz.mComponents.remove(mergeFrom)
 
 
-- 
2.43.0


From 5471f8c1c6491410aec8cba58c634972eb6cb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 089/119] fix: a zone which did not change since the start year
 had a VTIMEZONE without any offset

---
 src/zonal/zone.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index f82bd5f..9391031 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -151,6 +151,7 @@ class Zone(object):
 
         # Now scan transitions looking for real changes and note those
         results = []
+        before = None
         last_transition = (startdt, start_offset, start_offset)
         for transition in transitions:
             dtutc, to_offset, zonerule, rule = transition
@@ -165,8 +166,14 @@ class Zone(object):
                         results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
                     else:
                         results.append((last_transition[0], last_transition[1], last_transition[2], zonerule, None))
+            else:
+                before = (dt, last_transition[1], to_offset, zonerule, rule)
             last_transition = (dt, to_offset, last_transition[2], rule)
 
+        # The last one before that still applies if there are no others
+        if len(results) == 0 and before is not None:
+            results.append(before)
+
         return results
 
     def vtimezone(self, calendar, rules, minYear, maxYear):
-- 
2.43.0


From 7a46dc395880ea4770d4242fee7ef1596f750dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 090/119] fix: a change of offset at 24:00 came a second early

---
 src/zonal/rule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index eabf9b1..ca62b10 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -301,9 +301,8 @@ class Rule(object):
 
         # Special case for 24:00
         if hours == 24 and minutes == 0:
-            dt.setHours(23)
-            dt.setMinutes(59)
-            dt.setSeconds(59)
+            dt.setHours(0)
+            dt.setMinutes(0)
         else:
             dt.setHours(hours)
             dt.setMinutes(minutes)
@@ -321,6 +320,10 @@ class Rule(object):
             except:
                 assert False, "onDay value is not recognized: %s" % (self.onDay,)
 
+        # 24:00 is the start of the next day
+        if hours == 24 and minutes == 0:
+            dt.offsetDay(1)
+
         return dt, special
 
     def getOnDayDetails(self, start, indicatedDay, indicatedOffset):
-- 
2.43.0


From 38a382b5f5e06779db0ce01cde1c57126035a9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 091/119] fix: a zone expanded to a later year than before
 lacked the changes of offset after that year

---
 src/zonal/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index ca62b10..4a1222c 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -177,6 +177,7 @@ class Rule(object):
         self.letter = ""
 
         self.dt_cache = None
+        self.dt_cache_max = None
 
     def __str__(self):
         return self.generate()
@@ -421,12 +422,13 @@ class Rule(object):
         @param maxYear: maximum year to expand to
         @type maxYear: C{int}
         """
-        if self.dt_cache is None:
+        if self.dt_cache is None or self.dt_cache_max != maxYear:
             start = self.startYear()
             end = self.endYear()
             if end > maxYear:
                 end = maxYear - 1
             self.dt_cache = []
+            self.dt_cache_max = maxYear
             for year in xrange(start, end + 1):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
-- 
2.43.0


From 203a69f7ef1ff72bacf39fd2b56f8e3c7854b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 092/119] fix: a zone kept the offset of before when the rules
 which then apply come later than the years asked for

---
 src/zonal/zone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 9391031..c70e641 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -464,6 +464,9 @@ class ZoneRule(object):
                 found_one = True
 
             if found_start == 0:
+                if not found_one:
+                    last_offset = self.getUTCOffset()
+                    last_stdoffset = self.getUTCOffset()
                 results.append((lastUntilUTC, last_offset, self, None))
 
             return last_offset, last_stdoffset
-- 
2.43.0


From d91a4dbe540daaefcf42a16448139c87a1fc4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 093/119] fix: a file of a zone could be read in part while it
 was written, and stayed that way when writing was cut off

---
 src/zonal/tzconvert.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 0bdba7d..ee8d188 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -175,8 +175,7 @@ class tzconvert(object):
             fpath = os.path.join(outputdir, tzzone.name + ".ics")
             if not os.path.exists(os.path.dirname(fpath)):
                 os.makedirs(os.path.dirname(fpath))
-            with open(fpath, "w") as f:
-                f.write(icsdata)
+            self._writeFile(fpath, icsdata)
             if self.verbose:
                 print("Write path: %s" % (fpath,))
 
@@ -200,8 +199,7 @@ class tzconvert(object):
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
                     os.makedirs(os.path.dirname(toPath))
-                with open(toPath, "w") as f:
-                    f.write(icsdata)
+                self._writeFile(toPath, icsdata)
                 if self.verbose:
                     print("Write link: %s" % (linkTo,))
 
@@ -209,8 +207,16 @@ class tzconvert(object):
 
             # Generate link mapping file
             linkPath = os.path.join(outputdir, "links.txt")
-            with open(linkPath, "w") as f:
-                f.write("\n".join(link_list))
+            self._writeFile(linkPath, "\n".join(link_list))
+
+    def _writeFile(self, path, data):
+        """
+        Write a file which others only ever see complete.
+        """
+        tempPath = path + ".tmp"
+        with open(tempPath, "w") as f:
+            f.write(data)
+        os.rename(tempPath, path)
 
 
 def usage(error_msg=None):
-- 
2.43.0


From 4a5d6d15a2ed58f98dae7c79c094e24df4c5161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 094/119] fix: zones of an earlier run stayed, and were linked
 to, when one could not be removed

---
 src/zonal/tzconvert.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index ee8d188..26ae1ab 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -155,14 +155,11 @@ class tzconvert(object):
     def generateZoneinfoFiles(self, outputdir, minYear, maxYear=2018, links=True, windowsAliases=None, filterzones=None):
 
         # Empty current directory
-        try:
-            for root, dirs, files in os.walk(outputdir, topdown=False):
-                for name in files:
-                    os.remove(os.path.join(root, name))
-                for name in dirs:
-                    os.rmdir(os.path.join(root, name))
-        except OSError:
-            pass
+        for root, dirs, files in os.walk(outputdir, topdown=False):
+            for name in files:
+                os.remove(os.path.join(root, name))
+            for name in dirs:
+                os.rmdir(os.path.join(root, name))
 
         for tzzone in self.zones.itervalues():
             if filterzones and tzzone.name not in filterzones:
-- 
2.43.0


From 6893ca91c345062be7cfd4e10d2ec6d95aba73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 095/119] fix: the file of a link had the link's name also
 where the name of the zone happened to be part of something else

---
 src/zonal/tzconvert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 26ae1ab..21e1777 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -18,6 +18,7 @@
 from __future__ import with_statement
 from __future__ import print_function
 
+from pycalendar.icalendar import definitions
 from pycalendar.icalendar.calendar import Calendar
 from xml.etree.cElementTree import ParseError as XMLParseError
 import cStringIO as StringIO
@@ -191,7 +192,8 @@ class tzconvert(object):
 
                 with open(fromPath) as f:
                     icsdata = f.read()
-                icsdata = icsdata.replace(linkFrom, linkTo)
+                for name in (definitions.cICalProperty_TZID, "X-LIC-LOCATION"):
+                    icsdata = icsdata.replace("\n%s:%s\r" % (name, linkFrom), "\n%s:%s\r" % (name, linkTo))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From 0545797dd08eea9a2e1d82bc53b3d27211d7039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 096/119] fix: a link to a link which sorts after it was left
 out

---
 src/zonal/tzconvert.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 21e1777..d0bc5c7 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -184,8 +184,13 @@ class tzconvert(object):
             link_list = []
             for linkTo, linkFrom in sorted(self.links.iteritems(), key=lambda x: x[0]):
 
+                # A link to a link is one to its zone
+                zoneName = linkFrom
+                for _ignore in range(len(self.links)):
+                    zoneName = self.links.get(zoneName, zoneName)
+
                 # Check for existing output file
-                fromPath = os.path.join(outputdir, linkFrom + ".ics")
+                fromPath = os.path.join(outputdir, zoneName + ".ics")
                 if not os.path.exists(fromPath):
                     print("Missing link from: %s to %s" % (linkFrom, linkTo,))
                     continue
@@ -193,7 +198,7 @@ class tzconvert(object):
                 with open(fromPath) as f:
                     icsdata = f.read()
                 for name in (definitions.cICalProperty_TZID, "X-LIC-LOCATION"):
-                    icsdata = icsdata.replace("\n%s:%s\r" % (name, linkFrom), "\n%s:%s\r" % (name, linkTo))
+                    icsdata = icsdata.replace("\n%s:%s\r" % (name, zoneName), "\n%s:%s\r" % (name, linkTo))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From 9da519d5bea6d148b11833219aae8365ac6fb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 097/119] fix: Windows aliases given to one run were linked by
 every run after it

---
 src/zonal/tzconvert.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index d0bc5c7..60b3700 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -178,16 +178,22 @@ class tzconvert(object):
                 print("Write path: %s" % (fpath,))
 
         if links:
+            # The aliases are this run's, not those of the ones after it
+            allLinks = self.links
             if windowsAliases is not None:
-                self.parseWindowsAliases(windowsAliases)
+                try:
+                    self.links = dict(allLinks)
+                    self.parseWindowsAliases(windowsAliases)
+                finally:
+                    allLinks, self.links = self.links, allLinks
 
             link_list = []
-            for linkTo, linkFrom in sorted(self.links.iteritems(), key=lambda x: x[0]):
+            for linkTo, linkFrom in sorted(allLinks.iteritems(), key=lambda x: x[0]):
 
                 # A link to a link is one to its zone
                 zoneName = linkFrom
-                for _ignore in range(len(self.links)):
-                    zoneName = self.links.get(zoneName, zoneName)
+                for _ignore in range(len(allLinks)):
+                    zoneName = allLinks.get(zoneName, zoneName)
 
                 # Check for existing output file
                 fromPath = os.path.join(outputdir, zoneName + ".ics")
-- 
2.43.0


From b607e7bfb28a19469783032b98e431ee73da3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 098/119] fix: writing a property whose value is not UTF-8
 never ended

---
 src/pycalendar/property.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 782cbeb..d16d8f7 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -376,9 +376,12 @@ class PropertyBase(object):
                     written = len(temp)
                 else:
                     # Check whether next char is valid utf8 lead byte
-                    while (temp[offset] > 0x7F) and ((ord(temp[offset]) & 0xC0) == 0x80):
+                    while offset > start and (ord(temp[offset]) & 0xC0) == 0x80:
                         # Step back until we have a valid char
                         offset -= 1
+                    if offset == start:
+                        # No char is that long, so this is not utf8
+                        offset = start + lineWrap
 
                     line = temp[start:offset]
                     os.write(line)
-- 
2.43.0


From 648bb48373e31e4e1ea1af7437cfc294ac6a6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:16 +0000
Subject: [PATCH 099/119] fix: the leading space of a parameter value was lost
 when it was written and read

---
 src/pycalendar/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index a36505c..0167c39 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -102,8 +102,8 @@ class Parameter(object):
         # ^-escaping
         str = encodeParameterValue(str)
 
-        # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        # Look for quoting (a leading space is dropped by readers otherwise)
+        if str.startswith(" ") or str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From 79618a673be300d49df1af1ffac1ee70318d0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 100/119] fix: reading a vCard line with something else than a
 delimiter after a quoted string never ended

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 7177e1e..6a5963d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -260,6 +260,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # Terminate the loop
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From e348c39fe889fa201842c9a8a3cf256fdbcc94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 101/119] fix: a line without a value was accepted, and written
 as one with the value null

---
 src/pycalendar/property.py       | 3 +++
 src/pycalendar/vcard/property.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index d16d8f7..07e9adf 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -313,6 +313,9 @@ class PropertyBase(object):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            # There is no value
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 6a5963d..b04ca88 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -264,6 +264,9 @@ class Property(PropertyBase):
                     # Terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            # There is no value
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
 
-- 
2.43.0


From 96f94c85d0341ec24c4608c7422e1d8ae2d83f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 102/119] fix: a date in a month that does not exist was
 accepted, and failed when it was used

---
 src/pycalendar/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index ddd0cd2..1065491 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -937,6 +937,8 @@ class DateTime(ValueMixin):
             raise ValueError("DateTime: spaces not allowed at start")
         if self.mYear < 0 or self.mMonth < 0 or self.mDay < 0:
             raise ValueError("DateTime: negative date components not allowed")
+        if not 1 <= self.mMonth <= 12:
+            raise ValueError("DateTime: no such month")
         return index
 
     def parseTime(self, data, index, fullISO):
-- 
2.43.0


From 33b4ff3be906a3e5a4dab9708ead094d50b01cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 103/119] fix: asking a time zone whose observance starts at a
 time in that zone never came to an end

---
 src/pycalendar/icalendar/vtimezoneelement.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index ae1d732..9cc94d8 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -63,7 +63,7 @@ class VTimezoneElement(Component):
         # Get DTSTART
         temp = self.loadValueDateTime(definitions.cICalProperty_DTSTART)
         if temp is not None:
-            self.mStart = temp
+            self.mStart = self._localTime(temp)
 
         # Get TZOFFSETTO
         temp = self.loadValueInteger(definitions.cICalProperty_TZOFFSETTO, Value.VALUETYPE_UTC_OFFSET)
@@ -85,10 +85,22 @@ class VTimezoneElement(Component):
 
         # Get RDATEs
         self.loadValueRDATE(definitions.cICalProperty_RDATE, self.mRecurrences, True)
+        self.mRecurrences.mRdates = [self._localTime(rdate) for rdate in self.mRecurrences.mRdates]
+        self.mRecurrences.mRperiods = [Period(self._localTime(rdate.getStart()), duration=rdate.mDuration) if rdate.getUseDuration()
+                                       else Period(self._localTime(rdate.getStart()), self._localTime(rdate.getEnd())) for rdate in self.mRecurrences.mRperiods]
 
         # Do inherited
         super(VTimezoneElement, self).finalise()
 
+    def _localTime(self, dt):
+        """
+        A time here is local to the time zone being defined, so must not refer to one.
+        """
+        if dt.getTimezoneID():
+            dt = dt.duplicate()
+            dt.setTimezoneID(None)
+        return dt
+
     def getSortKey(self):
         """
         We do not want these components sorted.
-- 
2.43.0


From b879f40b1f9fb9d17895cba510c31272cf94e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 104/119] fix: JSON that is something else than a calendar or
 card, or has no (valid) version, was accepted

---
 src/pycalendar/containerbase.py | 18 +++++++++++++++++-
 src/pycalendar/vcard/card.py    |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 0e26f31..405b78f 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -222,7 +222,23 @@ class ContainerBase(ComponentBase):
             jobject = json.loads(data)
         except ValueError as e:
             raise InvalidData("JSON parse: {}".format(e), data)
-        return cls.parseJSON(jobject, None, cls(add_defaults=False))
+        return cls._parseContainerJSON(jobject)
+
+    @classmethod
+    def _parseContainerJSON(cls, jobject):
+        """
+        Parse the JSON of a container - what is required of one in text is required here too.
+        """
+        result = cls.parseJSON(jobject, None, cls(add_defaults=False))
+        if not isinstance(jobject[0], basestring) or jobject[0].upper() != result.getType():
+            raise InvalidData("{} data not recognized".format(cls.sContainerDescriptor), jobject)
+        for props in result.getProperties().itervalues():
+            for prop in props:
+                if not result.validProperty(prop):
+                    raise InvalidData("Invalid property", str(prop))
+        if not result.hasProperty("VERSION"):
+            raise InvalidData("{} missing VERSION".format(cls.sContainerDescriptor), jobject)
+        return result
 
     def getText(self, format=None):
 
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..8073dc7 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -166,7 +166,7 @@ class Card(ContainerBase):
             raise InvalidData("JSON error: '{}'".format(e), data)
         results = []
         for jobject in jobjects:
-            results.append(cls.parseJSON(jobject, None, cls(add_defaults=False)))
+            results.append(cls._parseContainerJSON(jobject))
         return results
 
     def addDefaultProperties(self):
-- 
2.43.0


From 18a3f39e7364cda318212fdae8e0bc88c8299c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 105/119] fix: JSON names that cannot be written as text were
 accepted

---
 src/pycalendar/componentbase.py |  3 ++-
 src/pycalendar/property.py      | 14 +++++++++-----
 src/pycalendar/utils.py         | 22 ++++++++++++++++++++++
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 1545696..f261fb3 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -18,6 +18,7 @@ from cStringIO import StringIO
 from pycalendar import xmldefinitions, xmlutils
 from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.periodvalue import PeriodValue
+from pycalendar.utils import nameFromJSON
 from pycalendar.value import Value
 import xml.etree.cElementTree as XML
 from pycalendar.exceptions import InvalidComponent, ErrorBase
@@ -337,7 +338,7 @@ class ComponentBase(object):
 
         try:
             if comp is None:
-                comp = cls.sComponentType.makeComponent(jobject[0].upper(), parent)
+                comp = cls.sComponentType.makeComponent(nameFromJSON(jobject[0], "\r").upper(), parent)
             for prop in jobject[1]:
                 comp.addProperty(cls.sPropertyType.parseJSON(prop))
             for subcomp in jobject[2]:
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 07e9adf..63b8b89 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -28,7 +28,7 @@ from pycalendar.plaintextvalue import PlainTextValue
 from pycalendar.unknownvalue import UnknownValue
 from pycalendar.urivalue import URIValue
 from pycalendar.utcoffsetvalue import UTCOffsetValue
-from pycalendar.utils import decodeParameterValue
+from pycalendar.utils import decodeParameterValue, nameFromJSON
 from pycalendar.value import Value
 import cStringIO as StringIO
 import xml.etree.cElementTree as XML
@@ -439,22 +439,26 @@ class PropertyBase(object):
             prop = cls()
 
             # Get the name
-            prop.mName = jobject[0].encode("utf-8").upper()
+            prop.mName = nameFromJSON(jobject[0]).upper()
 
             # Get the parameters
             if jobject[1]:
                 for name, value in jobject[1].items():
                     # A vCard group is not a parameter
                     if prop.sUsesGroup and name.lower() == "group":
-                        prop.mGroup = value.encode("utf-8")
+                        prop.mGroup = nameFromJSON(value, ":;.")
                         continue
 
                     # Now add parameter value
-                    name = name.upper()
+                    name = nameFromJSON(name, "=:;" if prop.sUsesGroup else "=", True).upper()
                     values = value if isinstance(value, list) else [value]
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=[v.encode("utf-8") for v in values])
+                    attrvalue = Parameter(name=name, value=[v.encode("utf-8") for v in values])
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
+            # It starts the line unless there is a group, which would be read from the name if there is none
+            if not (prop.sUsesGroup and prop.mGroup) and (prop.mName[0] == "\t" or prop.mName in ("BEGIN", "END") or prop.sUsesGroup and "." in prop.mName):
+                raise ValueError("Invalid name")
+
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
             value_type = cls.sValueTypeMap.get(jobject[2].upper(), Value.VALUETYPE_UNKNOWN)
             default_type = cls.sDefaultValueTypeMap.get(prop.mName.upper(), Value.VALUETYPE_UNKNOWN)
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 9946fc5..87b04b8 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -176,6 +176,28 @@ def decodeTextValue(value):
     return os.getvalue()
 
 
+def nameFromJSON(name, exclude=":;", empty=False):
+    """
+    Get the name of a component, property or parameter from JSON - it has to be one
+    that can be written as text.
+
+    @param name: the name
+    @type name: C{unicode}
+    @param exclude: characters that end the name when it is written as text
+    @type exclude: C{str}
+    @param empty: whether it may be empty
+    @type empty: C{bool}
+
+    @return: the name, encoded
+    @rtype: C{str}
+    """
+    if not isinstance(name, basestring) or not name and not empty:
+        raise ValueError("Invalid name")
+    if name.startswith((" ", '"')) or find_first_of(name, exclude + "\n", 0) != -1:
+        raise ValueError("Invalid name")
+    return name.encode("utf-8")
+
+
 def encodeParameterValue(value):
     """
     RFC6868 parameter encoding.
-- 
2.43.0


From ea448f25708d679c2ab4ddc3aa0caae6bb9a3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 106/119] fix: JSON values of the wrong shape were accepted

---
 src/pycalendar/geovalue.py                    |  6 +++--
 .../icalendar/requeststatusvalue.py           |  2 ++
 src/pycalendar/property.py                    |  2 ++
 src/pycalendar/utils.py                       | 23 +++++++++++++++++++
 src/pycalendar/vcard/adr.py                   |  2 +-
 src/pycalendar/vcard/n.py                     |  2 +-
 src/pycalendar/vcard/orgvalue.py              |  5 +++-
 7 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..65e7550 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -49,7 +49,7 @@ class GeoValue(Value):
         try:
             self.mValue = [float(splits[0]), float(splits[1])]
         except ValueError:
-            if splits[0][-1] == '\\':
+            if splits[0].endswith('\\'):
                 try:
                     self.mValue = [float(splits[0][:-1]), float(splits[1])]
                 except ValueError:
@@ -71,7 +71,9 @@ class GeoValue(Value):
         longitude.text = self.mValue[1]
 
     def parseJSONValue(self, jobject):
-        self.mValue = jobject
+        if not isinstance(jobject, list) or len(jobject) != 2:
+            raise InvalidData("GEO value incorrect", jobject)
+        self.mValue = [float(jobject[0]), float(jobject[1])]
 
     def writeJSONValue(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..0aa68ee 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -91,6 +91,8 @@ class RequestStatusValue(Value):
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
+        if not isinstance(jobject, list) or len(jobject) not in (2, 3):
+            raise ValueError("RequestStatus: incorrect number of value components")
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
 
     def writeJSONValue(self, jobject):
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 63b8b89..4d745ce 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -471,6 +471,8 @@ class PropertyBase(object):
 
             # Check for multivalued
             values = jobject[3:]
+            if not values:
+                raise ValueError("missing value")
             if prop.mName.upper() in cls.sMultiValues:
                 prop.mValue = MultiValue(value_type)
                 prop.mValue.parseJSONValue(values)
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 87b04b8..0328930 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -316,6 +316,27 @@ def parseDoubleNestedList(data, maxsize):
         items = [decodeTextValue(item) for item in splitEscapedText(element, ',')]
         results.append(tuple(items) if len(items) > 1 else items[0])
 
+    return _fitDoubleNestedList(results, maxsize)
+
+
+def parseDoubleNestedJSON(jobject, maxsize):
+    """
+    As L{parseDoubleNestedList}, from JSON.
+    """
+    results = []
+    for element in ([jobject] if isinstance(jobject, basestring) else parseJSONList(jobject)):
+        if isinstance(element, tuple):
+            if [item for item in element if isinstance(item, tuple)]:
+                raise ValueError("Invalid value: '{}'".format(jobject))
+            if len(element) < 2:
+                element = element[0] if element else ""
+        elif isinstance(element, unicode):
+            element = element.encode("utf-8")
+        results.append(element)
+    return _fitDoubleNestedList(results, maxsize)
+
+
+def _fitDoubleNestedList(results, maxsize):
     for _ignore in range(maxsize - len(results)):
         results.append("")
 
@@ -355,6 +376,8 @@ def parseJSONList(jobject):
     """
     if isinstance(jobject, basestring):
         return jobject.encode("utf-8")
+    if not isinstance(jobject, (list, tuple)):
+        raise ValueError("Invalid value: '{}'".format(jobject))
     return tuple([parseJSONList(item) for item in jobject])
 
 # Date/time calcs
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 1f35b7a..b28b25a 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -100,7 +100,7 @@ class Adr(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = utils.parseJSONList(jobject)
+        self.mValue = utils.parseDoubleNestedJSON(jobject, Adr.MAXITEMS)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index f614a07..bccbb2a 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -99,7 +99,7 @@ class N(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = utils.parseJSONList(jobject)
+        self.mValue = utils.parseDoubleNestedJSON(jobject, N.MAXITEMS)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index 449e8d1..23d3e2a 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -41,7 +41,10 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = utils.parseJSONList(jobject)
+        value = utils.parseJSONList(jobject)
+        if [item for item in value if isinstance(item, tuple)]:
+            raise ValueError("Invalid value: '{}'".format(jobject))
+        self.mValue = value
 
     def writeJSONValue(self, jobject):
         jobject.append(self.mValue if isinstance(self.mValue, basestring) else list(self.mValue))
-- 
2.43.0


From 344d9c29259415cbe50ed9146da8f9a2cad3a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 107/119] fix: BEGIN or END out of place, an empty name with a
 group and quoted names were accepted

---
 src/pycalendar/property.py       | 9 +++++++--
 src/pycalendar/vcard/property.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 4d745ce..d7dadf9 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -231,8 +231,10 @@ class PropertyBase(object):
 
             # Look for parameter or value delimiter
             prop_name, txt = stringutils.strduptokenstr(data, ";:")
-            if not prop_name:
+            if not prop_name or data.lstrip()[0] == '"':
                 raise InvalidProperty("Invalid property: empty name", data)
+            if prop_name.upper() in ("BEGIN", "END"):
+                raise InvalidProperty("Invalid property: misplaced {}".format(prop_name.upper()), data)
 
             # Get the name
             if prop.sUsesGroup:
@@ -242,6 +244,8 @@ class PropertyBase(object):
                     # We have both group and name
                     prop.mGroup = splits[0]
                     prop.mName = splits[1]
+                    if not prop.mGroup or not prop.mName:
+                        raise InvalidProperty("Invalid property: empty name", data)
                 else:
                     # We have the name
                     prop.mName = prop_name
@@ -288,8 +292,9 @@ class PropertyBase(object):
                     txt = txt[1:]
 
                     # Get quoted string or token
+                    quoted = txt.lstrip()[0] == '"'
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=")
-                    if parameter_name is None:
+                    if parameter_name is None or quoted:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
                     txt = txt[1:]
                     parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index b04ca88..b4a5448 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -220,8 +220,9 @@ class Property(PropertyBase):
                     # Get quoted string or token - in iCalendar we only look for "=" here
                     # but for "broken" vCard BASE64 property we need to also terminate on
                     # ":;"
+                    quoted = txt.lstrip()[0] == '"'
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=:;")
-                    if parameter_name is None:
+                    if parameter_name is None or quoted:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
 
                     if txt[0] != "=":
-- 
2.43.0


From 715a21fd0e88ecfa9acfc4230c014916bd97886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 108/119] fix: expanding an event that starts on a date that
 does not exist changed the event

---
 src/pycalendar/icalendar/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 15343fb..3e71de2 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -838,7 +838,8 @@ class Recurrence(ValueMixin):
     def expand(self, start, range, items, float_offset=0, maxInstances=None):
 
         # Have to normalize this to be very sure we are starting with a valid date, as otherwise
-        # we could end up looping forever when doing recurrence.
+        # we could end up looping forever when doing recurrence. It is not ours to change though.
+        start = start.duplicate()
         start.normalise()
 
         # Must have recurrence list at this point
-- 
2.43.0


From e508dc6825445e0c07e850479480fdddc6884ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 109/119] fix: a URI with a backslash was written as text that
 is refused or read as another URI

---
 src/pycalendar/urivalue.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/urivalue.py b/src/pycalendar/urivalue.py
index 58fdc64..e505f14 100644
--- a/src/pycalendar/urivalue.py
+++ b/src/pycalendar/urivalue.py
@@ -42,10 +42,16 @@ class URIValue(PlainTextValue):
         Handle a client bug where it sometimes includes a \n in the value and we need
         to make sure that gets encoded rather than included literally which would break syntax.
         """
-        if '\n' in self.mValue:
+        value = self.mValue
+        if value and '\\' in value and ParserContext.BACKSLASH_IN_URI_VALUE == ParserContext.PARSER_FIX:
+            # This is what would be decoded
+            value = value.replace("\\", "\\\\")
+        if value and '\n' in value:
+            # No encoding required
+            value = value.replace("\n", "\\n")
+        if value != self.mValue:
             try:
-                # No encoding required
-                os.write(self.mValue.replace("\n", "\\n"))
+                os.write(value)
             except:
                 pass
         else:
-- 
2.43.0


From f7701a51d832b9a524e6c3ee2dfc01781127f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 110/119] fix: the text of an error about data that is not
 ASCII could not be had

---
 src/pycalendar/exceptions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/exceptions.py b/src/pycalendar/exceptions.py
index 6fe5a6a..94f7d08 100644
--- a/src/pycalendar/exceptions.py
+++ b/src/pycalendar/exceptions.py
@@ -22,7 +22,11 @@ class ErrorBase(Exception):
         self.mData = data
 
     def __str__(self):
-        return "{}: {}".format(self.mReason, self.mData) if self.mData else self.mReason
+        reason, data = [
+            item.encode("utf-8") if isinstance(item, unicode) else str(item)
+            for item in (self.mReason, self.mData,)
+        ]
+        return "{}: {}".format(reason, data) if self.mData else reason
 
 
 class InvalidData(ErrorBase):
-- 
2.43.0


From fd8421ec501aa8452f5c258f0acf66f07cf837b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 111/119] fix: a property with several TZID or VALUE parameters
 was accepted, and changed its meaning when written

---
 src/pycalendar/icalendar/property.py | 2 ++
 src/pycalendar/property.py           | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 7750c2f..706c625 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -270,6 +270,8 @@ class Property(PropertyBase):
             value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and
             self.hasParameter(definitions.cICalParameter_TZID)
         ):
+            if self.hasSeveralValues(definitions.cICalParameter_TZID):
+                raise ValueError("More than one {}".format(definitions.cICalParameter_TZID))
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
             for item in (self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,)):
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index d7dadf9..d44435e 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -527,12 +527,20 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeJSON(prop)
 
+    def hasSeveralValues(self, attr):
+        """
+        Whether a parameter that has one value was given more, in any of the ways to do that.
+        """
+        return sum([len(item.getValues()) for item in self.mParameters.get(attr, ())]) > 1
+
     def determineValueType(self):
         # Get value type from property name
         value_type = self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN)
 
         # Check whether custom value is set
         if self.sValue in self.mParameters:
+            if self.hasSeveralValues(self.sValue):
+                raise ValueError("More than one {}".format(self.sValue))
             attr = self.getParameterValue(self.sValue)
             value_type = self.sValueTypeMap.get(attr, value_type)
 
-- 
2.43.0


From 771802078ec1a817657c9d165a070c8e7a960e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 112/119] fix: a component without a name was accepted

---
 src/pycalendar/icalendar/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index e133a9d..9771d15 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -18,6 +18,7 @@ from pycalendar import stringutils
 from pycalendar.componentbase import ComponentBase
 from pycalendar.datetime import DateTime
 from pycalendar.datetimevalue import DateTimeValue
+from pycalendar.exceptions import InvalidComponent
 from pycalendar.icalendar import definitions
 from pycalendar.icalendar.property import Property
 from pycalendar.multivalue import MultiValue
@@ -42,6 +43,8 @@ class Component(ComponentBase):
 
     @classmethod
     def makeComponent(cls, compname, parent):
+        if not compname.strip():
+            raise InvalidComponent("Component name missing")
         try:
             return cls.mapper[compname](parent=parent)
         except KeyError:
-- 
2.43.0


From a13489bd2c342efd27a4900349d3b41930d86351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 113/119] fix: a component of the name UNKNOWN lost its name

---
 src/pycalendar/icalendar/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 9771d15..2dcc410 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -45,9 +45,9 @@ class Component(ComponentBase):
     def makeComponent(cls, compname, parent):
         if not compname.strip():
             raise InvalidComponent("Component name missing")
-        try:
+        if compname in cls.mapper and compname != definitions.cICalComponent_UNKNOWN:
             return cls.mapper[compname](parent=parent)
-        except KeyError:
+        else:
             return cls.mapper[definitions.cICalComponent_UNKNOWN](parent=parent, comptype=compname)
 
     def __init__(self, parent=None):
-- 
2.43.0


From c92ea27a9a34f606a33e66139af40d3ca96ca9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 114/119] fix: a calendar with a duration or a period could not
 be written as XML

---
 src/pycalendar/valueutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From 5a5967ce5e2563e1e5d6f1a5c2f6a0943ac14f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 115/119] fix: a calendar with a GEO could not be written as
 XML

---
 src/pycalendar/geovalue.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 65e7550..6de466e 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -62,13 +62,12 @@ class GeoValue(Value):
         os.write("%s;%s" % (self.mValue[0], self.mValue[1],))
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
+        # RFC 6321: these are directly in the property
+        latitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
+        latitude.text = str(self.mValue[0])
 
-        latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
-
-        longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
+        longitude.text = str(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         if not isinstance(jobject, list) or len(jobject) != 2:
-- 
2.43.0


From 156501698e57cca88adccaaeb14d21c5356c4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 116/119] fix: a calendar with a REQUEST-STATUS could not be
 written as XML

---
 src/pycalendar/icalendar/requeststatusvalue.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 0aa68ee..20533d0 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -78,16 +78,15 @@ class RequestStatusValue(Value):
         utils.generateTextList(os, self.mValue if len(self.mValue) < 3 or self.mValue[2] else self.mValue[:2])
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        code = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
+        # RFC 6321: these are directly in the property
+        code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
         code.text = self.mValue[0]
 
-        description = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
+        description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
         description.text = self.mValue[1]
 
         if len(self.mValue) == 3 and self.mValue[2]:
-            data = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
+            data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
-- 
2.43.0


From 5da2b7a480559289bc4af139a3d9e7914606bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 117/119] fix: a UTC offset with seconds was written to XML as
 another time

---
 src/pycalendar/utcoffsetvalue.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..847e562 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -89,12 +89,10 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
-        text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
+        self.generate(os, fullISO=True)
 
         value = self.getXMLNode(node, namespace)
-        value.text = text
+        value.text = os.getvalue()
 
     def parseJSONValue(self, jobject):
         self.parse(str(jobject), variant="vcard")
-- 
2.43.0


From ada639dedc73125aa2fe9235cda0729d82c60a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 118/119] fix: text that is not ASCII was garbled in XML (or
 could not be written)

---
 src/pycalendar/xmlutils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index de41dcc..9c1f809 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -42,6 +42,14 @@ def toString(root):
                 node.getchildren()[-1].tail = "\n" + " " * level * INDENT
 
     _indentNode(root, 0)
-    data += XML.tostring(root) + "\n"
+
+    # Our text is UTF-8, whereas XML wants characters
+    for node in root.getiterator():
+        if isinstance(node.tag, str):
+            node.tag = node.tag.decode("utf-8")
+        if isinstance(node.text, str):
+            node.text = node.text.decode("utf-8")
+
+    data += XML.tostring(root, "utf-8") + "\n"
 
     return data
-- 
2.43.0


From 09d91cfdba2da2af00739cd17b71490f9b447efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:39 +0000
Subject: [PATCH 119/119] fix: adding a huge number of days to a date (of a
 damaged duration or interval) went on for minutes

---
 src/pycalendar/datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 1065491..44413be 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1129,7 +1129,11 @@ class DateTime(ValueMixin):
         self.mMonth = normalised_month
         self.mYear += adjustment_year
 
-        # Now do days
+        # Now do days, of which any 400 years have the same number
+        if abs(self.mDay) > 146097:
+            cycles = (self.mDay - 1) / 146097
+            self.mYear += cycles * 400
+            self.mDay -= cycles * 146097
         if self.mDay > 0:
             while self.mDay > utils.daysInMonth(self.mMonth, self.mYear):
                 self.mDay -= utils.daysInMonth(self.mMonth, self.mYear)
-- 
2.43.0

