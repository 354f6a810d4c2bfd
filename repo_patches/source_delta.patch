From fe603c6ac3e1a4a3d784f39f292611e821b105d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 01/15] fix: keep an explicit mark found anywhere within the
 last base unit of the frame

The bound closing the last element of the frame was placed one second after
the element's start, so a mark located later within this element was dropped.
---
 timeboard/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..c2f2c0f 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -246,8 +246,10 @@ class _Frame(pd.PeriodIndex):
 
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
+        # the bound separating the last element of the frame from 
+        # the points in time beyond the frame
         start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
+            pd.DatetimeIndex([self.end_time + pd.Timedelta(1, unit='ns')]))
         if span_first is None:
             span_first = 0
         if span_last is None:
-- 
2.43.0


From db3554d46141b23ad55946d82068984f075bd7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 02/15] fix: raise VoidIntervalError if 'closed' leaves nothing
 of a clipped calendar period

With clipping on, get_interval() could end up with the bounds in reverse order
(one of them possibly at -1) and reported the result as OutOfBoundsError.
---
 timeboard/timeboard.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..ee978fe 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -785,6 +785,12 @@ class Timeboard(object):
                 "The right bound of interval or period referenced by `{}` "
                 "is outside {}".format(interval_ref, self.compact_str))
 
+        if locs[0].position > locs[1].position:
+            # the only workshift left after clipping has been dropped 
+            # by `closed` parameter 
+            return self._handle_void_interval(
+                "Attempted to create void interval referenced by `{}` within {}"
+                .format(interval_ref, self.compact_str))
         return Interval(self, (locs[0].position, locs[1].position), schedule)
 
     def _locations_in_order(self, locs):
-- 
2.43.0


From 0c89b55b5c7d2592a24957aef81c2d4098b0a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 03/15] fix: count_periods must not fail because of periods
 without interval's duty workshifts

A calendar period which extends outside the timeboard is a reason for an error
only if it contains the first or the last workshift of the interval with the
required duty, as documented.
---
 timeboard/interval.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..517382e 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -1,5 +1,6 @@
 from __future__ import division
 from .exceptions import (OutOfBoundsError,
+                         PartialOutOfBoundsError,
                          VoidIntervalError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
@@ -671,7 +672,7 @@ class Interval(_BaseInterval):
                                 clip_period=False,
                                 schedule=schedule
                              )
-            except OutOfBoundsError:
+            except (OutOfBoundsError, PartialOutOfBoundsError):
                 period_intervals.append(None)
                 period_duty_count.append(None)
             except VoidIntervalError:
@@ -691,6 +692,12 @@ class Interval(_BaseInterval):
         last_period_ivl = period_intervals[last_period_with_duty_loc]
         len_of_last_period = period_duty_count[last_period_with_duty_loc]
 
+        for loc in (first_period_with_duty_loc, last_period_with_duty_loc):
+            if period_intervals[loc] is None:
+                # the period extends outside the timeboard: raise the error
+                self._tb.get_interval(period_index[loc], clip_period=False,
+                                      schedule=schedule)
+
         if ivl_duty_end_ts <= period_index[first_period_with_duty_loc].end_time:
             ivl_units_in_only_period = self.count(duty=duty, schedule=schedule)
             return ivl_units_in_only_period / len_of_1st_period
-- 
2.43.0


From d0a94d23f9eb35789b1ea34fc6d830409a3aae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 04/15] fix: let Easter markers work with periods other than
 years

Periods without Easter were dropped from Easter dates but not from the period
bounds the results are checked against, hence 'Lengths must match' error.
---
 timeboard/when.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 80c03bd..00ef6cc 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -202,8 +202,11 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
     easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
-    easter_dates = easter_dates[(easter_dates >= pi_start_times) &
-                                (easter_dates <= pi_end_times)]
+    has_easter = ((easter_dates >= pi_start_times) &
+                  (easter_dates <= pi_end_times))
+    easter_dates = easter_dates[has_easter]
+    pi_start_times = pi_start_times[has_easter]
+    pi_end_times = pi_end_times[has_easter]
 
     result = easter_dates + offset
     if normalize_by is not None:
-- 
2.43.0


From 738dcce8bb37540e0c607c18ebeb010b92e7c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 05/15] fix: ignore n-th weekday marks shifted out of the
 period they were sought in

Marker documentation: a point in time becomes a mark only if it is within the
'each' period in which it was being sought.
---
 timeboard/when.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 00ef6cc..3631174 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -70,8 +70,9 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     shift the result by the corresponding number of days. Return an 
     array of timestamps for the start times of the days found.
     Duplicates are removed. If, for a particular element of `pi`, 
-    the requested day does not exist within the month, the result for this 
-    element is silently omitted from the returned array.
+    the requested day does not exist within the month or it has been shifted 
+    out of this element, the result for this element is silently omitted from 
+    the returned array.
     
     Parameters
     ----------
@@ -128,8 +129,11 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     # make sure we are inside put periods pi - this check makes sense when
     # pi.freq is based on 'M'
     pi_end_times = pi.to_timestamp(how='end')
-    m_start_times = m_start_times[m_start_times <= pi_end_times]
+    within_pi = m_start_times <= pi_end_times
+    m_start_times = m_start_times[within_pi]
     m_end_times = m_end_times[m_end_times <= pi_end_times]
+    pi_start_times = pi.to_timestamp(how='start')[within_pi]
+    pi_end_times = pi_end_times[within_pi]
 
     # timer2 = timeit.default_timer()
     if week > 0:
@@ -142,7 +146,7 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
             [m_start_times[i] + week_offsets[i]
              for i in range(len(m_start_times))])
 
-        dtw = dtw[dtw <= m_end_times]
+        found = dtw <= m_end_times
 
     else:
         off_by_one_bug_flag = m_end_times.weekday == weekday - 1
@@ -153,14 +157,16 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
         dtw = pd.DatetimeIndex(
             [m_end_times[i] + week_offsets[i]
              for i in range(len(m_end_times))])
-        dtw = dtw[dtw >= m_start_times]
+        found = dtw >= m_start_times
 
     # timer3 = timeit.default_timer()
     # timers1.append(timer1 - timer0)
     # timers2.append(timer2 - timer1)
     # timers3.append(timer3 - timer2)
 
-    return dtw + pd.DateOffset(days=shift)
+    dtw = dtw[found] + pd.DateOffset(days=shift)
+    # `shift` may have thrown the result out of its period
+    return dtw[(dtw >= pi_start_times[found]) & (dtw <= pi_end_times[found])]
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From a9988733f97023dd60cbba249300c87567a750b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 06/15] fix: US calendar: observe next New Year Day on December
 31 of the last year of the range

If January 1 falls on Saturday, the preceding Friday is a day off. It was
omitted when the calendar ended in the year of that Friday (2004, 2010).
---
 timeboard/calendars/US.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..148ee43 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -33,6 +33,9 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     amendments = {"{} {}".format(day, year): label
                   for day, year in product(days, years)}
     if long_weekends:
+        if 'new_year' not in do_not_observe:
+            # next New Year Day on Saturday is observed on Dec 31 of this year
+            amendments["01 Jan {}".format(end_year + 1)] = label
         amendments = extend_weekends(amendments, how='nearest')
 
     floating_dates_to_seek = [date_tuple for holiday, date_tuple
-- 
2.43.0


From 7c8739414fea9a73c115cc7691d9abe07c6189b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 07/15] fix: give each iteration over an interval its own
 iterator

---
 timeboard/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 517382e..bd6d7b8 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -322,7 +322,7 @@ class Interval(_BaseInterval):
 
     def __iter__(self):
         self._ws_generator_activated = self.workshifts(duty='any')
-        return self
+        return self.workshifts(duty='any')
 
     def __len__(self):
         return self.length
-- 
2.43.0


From 5eb122047a2387b0f8489ac1f1e7041b37953683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 08/15] fix: let custom amendments override fixed-date holidays
 without long weekends

---
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 148ee43..b01178f 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,12 +30,13 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         if 'new_year' not in do_not_observe:
             # next New Year Day on Saturday is observed on Dec 31 of this year
-            amendments["01 Jan {}".format(end_year + 1)] = label
+            amendments[get_timestamp(
+                "01 Jan {}".format(end_year + 1))] = label
         amendments = extend_weekends(amendments, how='nearest')
 
     floating_dates_to_seek = [date_tuple for holiday, date_tuple
-- 
2.43.0


From 2f49300a2600a14e2f751b2b46b0556bb361f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 09/15] fix: UK Early May bank holiday of 2020 was on May 8

---
 timeboard/calendars/UK.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8013139..f971ca4 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -79,6 +79,10 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
         if 'royal' not in do_not_observe:
             amendments[get_timestamp('04 Jun 2012')] = label
             amendments[get_timestamp('05 Jun 2012')] = label
+    if 2020 in years and 'early_may' not in do_not_observe:
+        # moved to the 75th anniversary of VE Day
+        del amendments[get_timestamp('04 May 2020')]
+        amendments[get_timestamp('08 May 2020')] = label
 
     return amendments
 
-- 
2.43.0


From 9619272241616cf176d9b197832fbca16f531055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 10/15] fix: let months, quarters and years be partitioned by
 themselves, weeks by W-SUN

---
 timeboard/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index c2f2c0f..e923188 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -133,14 +133,15 @@ def _check_groupby_freq(base_unit_freq, group_by_freq):
                 gb_freq_factor = 1
             else:
                 gb_freq_factor = int(gb_match.group(1))
-            if bu_freq_factor == 1 and gb_freq_factor == 1:
-                # there is no freq multipliers, hence we drop the case
-                return False
             bu_freq_denomination = bu_match.group(2)
             gb_freq_denomination = gb_match.group(2)
 
-            if bu_freq_denomination == gb_freq_denomination:
+            to_offset = pd.tseries.frequencies.to_offset
+            if to_offset(bu_freq_denomination) == to_offset(gb_freq_denomination):
                 return gb_freq_factor % bu_freq_factor == 0
+            elif bu_freq_factor == 1 and gb_freq_factor == 1:
+                # there is no freq multipliers, hence we drop the case
+                return False
             elif bu_freq_factor == 1:
                 return _check_groupby_freq(bu_freq_denomination,
                                            gb_freq_denomination)
-- 
2.43.0


From 64b13c9887ed12c13a38ae8f75c4971ed225febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 11/15] fix: recognize every spelling of a frequency when
 grouping base units

'D' could not be grouped by 'Y' or '1W', nor 'min' by 'H', though they are
made up of whole base units and are accepted as 'A', 'W' and 'T'.
---
 timeboard/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeboard/core.py b/timeboard/core.py
index e923188..06841e6 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -109,6 +109,13 @@ def _check_groupby_freq(base_unit_freq, group_by_freq):
     -------
     True if `group_by_freq` can be used for grouping, False otherwise.
     """
+    try:
+        # the same frequency may be written in several ways (i.e. 'A', '1A',
+        # 'Y' and 'A-DEC'), so bring it to the form recognized below
+        base_unit_freq = pd.tseries.frequencies.to_offset(base_unit_freq).freqstr
+        group_by_freq = pd.tseries.frequencies.to_offset(group_by_freq).freqstr
+    except ValueError:
+        return False
     if bool(
             _pandas_is_subperiod(base_unit_freq, group_by_freq)
             # Some combinations of arguments result in is_subperiod function
-- 
2.43.0


From 7db41c0345f73c667f017d143c3f22c92a265129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 12/15] fix: unsupported base unit frequencies raise
 UnacceptablePeriodError (P23)

Documentation of Timeboard promises this error for a base unit frequency which
is not supported; pandas' ValueError used to escape instead, and business day
frequencies were not rejected.
---
 timeboard/core.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/timeboard/core.py b/timeboard/core.py
index 06841e6..e35198a 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -164,6 +164,16 @@ def _check_groupby_freq(base_unit_freq, group_by_freq):
             return False
 
 
+def _is_supported_freq(freq):
+    """Find out if `freq` is a calendar frequency other than a business one."""
+    try:
+        freq = pd.tseries.frequencies.to_offset(freq)
+        pd.Period('01 Jul 2016', freq=freq)
+    except ValueError:
+        return False
+    return not isinstance(freq, pd.tseries.offsets.BusinessDay)
+
+
 class _Frame(pd.PeriodIndex):
     """Timeboard's reference frame.
     
@@ -189,6 +199,8 @@ class _Frame(pd.PeriodIndex):
     ------
     VoidIntervalError
         If the time of `start` precedes the time of `end`.
+    UnacceptablePeriodError
+        If `base_unit_freq` is not a calendar frequency or is a business one.
     
     Attributes
     ----------
@@ -209,6 +221,10 @@ class _Frame(pd.PeriodIndex):
         else:
             _freq = kwargs['freq']
 
+        if not _is_supported_freq(_freq):
+            raise UnacceptablePeriodError('Base unit frequency {!r} is not '
+                                          'supported'.format(_freq))
+
         # if _is_iterable(_data):
         #     frame = super(_Frame, cls).__new__(cls, data=_data)
         # else:
-- 
2.43.0


From 9520b77af8c91a188f7d376ddb0c6fdf0445ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 13/15] fix: accept any iterable as the layout (P07)

A remembering pattern, an iterator or another iterable which has no len() or
cannot be indexed by 0 raised TypeError or KeyError as the layout although the
layout is documented to be any iterable of labels.
---
 timeboard/timeboard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index ee978fe..7de25ec 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -173,7 +173,8 @@ class Timeboard(object):
         if isinstance(layout, Organizer):
             org = layout
         elif is_iterable(layout):
-            if len(layout) == 1 and isinstance(layout[0], Organizer):
+            if (isinstance(layout, (list, tuple)) and len(layout) == 1
+                    and isinstance(layout[0], Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
-- 
2.43.0


From 7b11e3b48b26d587c18e01609caf3396a4892008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 14/15] fix: keep the labels as they are given: pandas turned
 dates into timestamps

---
 timeboard/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index e35198a..ff0d485 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -667,7 +667,8 @@ class _Timeline(object):
             wsband_index = nonzero(self._ws_compound_mask)[0]
             self._wsband = pd.Series(
                 index = wsband_index,
-                data = self._ws_labels[wsband_index])
+                data = self._ws_labels[wsband_index],
+                dtype = object)
             self._frameband = pd.Series(
                 index=frame,
                 data=_masked_counter(self._ws_compound_mask))
@@ -1143,7 +1144,8 @@ class _Timeline(object):
                 'start': start_times,
                 'end': end_times,
                 'duration': durations,
-                'label': np.array(self.labels.iloc[first_ws:last_ws+1]),
+                'label': pd.Series(np.array(self.labels.iloc[first_ws:last_ws+1]),
+                                   dtype=object),
                 }
         return pd.DataFrame(data=data,
                             columns=['loc', 'ws_ref', 'start',
-- 
2.43.0


From b59abc01f4b19201e5bdbc155954c92b170c5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 15/15] fix: extend_weekends put the day off onto a weekend day
 if all weekdays of the week were holidays

---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 200cdf1..3ca6600 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -144,7 +144,7 @@ def extend_weekends(amendments, how='nearest', label=None, weekend=None):
                 first_step = len(weekend) - loc_in_wend
                 step = 1
         new_day = holiday + datetime.timedelta(days=first_step)
-        while new_day in amendments:
+        while new_day in amendments or new_day.weekday() in weekend:
             new_day += datetime.timedelta(days=step)
         amendments[new_day] = _label
 
-- 
2.43.0

