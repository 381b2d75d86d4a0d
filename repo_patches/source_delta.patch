From 81c3ef481e6a0ca9950d3321bf4f7b861d999270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:20 +0000
Subject: [PATCH 01/33] fix: reject impossible cardinal directions and zero
 denominators in visibility groups

---
 aeromet_py/utils/metar_regexp.py | 6 +++---
 aeromet_py/utils/taf_regexp.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..e1d320d 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..e58cd94 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,9 +22,9 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^(?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK)$"
     )
-- 
2.43.0


From b81d6ddf13b33c30b8a6694357a910eebe165346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 02/33] fix: do not fail on a visibility in kilometers without
 an integer part

---
 aeromet_py/reports/models/metar/visibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..bd6d269 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -138,7 +138,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                 if _units == "SM":
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
-                if _units == "KM":
+                if _units == "KM" and _integer:
                     _in_meters = int(_integer) * 1000
                     self._visibility = Distance("{:04d}".format(_in_meters))
 
-- 
2.43.0


From 83c68a88e2b2b146c15463e6313681e6aa991c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 03/33] fix: reject hour 24 in the time group of a report

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e1d320d..5a7f6ef 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -6,7 +6,7 @@ class MetarRegExp:
 
     TIME = (
         r"^(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-4])"
+        r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<min>[0-5]\d)Z$"
     )
 
-- 
2.43.0


From 0e8e4da25ad02853d68e18ccccdcb6c3e76be2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 04/33] fix: clouds without height don't make the ceiling fail

---
 aeromet_py/reports/models/base/cloud.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..33da4b1 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -204,6 +204,9 @@ class CloudList(GroupList[Cloud]):
         for group in self._list:
             _oktas: str = group.oktas
             _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            if _oktas not in ["5-7", "8"] or _height is None:
+                continue
+
+            if _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From 3a2d94f3715aeb9486ca2cb2b0dcfcb167ae5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 05/33] fix: compare the cloud cover by value in
 should_be_cavok

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From 51163e9cf4cd1a3f90ba8d751c764ab642b7fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 06/33] fix: flight rules are VFR for any visibility of 20 km
 or more

---
 aeromet_py/reports/models/base/flight_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..d3a4e59 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -10,7 +10,7 @@ FLIGHT_RULES: Dict[str, List[float]] = {
     "LIFR": [150.0, 1600.0],
     "IFR": [300.0, 5000.0],
     "MVFR": [900.0, 8000.0],
-    "VFR": [40000.0, 20000.0],
+    "VFR": [float("inf"), float("inf")],
 }
 
 
-- 
2.43.0


From fc3ae75189c11f71a4560967b5eaf7a64621324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 07/33] fix: anchor every alternative of the TAF visibility

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e58cd94..2ce508b 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,12 +21,12 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-- 
2.43.0


From d63f535125785f2af38dc46c7f680fd521994756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 08/33] fix: anchor the TAF temperature expression

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 2ce508b..52122a6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -30,11 +30,11 @@ class TafRegExp:
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-- 
2.43.0


From bc1c687fef5cd4a3ba951e5656eff7ec850a51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 09/33] fix: anchor every alternative of the change indicators

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/taf_regexp.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 5a7f6ef..e60be20 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 52122a6..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -38,9 +38,9 @@ class TafRegExp:
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From e9ec6cf0be1acc5d42ad9fd6542e7d4ff90c76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 10/33] fix: do not handle empty strings as groups of the
 report

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
-- 
2.43.0


From 5ed4e8651698f823abf45966a73fc18170d07144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:47 +0000
Subject: [PATCH 11/33] fix: iterating a GroupList does not share its position
 among iterators

---
 aeromet_py/reports/models/base/group.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..b60504a 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -53,24 +53,14 @@ class GroupList(Generic[G]):
     report from land stations."""
 
     def __init__(self, max_items: int) -> None:
-        self._n = 0
         self._max_items = max_items
         self._list: List[G] = []
 
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
-
-    def __next__(self) -> G:
-        if self._n >= len(self._list):
-            self._n = 0
-            raise StopIteration
-
-        index = self._n
-        self._n += 1
-        return self._list[index]
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __getitem__(self, index: int) -> G:
         if index >= self._max_items:
-- 
2.43.0


From 427eb7b9e02c9537d194cd1d119b784c40e69f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 12/33] fix: do not print while parsing the weather trends

---
 aeromet_py/reports/models/metar/weather_trend.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..47f3984 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,8 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
-
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
     def _parse(self) -> None:
-- 
2.43.0


From 6bfbe952b2e217ba3ac6aa6a90cbab5550343659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:24 +0000
Subject: [PATCH 13/33] fix: scale the inches of mercury of a pressure without
 units

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From fd51e329d428321384e366312b3f8857f9786c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 14/33] fix: resolve the days of TAF periods and temperatures
 beyond the next day

---
 aeromet_py/reports/models/taf/temperature.py |  7 +++----
 aeromet_py/reports/models/taf/valid.py       | 18 +++++++-----------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..4be2b15 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,10 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..3f84f93 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -44,17 +44,13 @@ class Valid(Group):
             _tlday: int = int(match.group("tlday"))
             _tlhour: int = int(match.group("tlhour"))
 
-            _from: datetime
-            _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from: datetime = time
+            while _fmday != _from.day:
+                _from = _from + timedelta(days=1)
+
+            _until: datetime = _from
+            while _tlday != _until.day:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From e536187d2719bb157db5f84d8fdd4e074e5a999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 15/33] fix: take 0VC as overcast

---
 aeromet_py/reports/models/base/cloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 33da4b1..0c9d47f 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -17,6 +17,7 @@ SKY_COVER: Dict[str, str] = {
     "SCT": "scattered",
     "BKN": "broken",
     "OVC": "overcast",
+    "0VC": "overcast",
     "///": "undefined",
     "VV": "indefinite ceiling",
 }
@@ -51,7 +52,7 @@ def _set_oktas(code: str) -> str:
     if code == "BKN":
         return "5-7"
 
-    if code == "OVC":
+    if code in ["OVC", "0VC"]:
         return "8"
 
     if code in ["NSC", "NCD"]:
-- 
2.43.0


From 577e37a66f237b7cfb3229d01e401e24f6069e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:32 +0000
Subject: [PATCH 16/33] fix: hour 24 of a trend period is the midnight

---
 aeromet_py/reports/models/metar/trend_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..130d075 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -40,7 +40,7 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From 3a8e801d92f9347b6794a12fcb653341171e84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 17/33] fix: do not fail on change periods with an unknown
 indicator

---
 aeromet_py/reports/models/metar/trend_indicator.py |  3 ++-
 aeromet_py/reports/models/taf/change_forecast.py   | 10 +++++-----
 aeromet_py/reports/models/taf/change_indicator.py  |  3 +++
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index 130d075..a8cc6c6 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,8 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        if self._code is not None:
+            self._code += f" {match.string}"
 
         # The middle time between self._init_period and self._end_period
         middle_time: datetime = self._init_period.time + timedelta(hours=1)
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..2d29a13 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -79,20 +79,20 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
         if len(self._list) > 0:
-            if new_change.code.startswith("FM") or new_change.code.startswith("BECMG"):
+            new_code: str = new_change.change_indicator.code or ""
+            if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if last_code.startswith("PROB") or last_code.startswith("TEMPO"):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..b922e4d 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,6 +44,9 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
+        if self._code is None:
+            return
+
         if self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
-- 
2.43.0


From 4f747aea74f4e007182d0da38061e369b8a80c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 18/33] fix: groups that can't be represented are unparsed
 groups

---
 aeromet_py/reports/models/base/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..ccdbcc8 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -45,7 +45,12 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
 
             if match:
                 index += counter
-                group_handler.handler(match)
+                try:
+                    group_handler.handler(match)
+                except (RangeError, ValueError):
+                    # The group can't be represented, so it stays as unparsed
+                    break
+
                 unparsed_groups.remove(group)
                 break
 
-- 
2.43.0


From 7f41356f9b73a1251cebef2edc292ea2f8be23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 19/33] fix: change periods beyond the supported number are
 unparsed groups

---
 aeromet_py/reports/metar.py | 8 +++++++-
 aeromet_py/reports/taf.py   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..a1d8d4f 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -9,6 +9,7 @@ from .models import (
     GroupList,
     ModifierMixin,
     ParserError,
+    RangeError,
     Report,
     Time,
     parse_section,
@@ -183,7 +184,12 @@ class Metar(
 
     def _handle_weather_trend(self, code: str) -> None:
         wt: ChangePeriod = ChangePeriod(code, self._time.time)
-        self._weather_trends.add(wt)
+
+        try:
+            self._weather_trends.add(wt)
+        except RangeError:
+            self._unparsed_groups += wt.code.split()
+            return
 
         self._concatenate_string(wt)
 
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..8542397 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -14,6 +14,7 @@ from .models import (
     GroupHandler,
     ModifierMixin,
     ParserError,
+    RangeError,
     Report,
     Time,
     parse_section,
@@ -138,7 +139,12 @@ class Taf(
 
     def _handle_change_forecasted(self, code: str) -> None:
         cf: ChangeForecasted = ChangeForecasted(code, self._valid)
-        self._changes_forecasted.add(cf)
+
+        try:
+            self._changes_forecasted.add(cf)
+        except RangeError:
+            self._unparsed_groups += cf.code.split()
+            return
 
         self._concatenate_string(cf)
 
-- 
2.43.0


From a6099b761218baed7bacb86b7018784523f4c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 20/33] fix: keep every remark section of the report

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1d8d4f..2b71a9b 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -284,11 +284,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From a2f62745778add2a9d0edd15fd7ceb87f7549d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:45 +0000
Subject: [PATCH 21/33] fix: a vertical bar in the report does not split it in
 sections

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..fa9e6bd 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            "\n" + kw.lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From aa22b5c8cda77d8a265effc67676278115098fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 22/33] fix: default time and valid period of a TAF follow the
 given year, month and time

---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 8542397..4769cc9 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -57,6 +57,8 @@ class Taf(
 
         self._handle_sections()
 
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
@@ -94,6 +96,7 @@ class Taf(
 
     def _handle_time(self, match: re.Match) -> None:
         self._time = Time.from_metar(match, self._year, self._month)
+        self._valid = Valid.from_taf(None, self._time.time)
 
         self._concatenate_string(self._time)
 
-- 
2.43.0


From ba1ff40ba16318ff706e483866e4757db1b89b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 23/33] fix: include the change indicators and the TAF flight
 rules in the dictionaries

---
 aeromet_py/reports/models/metar/weather_trend.py | 5 +++++
 aeromet_py/reports/models/taf/change_forecast.py | 7 ++++++-
 aeromet_py/reports/taf.py                        | 1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 47f3984..d238304 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -116,6 +116,11 @@ class ChangePeriod(Forecast):
         unparsed: List[str] = parse_section(handlers, sanitized_code)
         self._unparsed_groups += unparsed
 
+    def as_dict(self) -> Dict[str, Any]:
+        d = super().as_dict()
+        d.update({"trend_indicator": self.trend_indicator.as_dict()})
+        return d
+
 
 class MetarWeatherTrends(GroupList[ChangePeriod]):
     """Basic structure for weather trends sections in METAR."""
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 2d29a13..d52a486 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -1,6 +1,6 @@
 import re
 
-from typing import List
+from typing import Any, Dict, List
 
 from ....utils import (
     MetarRegExp,
@@ -66,6 +66,11 @@ class ChangeForecasted(Forecast):
         unparsed: List[str] = parse_section(handlers, sanitized_code)
         self._unparsed_groups += unparsed
 
+    def as_dict(self) -> Dict[str, Any]:
+        d = super().as_dict()
+        d.update({"change_indicator": self.change_indicator.as_dict()})
+        return d
+
 
 class TafChangesForecasted(GroupList[ChangeForecasted]):
     """Basic structure for weather change periods in TAF."""
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 4769cc9..f91f9d3 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -232,6 +232,7 @@ class Taf(
                 "clouds": self.clouds.as_dict(),
                 "max_temperatures": self.max_temperatures.as_dict(),
                 "min_temperatures": self.min_temperatures.as_dict(),
+                "flight_rules": self.flight_rules,
                 "changes_forecasted": self.changes_forecasted.as_dict(),
             }
         )
-- 
2.43.0


From 073d6768bc08b16c38dca02019f6ad6022ed8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 24/33] fix: longitude and country of CYYW

---
 aeromet_py/database/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/database/stations.py b/aeromet_py/database/stations.py
index 0fe5bb7..76cbca5 100755
--- a/aeromet_py/database/stations.py
+++ b/aeromet_py/database/stations.py
@@ -4366,7 +4366,7 @@ STATIONS: List[List[str]] = [
     ["NU WAGER BAY", "CXWB", "None", "None", "65.53N", "089.27W", "18", "CA"],
     ["NU WHALE COVE AIRPO", "CYXN", "YXN", "None", "62.13N", "092.35W", "20", "CA"],
     ["NU IQALUIT CLIMATE", "CXFB", "None", "None", "63.45N", "068.33W", "34", "CA"],
-    ["ON ARMSTRONG (MARS)", "CYYW", "None", "71841", "50.18N", ".88.54W", "351", "CN"],
+    ["ON ARMSTRONG (MARS)", "CYYW", "None", "71841", "50.18N", "088.54W", "351", "CA"],
     ["ON ATIKOKAN (AUT)", "CWCH", "WCH", "71747", "48.45N", "091.37W", "424", "CA"],
     ["ON ATIKOKAN", "None", "WIB", "71748", "48.45N", "091.36W", "393", "CA"],
     ["ON ATTAWAPISKAT", "CYAT", "None", "None", "52.56N", "082.26W", "9", "CA"],
-- 
2.43.0


From 4603fab482a9f3391c7a305cfd4c04844d9ce7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:06 +0000
Subject: [PATCH 25/33] fix: stations whose country code is not in the table of
 countries

---
 aeromet_py/database/stations.py | 50 ++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/aeromet_py/database/stations.py b/aeromet_py/database/stations.py
index 76cbca5..d3803dc 100755
--- a/aeromet_py/database/stations.py
+++ b/aeromet_py/database/stations.py
@@ -4917,8 +4917,8 @@ STATIONS: List[List[str]] = [
     ["VIGIE/ST LUCIA", "TLPC", "None", "78947", "14.01N", "061.00W", "2", "LC"],
     ["HEWANORRA INTL", "TLPL", "None", "78948", "13.45N", "060.57W", "3", "LC"],
     ["QUEEN BEATRIX", "TNCA", "None", "78982", "12.30N", "070.00W", "18", "AW"],
-    ["BONAIRE/FLAMINGO", "TNCB", "None", "78990", "12.08N", "068.17W", "6", "AN"],
-    ["FDR ARPT/ORANJES", "TNCE", "None", "78873", "17.28N", "062.58W", "39", "AN"],
+    ["BONAIRE/FLAMINGO", "TNCB", "None", "78990", "12.08N", "068.17W", "6", "BQ"],
+    ["FDR ARPT/ORANJES", "TNCE", "None", "78873", "17.28N", "062.58W", "39", "BQ"],
     ["BLACKBURNE/PLYMO", "TRPM", "None", "None", "16.45N", "062.10W", "12", "AG"],
     ["J F MITCHELL ARP", "TVSB", "None", "None", "12.59N", "061.16W", "4", "VC"],
     ["CANOUAN AIRPORT", "TVSC", "None", "None", "12.42N", "061.21W", "4", "VC"],
@@ -6070,10 +6070,10 @@ STATIONS: List[List[str]] = [
     ["BILLUND AIRPORT", "EKBI", "None", "06104", "55.43N", "009.09E", "66", "DK"],
     ["COPENHAGEN/KASTR", "EKCH", "None", "06180", "55.37N", "012.40E", "5", "DK"],
     ["ESBJERG", "EKEB", "None", "06080", "55.31N", "008.33E", "29", "DK"],
-    ["GORM(OIL)", "EKGC", "None", "None", "55.35N", "004.46E", "0", "DN"],
+    ["GORM(OIL)", "EKGC", "None", "None", "55.35N", "004.46E", "0", "DK"],
     ["TYRA OEST", "EKGF", "None", "06022", "55.43N", "004.48E", "43", "DK"],
-    ["HALFDAN(OIL)", "EKHA", "None", "None", "55.32N", "005.00E", "0", "DN"],
-    ["HARALD(OIL)", "EKHD", "None", "None", "56.20N", "004.16E", "0", "DN"],
+    ["HALFDAN(OIL)", "EKHA", "None", "None", "55.32N", "005.00E", "0", "DK"],
+    ["HARALD(OIL)", "EKHD", "None", "None", "56.20N", "004.16E", "0", "DK"],
     ["HORNS REV B HELI", "EKHN", "None", "None", "55.36N", "007.37E", "50", "DK"],
     ["LINDTORP AIRPORT", "EKHO", "None", "06054", "56.23N", "008.26E", "15", "DK"],
     ["HORNS REV B HELI", "EKHR", "None", "None", "55.31N", "007.53E", "50", "DK"],
@@ -6089,7 +6089,7 @@ STATIONS: List[List[str]] = [
     ["SKRYDSTRUP(DAN-A", "EKSP", "None", "06110", "55.13N", "009.16E", "40", "DK"],
     ["SYDFYNS/TASINGE", "EKST", "None", "06124", "55.01N", "010.34E", "6", "DK"],
     ["SKIVE AIRPORT", "EKSV", "None", "06062", "56.32N", "009.10E", "21", "DK"],
-    ["TYRA(OIL)", "EKTE", "None", "None", "55.43N", "004.48E", "0", "DN"],
+    ["TYRA(OIL)", "EKTE", "None", "None", "55.43N", "004.48E", "0", "DK"],
     ["THISTED ARPT (AU", "EKTS", "None", "06024", "57.04N", "008.41E", "7", "DK"],
     ["VANDEL (DAN-AFB)", "EKVA", "None", "06100", "55.43N", "009.13E", "74", "DK"],
     ["VAMDRUP (AUT/MAN", "EKVD", "None", "06108", "55.25N", "009.19E", "45", "DK"],
@@ -6842,22 +6842,22 @@ STATIONS: List[List[str]] = [
     ["FUNCHAL", "None", "None", "08522", "32.38N", "016.54W", "56", "PT"],
     ["LISBON/GAGO C", "None", "None", "08579", "38.46N", "009.08W", "105", "PT"],
     ["FUNCHAL/MADEIRA", "LPFU", "None", "08521", "32.40N", "016.46W", "55", "PT"],
-    ["BANJA LUKA", "LQBK", "None", "None", "44.56N", "017.18E", "122", "CS"],
-    ["SARAJEVO/BUTMIR", "LQSA", "None", "13353", "43.49N", "018.19E", "511", "CS"],
-    ["TUZLA", "LQTZ", "None", "None", "44.28N", "018.44E", "306", "CS"],
-    ["BELGRADE/SURCIN", "LYBE", "None", "13272", "44.49N", "020.17E", "99", "CS"],
-    ["BATAJNICA", "LYBT", "None", "None", "44.56N", "020.15E", "80", "CS"],
-    ["KRALJEVO", "LYKV", "None", "None", "43.49N", "020.35E", "209", "CS"],
-    ["MOSTAR", "LYMO", "None", "13348", "43.21N", "017.48E", "108", "CS"],
-    ["NIS", "LYNI", "None", "13388", "43.19N", "021.53E", "202", "CS"],
-    ["PODGORICA(TITOGR", "LYPG", "None", "None", "42.22N", "019.15E", "43", "CS"],
-    ["UZICE-PONIKVE", "LYUZ", "None", "None", "43.54N", "019.42E", "904", "CS"],
+    ["BANJA LUKA", "LQBK", "None", "None", "44.56N", "017.18E", "122", "BA"],
+    ["SARAJEVO/BUTMIR", "LQSA", "None", "13353", "43.49N", "018.19E", "511", "BA"],
+    ["TUZLA", "LQTZ", "None", "None", "44.28N", "018.44E", "306", "BA"],
+    ["BELGRADE/SURCIN", "LYBE", "None", "13272", "44.49N", "020.17E", "99", "RS"],
+    ["BATAJNICA", "LYBT", "None", "None", "44.56N", "020.15E", "80", "RS"],
+    ["KRALJEVO", "LYKV", "None", "None", "43.49N", "020.35E", "209", "RS"],
+    ["MOSTAR", "LYMO", "None", "13348", "43.21N", "017.48E", "108", "BA"],
+    ["NIS", "LYNI", "None", "13388", "43.19N", "021.53E", "202", "RS"],
+    ["PODGORICA(TITOGR", "LYPG", "None", "None", "42.22N", "019.15E", "43", "ME"],
+    ["UZICE-PONIKVE", "LYUZ", "None", "None", "43.54N", "019.42E", "904", "RS"],
     ["PRISHTINA", "BKPR", "None", "13481", "42.35N", "021.02E", "576", "CS"],
-    ["TITOGRAD/GOLUBOV", "LYTI", "None", "13462", "42.22N", "019.15E", "33", "CS"],
-    ["TIVAT", "LYTV", "None", "13457", "42.23N", "018.43E", "5", "CS"],
-    ["VRSAC", "LYVR", "None", "13183", "45.08N", "021.19E", "85", "CS"],
-    ["OHRID", "LYOH", "None", "None", "41.07N", "020.48E", "761", "CS"],
-    ["BEOGRAD KOSUTNJA", "None", "None", "13275", "44.47N", "020.32E", "243", "CS"],
+    ["TITOGRAD/GOLUBOV", "LYTI", "None", "13462", "42.22N", "019.15E", "33", "ME"],
+    ["TIVAT", "LYTV", "None", "13457", "42.23N", "018.43E", "5", "ME"],
+    ["VRSAC", "LYVR", "None", "13183", "45.08N", "021.19E", "85", "RS"],
+    ["OHRID", "LYOH", "None", "None", "41.07N", "020.48E", "761", "MK"],
+    ["BEOGRAD KOSUTNJA", "None", "None", "13275", "44.47N", "020.32E", "243", "RS"],
     ["PRISHTINA", "LYPR", "None", "None", "42.35N", "021.02E", "546", "CS"],
     ["MOSTAR AIRPORT", "LQMO", "None", "None", "43.17N", "017.50E", "48", "BA"],
     ["ARAD", "LRAR", "None", "15200", "46.11N", "021.16E", "118", "RO"],
@@ -9139,10 +9139,10 @@ STATIONS: List[List[str]] = [
     ["PENANG/BAYAN LEP", "WMKP", "None", "48601", "05.17N", "100.16E", "4", "MY"],
     ["PANGKOR ISLAND", "WMPA", "None", "None", "04.15N", "100.33E", "1", "MY"],
     ["KUALA LUMPUR SA", "WMSA", "None", "None", "03.08N", "101.33E", "27", "MY"],
-    ["DILLI ARPT/TIMOR", "WPDL", "None", "97390", "08.34S", "125.34E", "6", "TP"],
-    ["BAUCAU/TIMOR ISL", "WPEC", "None", "97395", "08.30S", "126.24E", "522", "TP"],
-    ["OE-CUSSE/TIMOR I", "WPOC", "None", "97385", "09.11S", "124.22E", "5", "TP"],
-    ["VIQUEQUE/TIMOR I", "WPVQ", "None", "97394", "08.52S", "126.22E", "47", "TP"],
+    ["DILLI ARPT/TIMOR", "WPDL", "None", "97390", "08.34S", "125.34E", "6", "TL"],
+    ["BAUCAU/TIMOR ISL", "WPEC", "None", "97395", "08.30S", "126.24E", "522", "TL"],
+    ["OE-CUSSE/TIMOR I", "WPOC", "None", "97385", "09.11S", "124.22E", "5", "TL"],
+    ["VIQUEQUE/TIMOR I", "WPVQ", "None", "97394", "08.52S", "126.22E", "47", "TL"],
     ["PAYA LEBAR", "WSAP", "None", "48694", "01.22N", "103.55E", "32", "SG"],
     ["SINGAPORE/TENGAH", "WSAT", "None", "48687", "01.22N", "103.43E", "12", "SG"],
     ["SINGAPORE/SELETA", "WSSL", "None", "48692", "01.25N", "103.52E", "14", "SG"],
-- 
2.43.0


From 7c84e619aa3bea880cf4e124846f787824b7144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:38 +0000
Subject: [PATCH 26/33] fix: stations whose code starts with FM in amended or
 corrected TAFs

---
 aeromet_py/reports/taf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index f91f9d3..bad3354 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -204,10 +204,17 @@ class Taf(
     def _handle_sections(self) -> None:
         keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
-        if sanitized_code.startswith("TAF"):
-            sanitized_code = sanitized_code.replace("TAF ", "TAF_")
-        sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
-        sections[0] = sections[0].replace("TAF_", "TAF ")
+
+        # The code of the station could start as a keyword, e.g. FMMI
+        header: str = ""
+        for word in ["TAF ", "AMD ", "COR "]:
+            if sanitized_code.startswith(header + word):
+                header += word
+
+        sections: List[str] = split_sentence(
+            sanitized_code[len(header) :], keywords, space="left"
+        )
+        sections[0] = header + sections[0]
 
         self._body = sections[0]
         if len(sections) > 1:
-- 
2.43.0


From cc44360c2ad579d1749a475842d6363e607b3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:35 +0000
Subject: [PATCH 27/33] fix: join only whole words in the visibility, windshear
 and probability groups

---
 aeromet_py/utils/metar_regexp.py |  2 +-
 aeromet_py/utils/parser.py       | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e60be20..f2b527e 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -74,7 +74,7 @@ class MetarRegExp:
         r"(?P<other>PO|SQ|FC|SS|DS)?$"
     )
 
-    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(?P<name>\d{2}[RCL]?))$"
+    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(WY)?(?P<name>\d{2}[RCL]?))$"
 
     SEA_STATE = (
         r"^W(?P<sign>M)?"
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..08e1bd7 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,13 +14,13 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"\s(?P<int>\d{1,2})\s(?P<frac>\d/\dSM)(?!\S)"
 
     for _ in range(3):
         match = re.search(regex, report)
 
         try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
+            report = re.sub(regex, " {}_{}".format(*match.groups()), report, count=1)
         except AttributeError:
             break
 
@@ -37,14 +37,14 @@ def sanitize_windshear(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    report = re.sub(r"WS\sALL\sRWY", "WS_ALL_RWY", report)
+    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"WS\sR(WY)?(?P<name>\d{2}[CLR]?)"
+    fmt = r"(?<!\S)WS\s(?P<name>R(WY)?\d{2}[CLR]?)(?!\S)"
     pattern = re.compile(fmt)
     for _ in range(3):
         match = pattern.search(report)
         if match:
-            report = re.sub(fmt, "WS_R{}".format(match.group("name")), report, count=1)
+            report = re.sub(fmt, "WS_{}".format(match.group("name")), report, count=1)
 
     return report
 
@@ -59,7 +59,7 @@ def sanitize_change_indicator(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
+    fmt = r"(?<!\S)PROB(?P<percent>[34]0)\sTEMPO(?!\S)"
     pattern = re.compile(fmt)
     for _ in range(5):
         match = pattern.search(report)
-- 
2.43.0


From fd7e1f4423514d3c326e602d91259bdfc6888589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:35 +0000
Subject: [PATCH 28/33] fix: unparsed groups as they are written in the report

---
 aeromet_py/reports/metar.py                   | 10 ++++++++--
 .../reports/models/metar/weather_trend.py     |  4 ++--
 .../reports/models/taf/change_forecast.py     |  3 ++-
 aeromet_py/reports/taf.py                     |  3 ++-
 aeromet_py/utils/__init__.py                  |  7 ++++++-
 aeromet_py/utils/parser.py                    | 20 +++++++++++++++++++
 6 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index 2b71a9b..f62bcbc 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -2,7 +2,13 @@ import re
 
 from typing import Any, Dict, List, Optional
 
-from ..utils import MetarRegExp, sanitize_visibility, sanitize_windshear, split_sentence
+from ..utils import (
+    MetarRegExp,
+    restore_groups,
+    sanitize_visibility,
+    sanitize_windshear,
+    split_sentence,
+)
 from .models import (
     FlightRulesMixin,
     GroupHandler,
@@ -237,7 +243,7 @@ class Metar(
         sanitized_body = sanitize_windshear(sanitized_body)
 
         unparsed: List[str] = parse_section(handlers, sanitized_body)
-        self._unparsed_groups += unparsed
+        self._unparsed_groups += restore_groups(unparsed, self.body)
 
     def _parse_weather_trend(self) -> None:
         """Parse the weather trend section.
diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index d238304..291310e 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -3,7 +3,7 @@ import re
 from datetime import datetime
 from typing import Any, Dict, List, Optional
 
-from ....utils import MetarRegExp, sanitize_visibility
+from ....utils import MetarRegExp, restore_groups, sanitize_visibility
 from ..base import (
     FlightRulesMixin,
     Group,
@@ -114,7 +114,7 @@ class ChangePeriod(Forecast):
 
         sanitized_code = sanitize_visibility(self._code)
         unparsed: List[str] = parse_section(handlers, sanitized_code)
-        self._unparsed_groups += unparsed
+        self._unparsed_groups += restore_groups(unparsed, self._code)
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index d52a486..c21eec8 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -5,6 +5,7 @@ from typing import Any, Dict, List
 from ....utils import (
     MetarRegExp,
     TafRegExp,
+    restore_groups,
     sanitize_change_indicator,
     sanitize_visibility,
 )
@@ -64,7 +65,7 @@ class ChangeForecasted(Forecast):
         sanitized_code = sanitize_change_indicator(self._code)
         sanitized_code = sanitize_visibility(sanitized_code)
         unparsed: List[str] = parse_section(handlers, sanitized_code)
-        self._unparsed_groups += unparsed
+        self._unparsed_groups += restore_groups(unparsed, self._code)
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index bad3354..1607d14 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -5,6 +5,7 @@ from typing import Any, Dict, List, Optional
 from ..utils import (
     MetarRegExp,
     TafRegExp,
+    restore_groups,
     sanitize_change_indicator,
     sanitize_visibility,
     split_sentence,
@@ -183,7 +184,7 @@ class Taf(
 
         sanitized_body: str = sanitize_visibility(self._body)
         unparsed: List[str] = parse_section(handlers, sanitized_body)
-        self._unparsed_groups += unparsed
+        self._unparsed_groups += restore_groups(unparsed, self.raw_code)
 
     def _parse_changes_forecasted(self) -> None:
         for change in self._changes_codes:
diff --git a/aeromet_py/utils/__init__.py b/aeromet_py/utils/__init__.py
index fd949f1..7ff78ea 100755
--- a/aeromet_py/utils/__init__.py
+++ b/aeromet_py/utils/__init__.py
@@ -1,5 +1,10 @@
 from .conversions import Conversions
 from .metar_regexp import MetarRegExp
-from .parser import sanitize_change_indicator, sanitize_visibility, sanitize_windshear
+from .parser import (
+    restore_groups,
+    sanitize_change_indicator,
+    sanitize_visibility,
+    sanitize_windshear,
+)
 from .split import split_sentence
 from .taf_regexp import TafRegExp
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index 08e1bd7..33483c8 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -71,3 +71,23 @@ def sanitize_change_indicator(report: str) -> str:
             break
 
     return report
+
+
+def restore_groups(groups: List[str], report: str) -> List[str]:
+    """Restore the groups joined by the functions above that
+    don't get match with any regular expression.
+
+    Args:
+        groups (List[str]): the groups to restore.
+        report (str): the report or section before of being sanitized.
+
+    Returns:
+        List[str]: the groups as they are in the report.
+    """
+    words = report.split()
+    restored: List[str] = []
+
+    for group in groups:
+        restored += [group] if group in words else group.split("_")
+
+    return restored
-- 
2.43.0


From 30e2e17a765f8d071cf73d43291fce3a71cf5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:49 +0000
Subject: [PATCH 29/33] fix: order of the unparsed groups of changes beyond the
 supported number

---
 aeromet_py/reports/metar.py | 4 +---
 aeromet_py/reports/taf.py   | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index f62bcbc..5185923 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -197,6 +197,7 @@ class Metar(
             self._unparsed_groups += wt.code.split()
             return
 
+        self._unparsed_groups += wt.unparsed_groups
         self._concatenate_string(wt)
 
     @property
@@ -263,9 +264,6 @@ class Metar(
             if trend != "":
                 self._handle_weather_trend(trend)
 
-        for wt in self._weather_trends:
-            self._unparsed_groups += wt.unparsed_groups
-
         if self.unparsed_groups and self._truncate:
             raise ParserError(
                 "failed while processing {} from: {}".format(
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 1607d14..d5b85e4 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -150,6 +150,7 @@ class Taf(
             self._unparsed_groups += cf.code.split()
             return
 
+        self._unparsed_groups += cf.unparsed_groups
         self._concatenate_string(cf)
 
     @property
@@ -191,9 +192,6 @@ class Taf(
             if change != "":
                 self._handle_change_forecasted(change)
 
-        for cp in self._changes_forecasted:
-            self._unparsed_groups += cp.unparsed_groups
-
         if self.unparsed_groups and self._truncate:
             raise ParserError(
                 "failed while processing {} from: {}".format(
-- 
2.43.0


From 1d9376484680c22c2a8e06d929aa0d8d642b3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:42 +0000
Subject: [PATCH 30/33] fix: a value of zero is described with its unit, like
 any other

---
 aeromet_py/reports/models/base/distance.py    | 2 +-
 aeromet_py/reports/models/base/pressure.py    | 2 +-
 aeromet_py/reports/models/base/temperature.py | 2 +-
 aeromet_py/reports/models/base/wind.py        | 7 ++++---
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..c3c92aa 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,8 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        if self._direction.value is not None:
+            direction = f"({self._direction})"
 
         s: str = "{} {} {}".format(
             cardinal,
-- 
2.43.0


From c57c12c43bfbfbc11dd56fde4ad48ac4f2e2c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:42 +0000
Subject: [PATCH 31/33] fix: a cloud layer at 0 feet is not described as of
 undefined height

---
 aeromet_py/reports/models/base/cloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 0c9d47f..4060474 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -120,14 +120,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
-- 
2.43.0


From a5e7a30e30467383d8ce29e72d9a17705f547c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:42 +0000
Subject: [PATCH 32/33] fix: a sea temperature of 0 degrees is not described as
 no temperature

---
 aeromet_py/reports/models/metar/sea_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
-- 
2.43.0


From 8b0021c99b338f1e3f8a3c84a69d6ae3d4a174a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:42 +0000
Subject: [PATCH 33/33] fix: a dew point of 0 degrees without temperature is
 described like any other

---
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..1a69ab2 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
-- 
2.43.0

