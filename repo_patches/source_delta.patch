From 8632341421332e16649935d0881fd5b285794b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 01/25] fix: an invalid VOR/NDB frequency must not terminate
 the process

field_034 called exit(), so one bad record ended the whole program;
raise ValueError as the other decoders do.
---
 src/arinc424/decoder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..981bcf8 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -492,9 +492,7 @@ def field_034(value, record):
   value = value.strip()
   if len(value) > 0:
     if value.isnumeric() is False:
-      print(f'Unsupported VOR/NDB Frequency: "{value}"')
-      print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      raise ValueError("Invalid VOR/NDB Frequency:", value)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From f3cf2c7ff4ae186b5b191feefbd95caf0cf64f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 02/25] fix: read columns from the trimmed record

validate() accepts a record with leading whitespace, but the section
code and the fields were taken from the untrimmed line, so every column
was shifted.
---
 src/arinc424/record.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..ef2ef68 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -123,8 +123,8 @@ class Record():
     # remove any surrounding whitespace
     self.raw = line.strip()
 
-    identifier_1 = line[4:6]
-    identifier_2 = line[4] + line[12]
+    identifier_1 = self.raw[4:6]
+    identifier_2 = self.raw[4] + self.raw[12]
 
     if identifier_1 in records:
       self.ident = identifier_1
@@ -157,7 +157,7 @@ class Record():
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
     # read the record into a record object based on identifier
-    self.fields = self.definition.read(line, self.primary())
+    self.fields = self.definition.read(self.raw, self.primary())
     if not self.fields:
       return False
 
-- 
2.43.0


From f8df2a65cb719137305310588ea79644ee7f0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 03/25] fix: a reused Record must not keep data of the previous
 record

After a read() that was refused, or of a record without a continuation
number, fields/continuation/ident of the earlier record were still there.
---
 src/arinc424/record.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index ef2ef68..10c07ca 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -117,6 +117,9 @@ class Record():
 
   def read(self, line) -> bool:
 
+    # forget whatever this object held before
+    self.__init__()
+
     if self.validate(line) is False:
       return False
 
-- 
2.43.0


From 14e8b67769e014386c475f73003c697986dae7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 04/25] fix: refuse unsupported continuation application types
 instead of raising

Record.read() returns False for them in every other record definition.
---
 src/arinc424/definitions/EnrouteAirways.py         | 2 +-
 src/arinc424/definitions/EnrouteCommunications.py  | 2 +-
 src/arinc424/definitions/HeliportCommunications.py | 2 +-
 src/arinc424/definitions/PathPoint.py              | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index 7e31bd9..a1f6d17 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -27,7 +27,7 @@ class EnrouteAirways():
       case 'Q':
         return self.read_flight_plan1(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.1.6.1 Enroute Airways Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/EnrouteCommunications.py b/src/arinc424/definitions/EnrouteCommunications.py
index adb72cc..37ac2b7 100644
--- a/src/arinc424/definitions/EnrouteCommunications.py
+++ b/src/arinc424/definitions/EnrouteCommunications.py
@@ -25,7 +25,7 @@ class EnrouteCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('{}\n{}\n{}'.format("Unknown Application", application, line))
+        return []
 
   # 4.1.23.1 Enroute Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/HeliportCommunications.py b/src/arinc424/definitions/HeliportCommunications.py
index 791f6e5..4a414ae 100644
--- a/src/arinc424/definitions/HeliportCommunications.py
+++ b/src/arinc424/definitions/HeliportCommunications.py
@@ -25,7 +25,7 @@ class HeliportCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.2.5.1 Heliport Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/PathPoint.py b/src/arinc424/definitions/PathPoint.py
index 17ec3fc..d585d06 100644
--- a/src/arinc424/definitions/PathPoint.py
+++ b/src/arinc424/definitions/PathPoint.py
@@ -23,7 +23,7 @@ class PathPoint():
       case 'E':
         return self.read_cont(line)
       case _:
-        raise ValueError("bad path point", line[self.app_idx])
+        return []
 
   # 4.1.28.1 Path Point Primary Records
   def read_primary(self, r):
-- 
2.43.0


From 531a7465a9adb2c2be2f1f69975d68d10654e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 05/25] fix: read EU primary records with the primary layouts

The definition had no cont_idx, so a primary record was always read with
the continuation layout, and an SC record raised ValueError.
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1006ca4..2b3b523 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -5,6 +5,8 @@ import arinc424.decoder as decoder
 # 4.1.21 Enroute Airways Restriction Records (EU)
 class EnrouteAirwaysRestriction():
 
+  cont_idx = 17
+  app_idx = 15
   continuations = ['AE', 'TC', 'NR']
   name = 'Enroute Airways'
 
@@ -26,7 +28,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.primary_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
     else:
       match application:
         case 'AE':
@@ -36,7 +38,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.cont_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
 
   # 4.1.21.1 Enroute Airways Restriction Altitude Exclusion Primary Records
   #
-- 
2.43.0


From 3038b78382ef71cd86568f143d86bba1944e9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 06/25] fix: give every field of a layout its own label

json() keys fields by label, so of two fields with the same label in one
record (RA, EU, TG, ET) only the last survived.
---
 src/arinc424/definitions/Alternate.py         | 14 ++++-----
 .../definitions/EnrouteAirwaysRestriction.py  | 30 +++++++++----------
 src/arinc424/definitions/GeoReferenceTable.py |  8 ++---
 src/arinc424/definitions/PreferredRoute.py    |  8 ++---
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/arinc424/definitions/Alternate.py b/src/arinc424/definitions/Alternate.py
index bf69b02..766fc69 100644
--- a/src/arinc424/definitions/Alternate.py
+++ b/src/arinc424/definitions/Alternate.py
@@ -24,14 +24,14 @@ class Alternate():
       Field("Distance to Alternate (3)",              r[51:54],      decoder.field_251),
       Field("Alternate Type (3)",                     r[54],         decoder.field_252),
       Field("Additional Alternate Identifier Two",    r[55:65],      decoder.field_253),
-      Field("Distance to Alternate (3)",              r[67:70],      decoder.field_251),
-      Field("Alternate Type (3)",                     r[70],         decoder.field_252),
-      Field("Additional Alternate Identifier (3))",   r[71:81],      decoder.field_253),
-      Field("Distance to Alternate (4)",              r[83:86],      decoder.field_251),
-      Field("Alternate Type (4)",                     r[86],         decoder.field_252),
+      Field("Distance to Alternate (4)",              r[67:70],      decoder.field_251),
+      Field("Alternate Type (4)",                     r[70],         decoder.field_252),
+      Field("Additional Alternate Identifier (3)",    r[71:81],      decoder.field_253),
+      Field("Distance to Alternate (5)",              r[83:86],      decoder.field_251),
+      Field("Alternate Type (5)",                     r[86],         decoder.field_252),
       Field("Additional Alternate Identifier (4)",    r[87:97],      decoder.field_253),
-      Field("Distance to Alternate (5)",              r[99:102],     decoder.field_251),
-      Field("Alternate Type (5)",                     r[102],        decoder.field_252),
+      Field("Distance to Alternate (6)",              r[99:102],     decoder.field_251),
+      Field("Alternate Type (6)",                     r[102],        decoder.field_252),
       Field("Additional Alternate Identifier (5)",    r[103:113],    decoder.field_253),
       Field("File Record No",                         r[123:128],    decoder.field_031),
       Field("Cycle Date",                             r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 2b3b523..bb54ead 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -67,25 +67,25 @@ class EnrouteAirwaysRestriction():
       Field("Time Code",                               r[51],         decoder.field_131),
       Field("Time Indicator",                          r[52],         decoder.field_138),
       Field("Time of Operation",                       r[53:63],      decoder.field_195),
-      Field("Time of Operation",                       r[63:73],      decoder.field_195),
-      Field("Time of Operation",                       r[73:83],      decoder.field_195),
-      Field("Time of Operation",                       r[83:93],      decoder.field_195),
+      Field("Time of Operation (2)",                   r[63:73],      decoder.field_195),
+      Field("Time of Operation (3)",                   r[73:83],      decoder.field_195),
+      Field("Time of Operation (4)",                   r[83:93],      decoder.field_195),
       Field("Exclusion Indicator",                     r[93],         decoder.field_202),
       Field("Units of Altitude",                       r[94],         decoder.field_160),
       Field("Restriction Altitude",                    r[95:98],      decoder.field_161),
       Field("Block Indicator",                         r[98],         decoder.field_203),
-      Field("Restriction Altitude",                    r[99:102],     decoder.field_161),
-      Field("Block Indicator",                         r[102],        decoder.field_203),
-      Field("Restriction Altitude",                    r[103:106],    decoder.field_161),
-      Field("Block Indicator",                         r[106],        decoder.field_203),
-      Field("Restriction Altitude",                    r[107:110],    decoder.field_161),
-      Field("Block Indicator",                         r[110],        decoder.field_203),
-      Field("Restriction Altitude",                    r[111:114],    decoder.field_161),
-      Field("Block Indicator",                         r[114],        decoder.field_203),
-      Field("Restriction Altitude",                    r[115:118],    decoder.field_161),
-      Field("Block Indicator",                         r[118],        decoder.field_203),
-      Field("Restriction Altitude",                    r[119:122],    decoder.field_161),
-      Field("Block Indicator",                         r[122],        decoder.field_203),
+      Field("Restriction Altitude (2)",                r[99:102],     decoder.field_161),
+      Field("Block Indicator (2)",                     r[102],        decoder.field_203),
+      Field("Restriction Altitude (3)",                r[103:106],    decoder.field_161),
+      Field("Block Indicator (3)",                     r[106],        decoder.field_203),
+      Field("Restriction Altitude (4)",                r[107:110],    decoder.field_161),
+      Field("Block Indicator (4)",                     r[110],        decoder.field_203),
+      Field("Restriction Altitude (5)",                r[111:114],    decoder.field_161),
+      Field("Block Indicator (5)",                     r[114],        decoder.field_203),
+      Field("Restriction Altitude (6)",                r[115:118],    decoder.field_161),
+      Field("Block Indicator (6)",                     r[118],        decoder.field_203),
+      Field("Restriction Altitude (7)",                r[119:122],    decoder.field_161),
+      Field("Block Indicator (7)",                     r[122],        decoder.field_203),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/GeoReferenceTable.py b/src/arinc424/definitions/GeoReferenceTable.py
index ca5a349..fcf8a19 100644
--- a/src/arinc424/definitions/GeoReferenceTable.py
+++ b/src/arinc424/definitions/GeoReferenceTable.py
@@ -53,10 +53,10 @@ class GeoReferenceTable():
       Field("Preferred Route Use Ind (3)",        r[74:76],       decoder.field_220),
       Field("Preferred Route Ident (4)",          r[76:86],       decoder.field_008),
       Field("Preferred Route Use Ind (4)",        r[86:88],       decoder.field_220),
-      Field("Preferred Route Ident (4)",          r[88:98],       decoder.field_008),
-      Field("Preferred Route Use Ind (4)",        r[98:100],      decoder.field_220),
-      Field("Preferred Route Ident (5)",          r[100:110],     decoder.field_008),
-      Field("Preferred Route Use Ind (5)",        r[110:112],     decoder.field_220),
+      Field("Preferred Route Ident (5)",          r[88:98],       decoder.field_008),
+      Field("Preferred Route Use Ind (5)",        r[98:100],      decoder.field_220),
+      Field("Preferred Route Ident (6)",          r[100:110],     decoder.field_008),
+      Field("Preferred Route Use Ind (6)",        r[110:112],     decoder.field_220),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
diff --git a/src/arinc424/definitions/PreferredRoute.py b/src/arinc424/definitions/PreferredRoute.py
index cda4b69..3a8b040 100644
--- a/src/arinc424/definitions/PreferredRoute.py
+++ b/src/arinc424/definitions/PreferredRoute.py
@@ -50,11 +50,11 @@ class PreferredRoute():
       Field("Level",                      r[60],          decoder.field_019),
       Field("Route Type",                 r[61],          decoder.field_007),
       Field("Initial Airport/Fix",        r[62:67],       decoder.field_194),
-      Field("ICAO Code",                  r[67:69],       decoder.field_014),
-      Field("Section Code",               r[69:71],       decoder.field_004),
+      Field("ICAO Code (2)",              r[67:69],       decoder.field_014),
+      Field("Section Code (3)",           r[69:71],       decoder.field_004),
       Field("Terminus Airport/Fix",       r[71:76],       decoder.field_194),
-      Field("ICAO Code",                  r[76:78],       decoder.field_014),
-      Field("Section Code",               r[78:80],       decoder.field_004),
+      Field("ICAO Code (3)",              r[76:78],       decoder.field_014),
+      Field("Section Code (4)",           r[78:80],       decoder.field_004),
       Field("Minimum Altitude",           r[80:85],       decoder.field_030),
       Field("Maximum Altitude",           r[85:90],       decoder.field_127),
       Field("Time Code",                  r[90],          decoder.field_131),
-- 
2.43.0


From da0314fa256feda45f2304d3cd53a05d2d5e077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 07/25] fix: read all four intermediate fixes of a PR
 continuation record

Columns 72-123 hold four groups of fix (5), ICAO code (2), section (2),
distance (3) and FRT code (1). Only pieces of two groups were read, with
the section code and distance of one taken from the next, and the second
group overwrote the first in json().
---
 src/arinc424/definitions/FlightPlanning.py | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/FlightPlanning.py b/src/arinc424/definitions/FlightPlanning.py
index 570bb6c..7cec346 100644
--- a/src/arinc424/definitions/FlightPlanning.py
+++ b/src/arinc424/definitions/FlightPlanning.py
@@ -102,14 +102,24 @@ class FlightPlanning():
       Field("Application Type",                       r[70],          decoder.field_091),
       Field("Intermediate Fix Identifier",            r[71:76],       decoder.field_013),
       Field("ICAO Code (5)",                          r[76:78],       decoder.field_014),
-      Field("Section Code (5)",                       r[91:93],       decoder.field_004),
-      Field("Intermediate Distance",                  r[106:109],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[109],         decoder.field_241),
-      Field("Intermediate Fix Identifier",            r[110:115],     decoder.field_013),
-      Field("ICAO Code (6)",                          r[115:117],     decoder.field_014),
-      Field("Section Code (6)",                       r[118],         decoder.field_004),
-      Field("Intermediate Distance",                  r[119:122],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[122],         decoder.field_241),
+      Field("Section Code (5)",                       r[78:80],       decoder.field_004),
+      Field("Intermediate Distance",                  r[80:83],       decoder.field_231),
+      Field("Fix Related Transition Code",            r[83],          decoder.field_241),
+      Field("Intermediate Fix Identifier (2)",        r[84:89],       decoder.field_013),
+      Field("ICAO Code (6)",                          r[89:91],       decoder.field_014),
+      Field("Section Code (6)",                       r[91:93],       decoder.field_004),
+      Field("Intermediate Distance (2)",              r[93:96],       decoder.field_231),
+      Field("Fix Related Transition Code (2)",        r[96],          decoder.field_241),
+      Field("Intermediate Fix Identifier (3)",        r[97:102],      decoder.field_013),
+      Field("ICAO Code (7)",                          r[102:104],     decoder.field_014),
+      Field("Section Code (7)",                       r[104:106],     decoder.field_004),
+      Field("Intermediate Distance (3)",              r[106:109],     decoder.field_231),
+      Field("Fix Related Transition Code (3)",        r[109],         decoder.field_241),
+      Field("Intermediate Fix Identifier (4)",        r[110:115],     decoder.field_013),
+      Field("ICAO Code (8)",                          r[115:117],     decoder.field_014),
+      Field("Section Code (8)",                       r[117:119],     decoder.field_004),
+      Field("Intermediate Distance (4)",              r[119:122],     decoder.field_231),
+      Field("Fix Related Transition Code (4)",        r[122],         decoder.field_241),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
     ]
-- 
2.43.0


From 5a8b55a4a969dda412b60c550f25e822899ca382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 08/25] fix: the MSA center fix is five columns wide (14-18)

---
 src/arinc424/definitions/MSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/MSA.py b/src/arinc424/definitions/MSA.py
index 35f1c92..052652d 100644
--- a/src/arinc424/definitions/MSA.py
+++ b/src/arinc424/definitions/MSA.py
@@ -38,7 +38,7 @@ class MSA():
       Field("Section Code",                        r[4]+r[12],    decoder.field_004),
       Field(self.id_name,                          r[6:10],       decoder.field_006),
       Field("ICAO Code",                           r[10:12],      decoder.field_014),
-      Field("MSA Center",                          r[13:17],      decoder.field_144),
+      Field("MSA Center",                          r[13:18],      decoder.field_144),
       Field("ICAO Code (2)",                       r[18:20],      decoder.field_014),
       Field("Section Code (2)",                    r[20:22],      decoder.field_004),
       Field("Multiple Code",                       r[22],         decoder.field_130),
@@ -76,7 +76,7 @@ class MSA():
       Field("Section Code",                        r[4]+r[12],    decoder.field_004),
       Field(self.id_name,                          r[6:10],       decoder.field_006),
       Field("ICAO Code",                           r[10:12],      decoder.field_014),
-      Field("MSA Center",                          r[13:17],      decoder.field_144),
+      Field("MSA Center",                          r[13:18],      decoder.field_144),
       Field("ICAO Code (2)",                       r[18:20],      decoder.field_014),
       Field("Section Code (2)",                    r[20:22],      decoder.field_004),
       Field("Multiple Code",                       r[22],         decoder.field_130),
-- 
2.43.0


From 64c7de3b283f37ae42ca585f44a4a96718b58c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 09/25] fix: VHF/NDB navaid columns

The class is columns 28-32, the UIR identifier 28-31, the start/end
indicator 32, the fourth distance limitation 79-84 and the fifth
altitude description 101.
---
 src/arinc424/definitions/NDBNavaid.py |  8 ++++----
 src/arinc424/definitions/VHFNavaid.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index 7b41a3f..f2e401d 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -43,7 +43,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
@@ -101,8 +101,8 @@ class NDBNavaid():
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("Application Type",                r[22],        decoder.field_091),
       Field("FIR Identifier",                  r[23:27],     decoder.field_116),
-      Field("UIR Identifier",                  r[28:31],     decoder.field_116),
-      Field("Start/End Indicator",             r[32],        decoder.field_152),
+      Field("UIR Identifier",                  r[27:31],     decoder.field_116),
+      Field("Start/End Indicator",             r[31],        decoder.field_152),
       Field("Start/End Date",                  r[32:43],     decoder.field_153),
       Field("File Record No",                  r[123:128],   decoder.field_031),
       Field("Cycle Date",                      r[128:132],   decoder.field_032)
@@ -120,7 +120,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 6057783..f5b006a 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -54,7 +54,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -120,8 +120,8 @@ class VHFNavaid():
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Application Type",            r[22],         decoder.field_091),
       Field("FIR Identifier",              r[23:27],      decoder.field_116),
-      Field("UIR Identifier",              r[28:31],      decoder.field_116),
-      Field("Start/End Indicator",         r[32],         decoder.field_152),
+      Field("UIR Identifier",              r[27:31],      decoder.field_116),
+      Field("Start/End Indicator",         r[31],         decoder.field_152),
       Field("Start/End Date",              r[32:43],      decoder.field_153),
       Field("File Record No",              r[123:128],    decoder.field_031),
       Field("Cycle Date",                  r[128:132],    decoder.field_032)
@@ -139,7 +139,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -188,13 +188,13 @@ class VHFNavaid():
       Field("Altitude Limitation (3)",     r[69:75],      decoder.field_209),
       Field("Sector From/Sector To (4)",   r[75:77],      decoder.field_207),
       Field("Distance Description (4)",    r[77],         decoder.field_187),
-      Field("Distance Limitation (4)",     r[79:84],      decoder.field_208),
+      Field("Distance Limitation (4)",     r[78:84],      decoder.field_208),
       Field("Altitude Description (4)",    r[84],         decoder.field_029),
       Field("Altitude Limitation (4)",     r[85:91],      decoder.field_209),
       Field("Sector From/Sector To (5)",   r[91:93],      decoder.field_207),
       Field("Distance Description (5)",    r[93],         decoder.field_187),
       Field("Distance Limitation (5)",     r[94:100],     decoder.field_208),
-      Field("Altitude Description (5)",    r[101],        decoder.field_029),
+      Field("Altitude Description (5)",    r[100],        decoder.field_029),
       Field("Altitude Limitation (5)",     r[101:107],    decoder.field_209),
       Field("Sequence End Indicator",      r[107],        decoder.field_210),
       Field("File Record No",              r[123:128],    decoder.field_031),
-- 
2.43.0


From c673feaadfdd2f7530cf624f23ad302673ed4ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 10/25] fix: airspace columns

UR: the lower limit is columns 82-86 and the time indicator column 29.
UC: the airspace type is column 9; column 10 starts the center.
---
 src/arinc424/definitions/ControlledAirspace.py  | 4 ++--
 src/arinc424/definitions/RestrictiveAirspace.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arinc424/definitions/ControlledAirspace.py b/src/arinc424/definitions/ControlledAirspace.py
index b751951..a8466db 100644
--- a/src/arinc424/definitions/ControlledAirspace.py
+++ b/src/arinc424/definitions/ControlledAirspace.py
@@ -39,7 +39,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
@@ -73,7 +73,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index b3dc6b0..b563fcb 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -51,7 +51,7 @@ class RestrictiveAirspace():
       Field("Arc Origin Longitude",                r[60:70],      decoder.field_037),
       Field("Arc Distance",                        r[70:74],      decoder.field_119),
       Field("Arc Bearing",                         r[74:78],      decoder.field_120),
-      Field("Lower Limit",                         r[82:86],      decoder.field_121),
+      Field("Lower Limit",                         r[81:86],      decoder.field_121),
       Field("Unit Indicator",                      r[86],         decoder.field_133),
       Field("Upper Limit",                         r[87:92],      decoder.field_121),
       Field("Unit Indicator (2)",                  r[92],         decoder.field_133),
@@ -75,7 +75,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
@@ -124,7 +124,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
-- 
2.43.0


From ba8f37b0e76e8a927afdcd2a96663f4f42ef3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 11/25] fix: show the continuation number / application type
 that were dispatched on

EP continuation and GLS layouts took them from a neighbouring column.
---
 src/arinc424/definitions/GLS.py            | 4 ++--
 src/arinc424/definitions/HoldingPattern.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/GLS.py b/src/arinc424/definitions/GLS.py
index 40f4f7c..df940e8 100644
--- a/src/arinc424/definitions/GLS.py
+++ b/src/arinc424/definitions/GLS.py
@@ -35,7 +35,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("GLS Channel",                         r[22:27],      decoder.field_244),
           Field("Runway Identifier",                   r[27:32],      decoder.field_046),
           Field("GLS Approach Bearing",                r[51:55],      decoder.field_047),
@@ -64,7 +64,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("Application Type",                    r[22],         decoder.field_091),
           Field("File Record No",                      r[123:128],    decoder.field_031),
           Field("Cycle Date",                          r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/HoldingPattern.py b/src/arinc424/definitions/HoldingPattern.py
index 72008a9..dd9eba0 100644
--- a/src/arinc424/definitions/HoldingPattern.py
+++ b/src/arinc424/definitions/HoldingPattern.py
@@ -77,7 +77,7 @@ class HoldingPattern():
       Field("ICAO Code (2)",                       r[34:36],      decoder.field_014),
       Field("Section Code (2)",                    r[36:38],      decoder.field_004),
       Field("Continuation Record No",              r[38],         decoder.field_016),
-      Field("Application Type",                    r[40],         decoder.field_091),
+      Field("Application Type",                    r[39],         decoder.field_091),
       Field("Notes",                               r[40:109],     decoder.field_061),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From f258b3cec4f04800af5a254ca100953c4c8b4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 12/25] fix: SID/STAR/approach columns

The fourth ICAO code is two columns and a start/end date eleven.
---
 src/arinc424/definitions/SIDSTARApproach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index b773098..5969a07 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -68,7 +68,7 @@ class SIDSTARApproach():
       Field("Vertical Angle",                             r[102:106],     decoder.field_070),
       Field("Center Fix or TAA Procedure Turn Indicator", r[106:111],     decoder.field_144),  # or 271
       Field("Multiple Code or TAA Sector Identifier",     r[111],         decoder.field_130),  # or 272
-      Field("ICAO Code (4)",                              r[112:113],     decoder.field_014),
+      Field("ICAO Code (4)",                              r[112:114],     decoder.field_014),
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
@@ -134,7 +134,7 @@ class SIDSTARApproach():
       Field("Continuation Record No",                     r[38],          decoder.field_016),
       Field("Application Type",                           r[39],          decoder.field_091),
       Field("Start/End Indicator",                        r[40],          decoder.field_152),
-      Field("Start/End Date",                             r[41:45],       decoder.field_153),
+      Field("Start/End Date",                             r[41:52],       decoder.field_153),
       Field("Leg Distance",                               r[74:78],       decoder.field_260),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
-- 
2.43.0


From cdb6933df85e00d73db847316b3d3befca48255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 13/25] fix: EU note records and MLS continuation columns

The EU route identifier starts in column 7 and a fix section code is two
columns; an MLS true bearing is five columns.
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 +++---
 src/arinc424/definitions/MLS.py                       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index bb54ead..2f0ac52 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -138,13 +138,13 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],      decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
@@ -161,7 +161,7 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
diff --git a/src/arinc424/definitions/MLS.py b/src/arinc424/definitions/MLS.py
index 37a7df0..2fbc7a2 100644
--- a/src/arinc424/definitions/MLS.py
+++ b/src/arinc424/definitions/MLS.py
@@ -87,7 +87,7 @@ class MLS():
       Field("Back Azimuth Proportional Angle Left", r[86:89],     decoder.field_168),
       Field("Back Azimuth Coverage Right",         r[89:92],      decoder.field_172),
       Field("Back Azimuth Coverage Left",          r[92:95],      decoder.field_172),
-      Field("Back Azimuth True Bearing",           r[95:98],      decoder.field_094),
+      Field("Back Azimuth True Bearing",           r[95:100],     decoder.field_094),
       Field("Back Azimuth Bearing Source",         r[100],        decoder.field_095),
       Field("Azimuth True Bearing",                r[101:106],    decoder.field_094),
       Field("Azimuth Bearing Source",              r[106],        decoder.field_095),
-- 
2.43.0


From 2d90dbc3b249a90dc150e3f0924861b2a5a1b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 14/25] fix: decode company route (R) fields with their own
 decoders

The second half of the layout used the decoders of a controlled airspace
record (an ICAO code was shown as 'Unsupported Value' by the Boundary Via
decoder), held an 'Airspace Center' that overlaps two other fields, cut
a section code to one column and lost two ICAO codes in json().
---
 src/arinc424/definitions/CompanyRoute.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 196dc02..5ca6d69 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -16,7 +16,6 @@ class CompanyRoute():
       Field("Section Code",                       r[4:6],         decoder.field_004),
       Field("From Airport/Fix",                   r[6:11],        decoder.field_075),
       Field("ICAO Code",                          r[12:14],       decoder.field_014),
-      Field("Airspace Center",                    r[9:14],        decoder.field_214),
       Field("Section Code (2)",                   r[14:16],       decoder.field_004),
       Field("To Airport/Fix",                     r[16:21],       decoder.field_075),
       Field("ICAO Code (2)",                      r[22:24],       decoder.field_014),
@@ -26,17 +25,17 @@ class CompanyRoute():
       Field("VIA",                                r[39:42],       decoder.field_077),
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
-      Field("To Fix",                             r[51:57],       decoder.field_132),
-      Field("ICAO Code",                          r[57:59],       decoder.field_118),
-      Field("Section Code (4)",                   r[59],          decoder.field_036),
-      Field("RUnway Trans",                       r[61:66],       decoder.field_037),
-      Field("ENRT Trans",                         r[66:71],       decoder.field_036),
-      Field("Cruise Altitude",                    r[72:77],       decoder.field_037),
-      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_119),
-      Field("ICAO Code",                          r[81:83],       decoder.field_120),
-      Field("Alternate Distance",                 r[83:87],       decoder.field_211),
-      Field("Cost Index",                         r[87:90],       decoder.field_121),
-      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_133),
+      Field("To Fix",                             r[51:57],       decoder.field_083),
+      Field("ICAO Code (3)",                      r[57:59],       decoder.field_014),
+      Field("Section Code (4)",                   r[59:61],       decoder.field_004),
+      Field("Runway Trans",                       r[61:66],       decoder.field_084),
+      Field("ENRT Trans",                         r[66:71],       decoder.field_085),
+      Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
+      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
+      Field("ICAO Code (4)",                      r[81:83],       decoder.field_014),
+      Field("Alternate Distance",                 r[83:87],       decoder.field_088),
+      Field("Cost Index",                         r[87:90],       decoder.field_089),
+      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From b90872bbe5f5db6f93bcd2e0b4a8f2170b50790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 15/25] fix: decode the restrictive airspace types of an ER
 continuation as types

Types 2 to 4 were shown as table sequence numbers, and the fourth
multiple code was not read.
---
 src/arinc424/definitions/EnrouteAirways.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index a1f6d17..a02aae4 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -102,16 +102,17 @@ class EnrouteAirways():
       Field("Restr. Air Designation",                  r[69:79],      decoder.field_129),
       Field("Restr. Air Multiple Code",                r[79],         decoder.field_130),
       Field("Restr. Air ICAO Code (2)",                r[80:82],      decoder.field_014),
-      Field("Restr. Air Type (2)",                     r[82],         decoder.field_012),
+      Field("Restr. Air Type (2)",                     r[82],         decoder.field_128),
       Field("Restr. Air Designation (2)",              r[83:93],      decoder.field_129),
       Field("Restr. Air Multiple Code (2)",            r[93],         decoder.field_130),
       Field("Restr. Air ICAO Code (3)",                r[94:96],      decoder.field_014),
-      Field("Restr. Air Type (3)",                     r[96],         decoder.field_012),
+      Field("Restr. Air Type (3)",                     r[96],         decoder.field_128),
       Field("Restr. Air Designation (3)",              r[97:107],     decoder.field_129),
       Field("Restr. Air Multiple Code (3)",            r[107],        decoder.field_130),
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
-      Field("Restr. Air Type (4)",                     r[110],        decoder.field_012),
+      Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
+      Field("Restr. Air Multiple Code (4)",            r[121],        decoder.field_130),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
-- 
2.43.0


From b93146d1eb16295f827af50f237e3015355b994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:53 +0000
Subject: [PATCH 16/25] fix: field labels

An airport record has no heliport identifier, and a grid MORA record has
30 values: the labels skipped 20 and ended with 31.
---
 src/arinc424/definitions/Airport.py  |  2 +-
 src/arinc424/definitions/GridMORA.py | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/arinc424/definitions/Airport.py b/src/arinc424/definitions/Airport.py
index e94705b..ce688db 100644
--- a/src/arinc424/definitions/Airport.py
+++ b/src/arinc424/definitions/Airport.py
@@ -89,7 +89,7 @@ class Airport():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4]+r[12],    decoder.field_004),
-      Field("Heliport Identifier",                     r[6:10],       decoder.field_006),
+      Field("Airport ICAO Identifier",                 r[6:10],       decoder.field_006),
       Field("ICAO Code",                               r[10:12],      decoder.field_014),
       Field("ATA/IATA Designator",                     r[13:16],      decoder.field_107),
       Field("Continuation Record No",                  r[21],         decoder.field_016),
diff --git a/src/arinc424/definitions/GridMORA.py b/src/arinc424/definitions/GridMORA.py
index 99e276a..9cc4552 100644
--- a/src/arinc424/definitions/GridMORA.py
+++ b/src/arinc424/definitions/GridMORA.py
@@ -36,17 +36,17 @@ class GridMORA():
       Field("MORA (17)",                           r[78:81],      decoder.field_143),
       Field("MORA (18)",                           r[81:84],      decoder.field_143),
       Field("MORA (19)",                           r[84:87],      decoder.field_143),
-      Field("MORA (21)",                           r[87:90],      decoder.field_143),
-      Field("MORA (22)",                           r[90:93],      decoder.field_143),
-      Field("MORA (23)",                           r[93:96],      decoder.field_143),
-      Field("MORA (24)",                           r[96:99],      decoder.field_143),
-      Field("MORA (25)",                           r[99:102],     decoder.field_143),
-      Field("MORA (26)",                           r[102:105],    decoder.field_143),
-      Field("MORA (27)",                           r[105:108],    decoder.field_143),
-      Field("MORA (28)",                           r[108:111],    decoder.field_143),
-      Field("MORA (29)",                           r[111:114],    decoder.field_143),
-      Field("MORA (30)",                           r[114:117],    decoder.field_143),
-      Field("MORA (31)",                           r[117:120],    decoder.field_143),
+      Field("MORA (20)",                           r[87:90],      decoder.field_143),
+      Field("MORA (21)",                           r[90:93],      decoder.field_143),
+      Field("MORA (22)",                           r[93:96],      decoder.field_143),
+      Field("MORA (23)",                           r[96:99],      decoder.field_143),
+      Field("MORA (24)",                           r[99:102],     decoder.field_143),
+      Field("MORA (25)",                           r[102:105],    decoder.field_143),
+      Field("MORA (26)",                           r[105:108],    decoder.field_143),
+      Field("MORA (27)",                           r[108:111],    decoder.field_143),
+      Field("MORA (28)",                           r[111:114],    decoder.field_143),
+      Field("MORA (29)",                           r[114:117],    decoder.field_143),
+      Field("MORA (30)",                           r[117:120],    decoder.field_143),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From bd9f1cab8f138740d848cff616d63eb6f506959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 17/25] fix: a zero altitude is '0 ft', not ' ft'

Stripping leading zeros left nothing of an all-zero value.
---
 src/arinc424/decoder.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 981bcf8..9d8b502 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -463,12 +463,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.31 File Record Number (FRN)
@@ -649,7 +649,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -668,7 +668,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -683,13 +683,13 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
   if value.isnumeric():
-    return value.lstrip('0')+"00" + " ft"
+    return ((value+"00").lstrip('0') or '0') + " ft"
   else:
     return value
 
@@ -801,7 +801,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -879,7 +879,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -937,7 +937,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1217,7 +1217,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1237,7 +1237,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1340,7 +1340,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
@@ -1410,7 +1410,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1561,7 +1561,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1734,7 +1734,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1889,7 +1889,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
-- 
2.43.0


From 109aefb1f398c2a2e4e3027f73c8fcca8ee6c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 18/25] fix: time zones A to M and Z

They were numbered by their place in the alphabet (A was 'GMT --12', Z was
'GMT +13'): A to M are -1 to -12 without J, Z is 0.
---
 src/arinc424/decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 9d8b502..d3c7365 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1,6 +1,5 @@
 from collections import defaultdict
 import io
-import string
 
 
 class Field():
@@ -1509,10 +1508,11 @@ def field_177(value, record):
 
 # 5.178 Time Zone
 def field_178(value, record):
-  if value[0].isalpha() and value[1:].isnumeric():
-    x = string.ascii_uppercase.index(value[0]) - 12
-    y = 'GMT +' + str(x) if x >= 0 else 'GMT -' + str(x)
-    return y + ':' + str(value[1:])
+  # M (-12) through A (-1), Z (0), N (+1) through Y (+12), J is not used
+  zones = 'MLKIHGFEDCBAZNOPQRSTUVWXY'
+  if value[0] in zones and value[1:].isnumeric():
+    x = zones.index(value[0]) - 12
+    return f'GMT {x:+d}:{value[1:]}'
   else:
     return f'Unsupported Value: "{value}"'
 
-- 
2.43.0


From 41f2f23066fbe467139ec8307434e652e6a6bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 19/25] fix: do not show the text 'None' for a field

A procedure identifier that is blank or has a hyphen (R34-Y), or a blank
leg time, was decoded to None.
---
 src/arinc424/decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index d3c7365..b1b209b 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -203,8 +203,7 @@ def field_008(value, record):
 
 # 5.9 SID/STAR Route Identifier (SID/STAR IDENT)
 def field_009(value, record):
-  if value.strip().isalnum():
-    return value
+  return value
 
 
 # 5.10 Approach Route Identifier (APPROACH IDENT)
@@ -749,7 +748,7 @@ def field_064(value, record):
 # 5.65 Leg Time (LEG TIME)
 def field_065(value, record):
   if value.strip() == '':
-    return
+    return value
 
   try:
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
-- 
2.43.0


From 21dd9951478a46fde7860f5ae03cb1400cb6f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 20/25] fix: NDB frequencies are in tenths of a kHz

02150 (Alturas, 215.0 kHz) was shown as 21.50.
---
 src/arinc424/decoder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index b1b209b..5aadbfa 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -491,8 +491,10 @@ def field_034(value, record):
   if len(value) > 0:
     if value.isnumeric() is False:
       raise ValueError("Invalid VOR/NDB Frequency:", value)
-    else:
-      return "{:.2f}".format(float(value)/100)
+    # NDBs and locators are in tenths of kHz, VORs in hundredths of MHz
+    if record.ident in ('DB', 'PN', 'PM'):
+      return "{:.1f}".format(float(value)/10)
+    return "{:.2f}".format(float(value)/100)
   return value
 
 
-- 
2.43.0


From 963c87b76d5d00b6c80cfdbbf0df73417d6308c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 21/25] fix: sector altitudes are in hundreds of feet

062 (6200 ft) was shown as '62 ft'.
---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 5aadbfa..8bca3cb 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1340,7 +1340,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return ((value+"00").lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
-- 
2.43.0


From 310da673515ded4a78c83f9168db2020daa1cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 22/25] fix: magnetic variation is in tenths of a degree

E0180 (18.0 E) was shown as '180 E'.
---
 README.md               | 2 +-
 src/arinc424/decoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index c71b6e9..198df75 100644
--- a/README.md
+++ b/README.md
@@ -53,7 +53,7 @@ foo@bar:~$ python3 parse_example.py
 | Longest Runway Surface Code     | ' '                              |                                |
 | Airport Reference Pt. Latitude  | 'N47265700'                      | N47265700                      |
 | Airport Reference Pt. Longitude | 'W122182910'                     | W122182910                     |
-| Magnetic Variation              | 'E0199'                          | 199 E                          |
+| Magnetic Variation              | 'E0199'                          | 19.9 E                         |
 | Airport Elevation               | '00429'                          | 00429                          |
 | Speed Limit                     | '250'                            | 250 knots (IAS)                |
 | Recommended Navaid              | 'SEA '                           | SEA                            |
diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 8bca3cb..56a5b40 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -550,7 +550,7 @@ def field_038(value, record):
 
 # 5.39 Magnetic Variation (MAG VAR, D MAG VAR)
 def field_039(value, record):
-  return value if value.strip() == '' else "{:03} {}".format(int(value[1:]), value[0])
+  return value if value.strip() == '' else "{:.1f} {}".format(int(value[1:])/10, value[0])
 
 
 # 5.40 DME Elevation (DME ELEV)
-- 
2.43.0


From 9c300a44b1a4b4158ea5bac3dfc63217eb16dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 23/25] fix: an approach route qualifier is not a route type

Qualifiers have their own code table; decoded as route types, 'D' (DME
required) was shown as 'VORDME Approach'.
---
 src/arinc424/decoder.py                     |  5 +++++
 src/arinc424/definitions/SIDSTARApproach.py | 12 ++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 56a5b40..af1c7ba 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -193,6 +193,11 @@ def field_007(value, record):
   return d[value] if d[value] != "bad value" else value + " - BAD VALUE"
 
 
+# 5.7 Approach Route Qualifier 1 and 2
+def field_007_qualifier(value, record):
+  return value
+
+
 # 5.8 Route Identifier (ROUTE IDENT)
 def field_008(value, record):
   if value.strip().isalnum():
diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index 5969a07..fc1af5f 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -72,8 +72,8 @@ class SIDSTARApproach():
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
-      Field("Apch Route Qualifier 1",                     r[118],         decoder.field_007),
-      Field("Apch Route Qualifier 2",                     r[119],         decoder.field_007),
+      Field("Apch Route Qualifier 1",                     r[118],         decoder.field_007_qualifier),
+      Field("Apch Route Qualifier 2",                     r[119],         decoder.field_007_qualifier),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
     ]
@@ -109,8 +109,8 @@ class SIDSTARApproach():
       Field("Localizer Only Altitude",                    r[76:81],       decoder.field_030),
       Field("Localizer Only Vertical Angle",              r[81:85],       decoder.field_070),
       Field("RNP",                                        r[89:92],       decoder.field_211),
-      Field("Apch Route Qualifier 1",                     r[118],         decoder.field_007),
-      Field("Apch Route Qualifier 2",                     r[119],         decoder.field_007),
+      Field("Apch Route Qualifier 1",                     r[118],         decoder.field_007_qualifier),
+      Field("Apch Route Qualifier 2",                     r[119],         decoder.field_007_qualifier),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
     ]
@@ -164,8 +164,8 @@ class SIDSTARApproach():
       Field("LNAV/VNAV Level of Service Name",            r[52:62],       decoder.field_275),
       Field("LNAV Authorized for SBAS",                   r[62],          decoder.field_276),
       Field("LNAV Level of Service Name",                 r[63:73],       decoder.field_275),
-      Field("Apch Route Qualifier 1",                     r[118],         decoder.field_007),
-      Field("Apch Route Qualifier 2",                     r[119],         decoder.field_007),
+      Field("Apch Route Qualifier 1",                     r[118],         decoder.field_007_qualifier),
+      Field("Apch Route Qualifier 2",                     r[119],         decoder.field_007_qualifier),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From aaf1388970de138193522841ab0faf8282c96e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:34 +0000
Subject: [PATCH 24/25] fix: refuse unsupported HC continuation application
 types

Any type other than A and P was read with the flight planning layout of
type Q, unlike in every other record definition.
---
 src/arinc424/definitions/HeliportTerminalWaypoint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/HeliportTerminalWaypoint.py b/src/arinc424/definitions/HeliportTerminalWaypoint.py
index 68d3539..41b42b1 100644
--- a/src/arinc424/definitions/HeliportTerminalWaypoint.py
+++ b/src/arinc424/definitions/HeliportTerminalWaypoint.py
@@ -7,7 +7,7 @@ class HeliportTerminalWaypoint():
 
   cont_idx = 21
   app_idx = 22
-  continuations = ['A', 'P']
+  continuations = ['A', 'P', 'Q']
   name = 'Heliport Terminal Waypoint'
 
   def application_type(self, line):
@@ -24,9 +24,10 @@ class HeliportTerminalWaypoint():
         return self.read_cont(line)
       case 'P':
         return self.read_flight0(line)
-      case _:
-        # TODO: sketchy
+      case 'Q':
         return self.read_flight1(line)
+      case _:
+        return []
 
   # 4.2.2.1 Heliport Terminal Waypoint Primary Records
   def read_primary(self, r):
-- 
2.43.0


From 66895948c6e43c09f4abfb5d83687d3b474ee19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:21 +0000
Subject: [PATCH 25/25] fix: courses, distances and variations must be digits

float() and int() also read NAN, INF, 1E5, 1_0 and +10; such a value is not
a number in ARINC 424 and must not be shown as one.
---
 src/arinc424/decoder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index af1c7ba..bdbee36 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -442,6 +442,8 @@ def field_026(value, record):
   # Handle the 'T' in the tenths position for degrees true
   if value.endswith('T'):
     return value
+  elif value.isnumeric() is False:
+    raise ValueError('Invalid Outbound Magnetic Course', value)
   else:
     return "{:.1f}".format(float(value) / 10)
 
@@ -451,6 +453,8 @@ def field_027(value, record):
   value = value.strip()
 
   if len(value) > 0:
+    if value.removeprefix('T').isnumeric() is False:
+      raise ValueError('Invalid Route Distance or Holding Distance/Time', value)
     if value[0] == 'T':
       return "{:.1f} min".format(float(value[1:]) / 10)
     else:
@@ -555,6 +559,8 @@ def field_038(value, record):
 
 # 5.39 Magnetic Variation (MAG VAR, D MAG VAR)
 def field_039(value, record):
+  if value.strip() != '' and value[1:].isnumeric() is False:
+    raise ValueError('Invalid Magnetic Variation', value)
   return value if value.strip() == '' else "{:.1f} {}".format(int(value[1:])/10, value[0])
 
 
@@ -2041,6 +2047,8 @@ def field_268(value, record):
 # 5.269 Helicopter Procedure Course (HPC)
 def field_269(value, record):
   if value.strip() != '': # this is allowed to be empty for non-heli records?
+    if value.strip().isnumeric() is False:
+      raise ValueError('Invalid Helicopter Procedure Course', value)
     return float(value)/10
   return value
 
-- 
2.43.0

