"""Which columns of a record hold which field (ARINC 424 chapter 4), per section
code and per layout: a primary record, or the continuation record of one
application type.

One block per layout: the columns as the standard numbers them (1 to 132), the
section of chapter 5 that describes the field, and the label.  'XX/YY: primary'
names the section codes and the layout ('_' stands for a blank).
"""

LAYOUTS = {}
# section code: column of the continuation number, columns of the application type
CONTINUATION = {
    'D ': (22, (23,)),
    'DB': (22, (23,)),
    'EA': (22, (23,)),
    'EM': (22, (23,)),
    'EP': (39, (40,)),
    'ER': (39, (40,)),
    'ET': (39, (40,)),
    'EU': (18, (16, 17)),
    'EV': (56, (57,)),
    'HA': (22, (23,)),
    'HC': (22, (23,)),
    'HD': (39, (40,)),
    'HE': (39, (40,)),
    'HF': (39, (40,)),
    'HK': (30, (31,)),
    'HS': (39, (40,)),
    'HV': (26, (27,)),
    'PA': (22, (23,)),
    'PB': (22, (23,)),
    'PC': (22, (23,)),
    'PD': (39, (40,)),
    'PE': (39, (40,)),
    'PF': (39, (40,)),
    'PG': (22, (23,)),
    'PI': (22, (23,)),
    'PK': (30, (31,)),
    'PL': (22, (23,)),
    'PM': (22, (23,)),
    'PN': (22, (23,)),
    'PP': (27, (28,)),
    'PR': (70, (71,)),
    'PS': (39, (40,)),
    'PT': (22, (23,)),
    'PV': (26, (27,)),
    'TG': (39, (40,)),
    'UC': (25, (26,)),
    'UF': (20, (21,)),
    'UR': (25, (26,)),
}


def L(keys, text):
  rows = []
  for line in text.strip().split('\n'):
    cols, kind, name = line.split(None, 2)
    idx = []
    for part in cols.split(','):
      a, _, b = part.partition('-')
      idx.extend(range(int(a) - 1, int(b or a)))
    rows.append((name.rstrip(), tuple(idx), kind))
  for key in keys.split(';'):
    idents, sel = key.split(':', 1)
    for ident in idents.strip().split('/'):
      LAYOUTS[ident.replace('_', ' '), sel.strip().replace('_', ' ')] = rows


L('AS: primary', '''
1          002   Record Type
5-6        004   Section Code
14-16      141   Starting Latitude
17-20      142   Starting Longitude
31-33      143   MORA
34-36      143   MORA (2)
37-39      143   MORA (3)
40-42      143   MORA (4)
43-45      143   MORA (5)
46-48      143   MORA (6)
49-51      143   MORA (7)
52-54      143   MORA (8)
55-57      143   MORA (9)
58-60      143   MORA (10)
61-63      143   MORA (11)
64-66      143   MORA (12)
67-69      143   MORA (13)
70-72      143   MORA (14)
73-75      143   MORA (15)
76-78      143   MORA (16)
79-81      143   MORA (17)
82-84      143   MORA (18)
85-87      143   MORA (19)
88-90      143   MORA (20)
91-93      143   MORA (21)
94-96      143   MORA (22)
97-99      143   MORA (23)
100-102    143   MORA (24)
103-105    143   MORA (25)
106-108    143   MORA (26)
109-111    143   MORA (27)
112-114    143   MORA (28)
115-117    143   MORA (29)
118-120    143   MORA (30)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('D_: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   VOR Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('D_: L', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   VOR Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24         205   Navaid Limitation Code
25         206   Component Affected Indicator
26-27      012   Sequence Number
28-29      207   Sector From/Sector To
30         187   Distance Description
31-36      208   Distance Limitation
37         029   Altitude Description
38-43      029   Altitude Limitation
44-45      207   Sector From/Sector To (2)
46         187   Distance Description (2)
47-52      208   Distance Limitation (2)
53         029   Altitude Description (2)
54-59      209   Altitude Limitation (2)
60-61      207   Sector From/Sector To (3)
62         187   Distance Description (3)
63-68      208   Distance Limitation (3)
69         029   Altitude Description (3)
70-75      209   Altitude Limitation (3)
76-77      207   Sector From/Sector To (4)
78         187   Distance Description (4)
79-84      208   Distance Limitation (4)
85         029   Altitude Description (4)
86-91      209   Altitude Limitation (4)
92-93      207   Sector From/Sector To (5)
94         187   Distance Description (5)
95-100     208   Distance Limitation (5)
101        029   Altitude Description (5)
102-107    209   Altitude Limitation (5)
108        210   Sequence End Indicator
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('D_: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   VOR Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('D_: S', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   VOR Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
28-32      093   Facility Characteristics
75-79      039   Magnetic Variation
80-84      092   Facility Elevation
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('D_: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   VOR Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23-27      034   Frequency
28-32      035   Class
33-41      036   VOR Latitude
42-51      037   VOR Longitude
52-55      038   DME Ident
56-64      036   DME Latitude
65-74      037   DME Longitude
75-79      066   Station Declination
80-84      040   DME Elevation
85         149   Figure of Merit
86-87      090   ILS/DME Bias
88-90      150   Frequency Protection
91-93      197   Datum Code
94-123     071   VOR Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('DB/PN: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   NDB Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('DB/PN: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   NDB Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('DB/PN: Q; DB/PN: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   NDB Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23-27      034   NDB Frequency
28-32      035   NDB Class
33-41      036   NDB Latitude
42-51      037   NDB Longitude
75-79      039   Magnetic Variation
91-93      197   Datum Code
94-123     071   NDB Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('DB/PN: S', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-17      033   NDB Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
28-32      093   Facility Characteristics
80-84      092   Facility Elevation
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EA: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-123     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EA: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EA: Q; EA: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
27-29      042   Waypoint Type
30-31      082   Waypoint Usage
33-41      036   Waypoint Latitude
42-51      037   Waypoint Longitude
75-79      039   Dynamic Mag. Variation
85-87      197   Datum Code
96-98      196   Name Format Indicator
99-123     043   Waypoint Name / Desc
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EM: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-17      110   Marker Identifier
20-21      014   ICAO Code
22         016   Continuation Record No
23         091   Application Type
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EM: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-17      110   Marker Identifier
20-21      014   ICAO Code
22         016   Continuation Record No
23-26      111   Marker Code
28         112   Marker Shape
29         113   Marker Power
33-41      036   Marker Latitude
42-51      037   Marker Longitude
52-55      100   Minor Axis
75-79      039   Magnetic Variation
80-84      092   Facility Elevation
85-87      197   Datum Code
94-123     071   Marker Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EP: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
28-29      114   Duplicate Identifier
30-34      013   Fix Identifier
35-36      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Type
41-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EP: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
28-29      114   Duplicate Identifier
30-34      013   Fix Identifier
35-36      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40-43      062   Inbound Holding Course
44         063   Turn Direction
45-47      064   Leg Length
48-49      065   Leg Time
50-54      030   Minimum Altitude
55-59      127   Maximum Altitude
60-62      175   Holding Speed
63-65      211   RNP
66-71      204   Arc Radius
99-123     060   Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('ER: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-18      008   Route Identifier
26-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Type
41-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('ER: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-18      008   Route Identifier
26-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Type
41         152   Start/End Indicator
42-52      153   Start/End Date
67-68      014   Restr. Air ICAO Code
69         128   Restr. Air Type
70-79      129   Restr. Air Designation
80         130   Restr. Air Multiple Code
81-82      014   Restr. Air ICAO Code (2)
83         128   Restr. Air Type (2)
84-93      129   Restr. Air Designation (2)
94         130   Restr. Air Multiple Code (2)
95-96      014   Restr. Air ICAO Code (3)
97         128   Restr. Air Type (3)
98-107     129   Restr. Air Designation (3)
108        130   Restr. Air Multiple Code (3)
109-110    014   Restr. Air ICAO Code (4)
111        128   Restr. Air Type (4)
112-121    129   Restr. Air Designation (4)
122        130   Restr. Air Multiple Code (4)
123        174   Restr. Air Link Continuation
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('ER: Q; ER: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-18      008   Route Identifier
26-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code
37-38      004   Section Code (2)
39         016   Continuation Record No
40-43      017   Waypoint Desc Code
44         018   Boundary Code
45         007   Route Type
46         019   Level
47         115   Direction Restriction
48-49      134   Cruise Table Indicator
50         164   EU Indicator
51-54      023   Recommended NAVAID
55-56      014   ICAO Code (2)
57-59      211   RNP
63-66      024   Theta
67-70      025   Rho
71-74      026   Outbound Magnetic Course
75-78      027   Route Distance From
79-82      028   Inbound Magnetic Course
84-88      030   Minimum Altitude
89-93      030   Minimum Altitude (2)
94-98      127   Maximum Altitude
99-101     254   Fix Radius Transition Indicator
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('ET: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-23      008   Route Identifier
24-25      220   Preferred Route Use Ind
26-29      012   Sequence Number
39         016   Continuation Record No
40         091   Application Type
41-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('ET: T', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-23      008   Route Identifier
24-25      220   Preferred Route Use Ind
26-29      012   Sequence Number
39         016   Continuation Record No
40         091   Application Type
41         131   Time Code
42         138   Time Indicator
43-52      195   Time of Operation
53-62      195   Time of Operation (2)
63-72      195   Time of Operation (3)
73-82      195   Time of Operation (4)
83-92      195   Time of Operation (5)
93-102     195   Time of Operation (6)
103-112    195   Time of Operation (7)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('ET: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
14-23      008   Route Identifier
24-25      220   Preferred Route Use Ind
26-29      012   Sequence Number
39         016   Continuation Record No
40-44      083   To Fix Identifier
45-46      014   ICAO Code
47-48      004   Section Code (2)
49-51      077   VIA Code
52-57      078   SID/STAR/AWY Ident
58-60      003   AREA Code
61         019   Level
62         007   Route Type
63-67      194   Initial Airport/Fix
68-69      014   ICAO Code (2)
70-71      004   Section Code (3)
72-76      194   Terminus Airport/Fix
77-78      014   ICAO Code (3)
79-80      004   Section Code (4)
81-85      030   Minimum Altitude
86-90      127   Maximum Altitude
91         131   Time Code
92-93      221   Aircraft Use Group
94         115   Direction Restriction
95         029   Altitude Description
96-100     030   Altitude One
101-105    030   Altitude Two
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EU: cont AE', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       008   Route Identifier
13-15      154   Restriction Identifier
16-17      201   Restriction Type
18         016   Continuation Record No
19         091   Application Type
52         131   Time Code
53         138   Time Indicator
54-63      195   Time of Operation
64-73      195   Time of Operation (2)
74-83      195   Time of Operation (3)
84-93      195   Time of Operation (4)
94         202   Exclusion Operator
95         160   Units of Altitude
96-98      161   Restriction Altitude
99         203   Block Indicator
100-102    161   Restriction Altitude (2)
103        203   Block Indicator (2)
104-106    161   Restriction Altitude (3)
107        203   Block Indicator (3)
108-110    161   Restriction Altitude (4)
111        203   Block Indicator (4)
112-114    161   Restriction Altitude (5)
115        203   Block Indicator (5)
116-118    161   Restriction Altitude (6)
119        203   Block Indicator (6)
120-122    161   Restriction Altitude (7)
123        203   Block Indicator (7)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EU: cont NR', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       008   Route Identifier
13-15      154   Restriction Identifier
16-17      201   Restriction Type
18         016   Continuation Record No
19         091   Application Type
52-120     163   Restriction Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EU: cont TC', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       008   Route Identifier
13-15      154   Restriction Identifier
16-17      201   Restriction Type
18         016   Continuation Record No
19         091   Application Type
52         131   Time Code
53         138   Time Indicator
54-63      195   Time of Operation
64-73      195   Time of Operation (2)
74-83      195   Time of Operation (3)
84-93      195   Time of Operation (4)
94-95      134   Cruise Table Ident
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EU: primary AE', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       008   Route Identifier
13-15      154   Restriction Identifier
16-17      201   Restriction Type
18         016   Continuation Record No
19-23      013   Start Fix Identifier
24-25      014   Start Fix ICAO Code
26-27      004   Start Fix Section Code
28-32      013   End Fix Identifier
33-34      014   End Fix ICAO Code
35-36      004   End Fix Section Code
38-44      157   Start Date
45-51      157   End Date
52         131   Time Code
53         138   Time Indicator
54-63      195   Time of Operation
64-73      195   Time of Operation (2)
74-83      195   Time of Operation (3)
84-93      195   Time of Operation (4)
94         202   Exclusion Indicator
95         160   Units of Altitude
96-98      161   Restriction Altitude
99         203   Block Indicator
100-102    161   Restriction Altitude (2)
103        203   Block Indicator (2)
104-106    161   Restriction Altitude (3)
107        203   Block Indicator (3)
108-110    161   Restriction Altitude (4)
111        203   Block Indicator (4)
112-114    161   Restriction Altitude (5)
115        203   Block Indicator (5)
116-118    161   Restriction Altitude (6)
119        203   Block Indicator (6)
120-122    161   Restriction Altitude (7)
123        203   Block Indicator (7)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EU: primary NR', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       008   Route Identifier
13-15      154   Restriction Identifier
16-17      201   Restriction Type
18         016   Continuation Record No
19-23      013   Start Fix Identifier
24-25      014   Start Fix ICAO Code
26-27      004   Start Fix Section Code
28-32      013   End Fix Identifier
33-34      014   End Fix ICAO Code
35-36      004   End Fix Section Code
38-44      157   Start Date
45-51      157   End Date
52-120     163   Restriction Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EU: primary SC; EU: primary TC', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       008   Route Identifier
13-15      154   Restriction Identifier
16-17      201   Restriction Type
18         016   Continuation Record No
19-23      013   Start Fix Identifier
24-25      014   Start Fix ICAO Code
26-27      004   Start Fix Section Code
28-32      013   End Fix Identifier
33-34      014   End Fix ICAO Code
35-36      004   End Fix Section Code
38-44      157   Start Date
45-51      157   End Date
52         131   Time Code
53         138   Time Indicator
54-63      195   Time of Operation
64-73      195   Time of Operation (2)
74-83      195   Time of Operation (3)
84-93      195   Time of Operation (4)
94-95      134   Cruise Table Ident
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EV: _', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       190   FIR/RDO Ident
11-14      151   FIR/UIR Address
15         117   Indicator
19-43      189   Remote Name
44-46      101   Communications Type
47-53      103   Comm Frequency
54         182   Guard/Transmit
55         104   Frequency Units
56         016   Continuation Record No
57         091   Application Type
58         131   Time Code
59         132   NOTAM
60         138   Time Indicator
61-70      195   Time of Operation
94-123     105   Call Sign
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EV: T', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       190   FIR/RDO Ident
11-14      151   FIR/UIR Address
15         117   Indicator
19-43      189   Remote Name
44-46      101   Communications Type
47-53      103   Comm Frequency
54         182   Guard/Transmit
55         104   Frequency Units
56         016   Continuation Record No
57         091   Application Type
61-70      195   Time of Operation
71-80      195   Time of Operation (2)
81-90      195   Time of Operation (3)
91-100     195   Time of Operation (4)
101-110    195   Time of Operation (5)
111-120    195   Time of Operation (6)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('EV: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       190   FIR/RDO Ident
11-14      151   FIR/UIR Address
15         117   Indicator
19-43      189   Remote Name
44-46      101   Communications Type
47-53      103   Comm Frequency
54         182   Guard/Transmit
55         104   Frequency Units
56         016   Continuation Record No
57-59      106   Service Indicator
60         102   Radar Service
61         198   Modulation
62         199   Signal Emission
63-71      036   Latitude
72-81      037   Longitude
82-86      039   Magnetic Variation
87-91      092   Facility Elevation
92         181   H24 Indicator
93         029   Altitude Description
94-98      184   Communication Altitude
99-103     184   Communication Altitude (2)
104-107    200   Remote Facility
108-109    014   ICAO Code
110-111    004   Section Code (2)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HA: A; HA: Q', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-16      107   ATA/IATA Designator
17-21      180   PAD Identifier
22         016   Continuation Record No
23         091   Application Type
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HA: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-16      107   ATA/IATA Designator
17-21      180   PAD Identifier
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date/Time
67         217   Controlled A/S Indicator
68-71      006   Controlled A/S Airport Indentifier
72-73      014   Controlled A/S Airport ICAO
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HA: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-16      107   ATA/IATA Designator
17-21      180   PAD Identifier
22         016   Continuation Record No
23-27      073   Speed Limit Altitude
28-30      197   Datum Code
31         108   IFR Indicator
33-41      036   Latitude
42-51      037   Longitude
52-56      039   Magnetic Variation
57-61      055   Heliport Elevation
62-64      072   Speed Limit
65-68      023   Recommended VHF Navaid
69-70      014   ICAO Code (2)
71-75      053   Transition Altitude
76-80      053   Transition Level
81         177   Public Military Indicator
82-84      178   Time Zone
85         179   Daylight Indicator
86-91      176   Pad Dimensions
92         165   Magnetic/True Indicator
94-123     071   Heliport Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HC: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HC: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HC: Q; HC: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
27-29      042   Waypoint Type
30-31      082   Waypoint Usage
33-41      036   Waypoint Latitude
42-51      037   Waypoint Longitude
75-79      039   Dynamic Magnetic Variation
85-87      197   Datum Code
96-98      196   Name Format Indicator
99-123     043   Waypoint Name/Description
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HD/HE/HF/PD/PE/PF: E', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         007   Route Type
21-25      011   Transition Identifier
27-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Type
41-44      170   CAT A Decision Height
45-48      170   CAT B Decision Height
49-52      170   CAT C Decision Height
53-56      170   CAT D Decision Height
57-60      171   CAT A Minimum Descent Altitude
61-64      171   CAT B Minimum Descent Altitude
65-68      171   CAT C Minimum Descent Altitude
69-72      171   CAT D Minimum Descent Altitude
73-75      067   Procedure TCH
76         029   Localizer Only Altitude Desc
77-81      030   Localizer Only Altitude
82-85      070   Localizer Only Vertical Angle
90-92      211   RNP
119        007_qualifier Apch Route Qualifier 1
120        007_qualifier Apch Route Qualifier 2
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HD/HE/HF/PD/PE/PF: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         007   Route Type
21-25      011   Transition Identifier
27-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Type
41         152   Start/End Indicator
42-52      153   Start/End Date
75-78      260   Leg Distance
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HD/HE/HF/PD/PE/PF: W', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         007   Route Type
21-25      011   Transition Identifier
27-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Type
41         276   FAS Block Provided
42-51      275   FAS Block Provided Level of Service Name
52         276   LNAV/VNAV Authorized for SBAS
53-62      275   LNAV/VNAV Level of Service Name
63         276   LNAV Authorized for SBAS
64-73      275   LNAV Level of Service Name
119        007_qualifier Apch Route Qualifier 1
120        007_qualifier Apch Route Qualifier 2
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HD/HE/HF/PD/PE/PF: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         007   Route Type
21-25      011   Transition Identifier
27-29      012   Sequence Number
30-34      013   Fix Identifier
35-36      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40-43      017   Waypoint Description Code
44         020   Turn Direction
45-47      211   RNP
48-49      021   Path and Termination
50         022   Turn Direction Valid
51-54      023   Recommended Navaid
55-56      014   ICAO Code (3)
57-62      204   Arc Radius
63-66      024   Theta
67-70      025   Rho
71-74      026   Magnetic Course
75-78      027   Route / Holding Distance or Time
79-80      004   Recommended Navaid (2)
83         029   Altitude Description
84         081   ATC Indicator
85-89      030   Altitude
90-94      030   Altitude (2)
95-99      053   Transition Altitude
100-102    072   Speed Limit
103-106    070   Vertical Angle
107-111    144   Center Fix or TAA Procedure Turn Indicator
112        130   Multiple Code or TAA Sector Identifier
113-114    014   ICAO Code (4)
115-116    004   Section Code (3)
117        222   GNSS/FMS Indication
118        261   Speed Limit Description
119        007_qualifier Apch Route Qualifier 1
120        007_qualifier Apch Route Qualifier 2
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HK: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-19      010   Approach Identifier
20         272   TAA Sector Identifier
21-24      271   TAA Procedure Turn
30-34      273   TAA IAF Waypoint
11-12      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Notes
51-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HK: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-19      010   Approach Identifier
20-24      273   TAA Waypoint
21-24      271   TAA Procedure Turn
25-26      014   ICAO Code (2)
27-28      004   Section Code (2)
29         272   TAA Fix Position Indicator
30         016   Continuation Record No
41         165   Mag/True Indicator
42-45      274   Sector Radius
46-51      146   Sector Bearing
52-54      147   Sector Minimum Altitude
55-58      274   Sector Radius (2)
59-64      146   Sector Bearing (2)
65-67      147   Sector Minimum Altitude (2)
68-71      274   Sector Radius (3)
72-77      146   Sector Bearing (3)
78-80      147   Sector Minimum Altitude (3)
81-84      274   Sector Radius (4)
85-90      146   Sector Bearing (4)
91-93      147   Sector Minimum Altitude (4)
94-97      274   Sector Radius (5)
98-103     146   Sector Bearing (5)
104-106    147   Sector Minimum Altitude (5)
107-110    274   Sector Radius (6)
111-116    146   Sector Bearing (6)
117-119    147   Sector Minimum Altitude (6)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HS: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-18      144   MSA Center
19-20      014   ICAO Code (2)
21-22      004   Section Code (2)
23         130   Multiple Code
39         016   Continuation Record No
40         091   Application Type
41-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HS: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-18      144   MSA Center
19-20      014   ICAO Code (2)
21-22      004   Section Code (2)
23         130   Multiple Code
39         016   Continuation Record No
43-48      146   Sector Bearing
49-51      147   Sector Altitude
52-53      145   Sector Radius
54-59      146   Sector Bearing (2)
60-62      147   Sector Altitude (2)
63-64      145   Sector Radius (2)
65-70      146   Sector Bearing (3)
71-73      147   Sector Altitude (3)
74-75      145   Sector Radius (3)
76-81      146   Sector Bearing (4)
82-84      147   Sector Altitude (4)
85-86      145   Sector Radius (4)
87-92      146   Sector Bearing (5)
93-95      147   Sector Altitude (5)
96-97      145   Sector Radius (5)
98-103     146   Sector Bearing (6)
104-106    147   Sector Altitude (6)
107-108    145   Sector Radius (6)
109-114    146   Sector Bearing (7)
115-117    147   Sector Altitude (7)
118-119    145   Sector Radius (7)
120        165   Magnetic/True Bearing
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HV: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-16      101   Communications Type
17-23      103   Communications Freq
24         182   Guard/Transmit
25         104   Frequency Units
26         016   Continuation Record No
27         091   Application Type
28-87      186   Narrative
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HV: T', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-16      101   Communications Type
17-23      103   Communications Freq
24         182   Guard/Transmit
25         104   Frequency Units
26         016   Continuation Record No
27         091   Application Type
28         131   Time Code
29         132   NOTAM
30         138   Time Indicator
31-40      195   Time of Operation
41-50      195   Time of Operation (2)
51-60      195   Time of Operation (3)
61-70      195   Time of Operation (4)
71-80      195   Time of Operation (5)
81-90      195   Time of Operation (6)
91-100     195   Time of Operation (7)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('HV: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Heliport Identifier
11-12      014   ICAO Code
14-16      101   Communications Type
17-23      103   Communications Freq
24         182   Guard/Transmit
25         104   Frequency Units
26         016   Continuation Record No
27-29      106   Service Indicator
30         102   Radar Service
31         198   Modulation
32         199   Signal Emission
33-41      036   Latitude
42-51      036   Longitude
52-56      039   Magnetic Variation
57-61      092   Facility Elevation
62         181   H24 Indicator
63-68      183   Sectorization
69         029   Altitude Description
70-74      184   Communication Altitude
75-79      184   Communication Altitude (2)
80-83      185   Sector Facility
84-85      014   ICAO Code (2)
86-87      004   Section Code (2)
88         187   Distance Description
89-90      188   Communications Distance
91-94      200   Remote Facility
95-96      014   ICAO Code (3)
97-98      004   Section Code (3)
99-123     105   Call Sign
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PA: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-16      107   ATA/IATA Designator
22         016   Continuation Record No
23         091   Application Type
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PA: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-16      107   ATA/IATA Designator
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date/Time
67         217   Controlled A/S Indicator
68-71      006   Controlled A/S Airport Ident
72-73      014   Controlled A/S Airport ICAO
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PA: Q; PA: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-16      107   ATA/IATA Designator
22         016   Continuation Record No
23-27      073   Speed Limit Altitude
28-30      054   Longest Runway
31         108   IFR Capability
32         249   Longest Runway Surface Code
33-41      036   Airport Reference Pt. Latitude
42-51      037   Airport Reference Pt. Longitude
52-56      039   Magnetic Variation
57-61      055   Airport Elevation
62-64      072   Speed Limit
65-68      023   Recommended Navaid
69-70      014   ICAO Code (2)
71-75      053   Transition Altitude
76-80      053   Transition Level
81         177   Public Military Indicator
82-84      178   Time Zone
85         179   Daylight Indicator
86         165   Magnetic/True Indicator
87-89      197   Datum Code
94-123     071   Airport Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PB: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-18      056   Gate Identifier
22         016   Continuation Record No
23         091   Application Notes
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PB: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-18      056   Gate Identifier
22         016   Continuation Record No
33-41      036   Gate Latitude
42-51      037   Gate Longitude
99-123     060   Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PC: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-123     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PC: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
23         091   Application Type
24-27      116   FIR Identifier
28-31      116   UIR Identifier
32         152   Start/End Indicator
33-43      153   Start/End Date
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PC: Q; PC: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       041   Region Code
11-12      014   ICAO Code
14-18      013   Waypoint Identifier
20-21      014   ICAO Code (2)
22         016   Continuation Record No
27-29      042   Waypoint Type
30-31      082   Waypoint Usage
33-41      036   Waypoint Latitude
42-51      037   Waypoint Longitude
75-79      039   Dynamic Mag. Variation
85-87      197   Datum Code
96-98      196   Name Format Indicator
99-123     043   Waypoint Name / Desc
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PG: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-18      046   Runway Identifier
22         016   Continuation Record No
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PG: S', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-18      046   Runway Identifier
22         016   Continuation Record No
23         091   Application Type
52-56      094   Runway True Bearing
57         095   True Bearing Source
66         098   TDZE Location
67-71      097   Touchdown Zone Elevation
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PG: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport ICAO Identifier
11-12      014   ICAO Code
14-18      046   Runway Identifier
22         016   Continuation Record No
23-27      057   Runway Length
28-31      058   Runway Magnetic Bearing
33-41      036   Runway Latitude
42-51      037   Runway Longitude
52-56      212   Runway Gradient
61-66      225   (LTP) Ellipsoid Height
67-71      068   Landing Threshold Elevation
72-75      069   Displaced Threshold Dist
76-77      067   Threshold Crossing Height
78-80      109   Runway Width
81         270   TCH Value Indicator
82-85      044   Localizer/MLS/GLS Ref Path Ident
86         080   Localizer/MLS/GLS Category/Class
87-90      079   Stopway
91-94      044   Localizer/MLS/GLS Ref Path Ident (2)
95         080   Localizer/MLS/GLS Category/Class (2)
102-123    059   Runway Description
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PI: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   Localizer Identifier
18         080   ILS Category
22         016   Continuation Record No
24-92      061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PI: S', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   Localizer Identifier
18         080   ILS Category
22         016   Continuation Record No
23         091   Application Type
28-32      093   Facility Characteristics
52-56      094   Localizer True Bearing
57         095   Localizer Bearing Source
88-90      096   Glide Slope Beam Width
91-96      010   Approach Route Ident
97-102     010   Approach Route Ident (2)
103-108    010   Approach Route Ident (3)
109-114    010   Approach Route Ident (4)
115-120    010   Approach Route Ident (5)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PI: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   Localizer Identifier
18         080   ILS Category
22         016   Continuation Record No
23-27      045   Localizer Frequency
28-32      046   Runway Identifier
33-41      036   Localizer Latitude
42-51      037   Localizer Longitude
52-55      047   Localizer Bearing
56-64      036   Glide Slope Latitude
65-74      037   Glide Slope Longitude
75-78      048   Localizer Position
79         049   Localizer Position Reference
80-83      050   Glide Slope Position
84-87      051   Localizer Width
88-90      052   Glide Slope Angle
91-95      066   Station Declination
96-97      067   Glide Slope Height at Landing Threshold
98-102     074   Glide Slope Elevation
103-106    033   Supporting Facility ID Note 1
107-108    014   Supporting Facility ICAO Code Note 1
109-110    004   Supporting Facility Section Code Note 1
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PK: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      010   Approach Identifier
20         272   TAA Sector Identifier
21-24      271   TAA Procedure Turn
30-34      273   TAA IAF Waypoint
11-12      014   ICAO Code (2)
37-38      004   Section Code (2)
39         016   Continuation Record No
40         091   Application Notes
51-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PK: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      010   Approach Identifier
20-24      273   TAA Waypoint
21-24      271   TAA Procedure Turn
25-26      014   ICAO Code (2)
27-28      004   Section Code (2)
29         272   TAA Fix Position Indicator
30         016   Continuation Record No
41         165   Mag/True Indicator
42-45      274   Sector Radius
46-51      146   Sector Bearing
52-54      147   Sector Minimum Altitude
55-58      274   Sector Radius (2)
59-64      146   Sector Bearing (2)
65-67      147   Sector Minimum Altitude (2)
68-71      274   Sector Radius (3)
72-77      146   Sector Bearing (3)
78-80      147   Sector Minimum Altitude (3)
81-84      274   Sector Radius (4)
85-90      146   Sector Bearing (4)
91-93      147   Sector Minimum Altitude (4)
94-97      274   Sector Radius (5)
98-103     146   Sector Bearing (5)
104-106    147   Sector Minimum Altitude (5)
107-110    274   Sector Radius (6)
111-116    146   Sector Bearing (6)
117-119    147   Sector Minimum Altitude (6)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PL: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   MLS Identifier
18         080   MLS Category
22         016   Continuation Record No
23         091   Application Type
28-32      093   Facility Characteristics
33-41      036   Back Azimuth Latitude
42-51      037   Back Azimuth Longitude
52-55      167   Back Azimuth Bearing
56-64      036   MLS Datum Point Latitude
65-74      037   MLS Datum Point Longitude
75-78      048   Back Azimuth Position
79         049   Back Azimuth Position Reference
84-86      168   Back Azimuth Proportional Angle Right
87-89      168   Back Azimuth Proportional Angle Left
90-92      172   Back Azimuth Coverage Right
93-95      172   Back Azimuth Coverage Left
96-100     094   Back Azimuth True Bearing
101        095   Back Azimuth Bearing Source
102-106    094   Azimuth True Bearing
107        095   Azimuth Bearing Source
108-109    067   Glide Path Height at Landing Threshold
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PL: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   MLS Identifier
18         080   MLS Category
22         016   Continuation Record No
23-25      166   Channel
28-32      046   Runway Identifier
33-41      036   Azimuth Latitude
42-51      037   Azimuth Longitude
52-55      167   Azimuth Bearing
56-64      036   Elevation Latitude
65-74      037   Elevation Longitude
75-78      048   Azimuth Position
79         049   Azimuth Position Reference
80-83      050   Elevation Position
84-86      168   Azimuth Proportional Angle Right
87-89      168   Azimuth Proportional Angle Left
90-92      172   Azimuth Coverage Right
93-95      172   Azimuth Coverage Left
96-98      169   Elevation Angle Span
99-103     039   Magnetic Variation
104-108    074   EL Elevation
109-112    173   Nominal Elevation Angle
113-115    052   Minimum Glide Path Angle
116-119    033   Supporting Facility Identifier
120-121    014   Supporting Facility ICAO Code
122-123    004   Supporting Facility Section
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PM: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   Localizer Identifier
18-20      099   Marker Type
22         016   Continuation Record No
23         091   Application Type
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PM: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-17      044   Localizer Identifier
18-20      099   Marker Type
22         016   Continuation Record No
23-27      034   Locator Frequency
28-32      046   Runway Identifier
33-41      036   Marker Latitude
42-51      037   Marker Longitude
52-55      100   Minor Axis Bearing
56-64      036   Locator Latitude
65-74      037   Locator Longitude
75-79      035   Localizer Class
80-83      093   Localizer Facility Characteristics
85-88      033   Localizer Identifier (2)
91-95      039   Magnetic Variation
98-102     092   Facility Elevation
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PP: E', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      010   Approach Procedure Ident
20-24      046   Runway or Helipad Ident
25-26      223   Operation Type
27         016   Continuation Record No
28         091   Application Type
29-34      225   (FPAP) Ellipsoid Height
35-40      227   (FPAP) Orthometric Height
41-46      227   (LTP) Orthometric Height
47-56      262   Approach Type Identifier
57-61      244   GNSS Channel Number
72-74      269   Helicopter Procedure Course
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PP: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      010   Approach Procedure Ident
20-24      046   Runway or Helipad Ident
25-26      223   Operation Type
27         016   Continuation Record No
28         224   Route Identifier
29-30      255   SBAS Service Provider Ident
31-32      256   Reference Path Data Selector
33-36      257   Reference Path Identifier
37         258   Approach Performance Designator
38-48      267   Landing Threshold Point Latitude
49-60      268   Landing Threshold Point Longitude
61-66      225   (LTP) Ellipsoid Height
67-70      226   Glide Path Angle
71-81      267   Flight Path Alignment Point Latitude
82-93      268   Flight Path Alignment Point Longitude
94-98      228   Course Width at Threshold Note 4
99-102     259   Length Offset
103-108    265   Path Point TCH
109        266   TCH Units Indicator
110-112    263   HAL
113-115    264   VAL
116-123    229   SBAS FAS Data CRC Remainder
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PR: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         230   Procedure Type
21-25      011   Runway Transition Identifier
26-30      013   Runway Transition Fix
31-32      014   ICAO Code (2)
33-34      004   Section Code (2)
35-37      231   Runway Transition Along Track Dist
38-42      013   Common Segment Transition Fix
43-44      014   ICAO Code (3)
45-46      004   Section Code (3)
47-49      231   Common Segment Along Track Dist
50-54      011   Enroute Transition Identifier
55-59      013   Enroute Transition Fix
60-61      014   ICAO Code (4)
62-63      004   Section Code (4)
64-66      231   Enroute Transition Along Track Dist
67-69      012   Sequence Number
70         016   Continuation Number
71         091   Application Type
72-76      013   Intermediate Fix Identifier
77-78      014   ICAO Code (5)
79-80      004   Section Code (5)
81-83      231   Intermediate Distance
84         241   Fix Related Transition Code
85-89      013   Intermediate Fix Identifier (2)
90-91      014   ICAO Code (6)
92-93      004   Section Code (6)
94-96      231   Intermediate Distance (2)
97         241   Fix Related Transition Code (2)
98-102     013   Intermediate Fix Identifier (3)
103-104    014   ICAO Code (7)
105-106    004   Section Code (7)
107-109    231   Intermediate Distance (3)
110        241   Fix Related Transition Code (3)
111-115    013   Intermediate Fix Identifier (4)
116-117    014   ICAO Code (8)
118-119    004   Section Code (8)
120-122    231   Intermediate Distance (4)
123        241   Fix Related Transition Code (4)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PR: T', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         230   Procedure Type
21-25      011   Runway Transition Identifier
26-30      013   Runway Transition Fix
31-32      014   ICAO Code (2)
33-34      004   Section Code (2)
35-37      231   Runway Transition Along Track Dist
38-42      013   Common Segment Transition Fix
43-44      014   ICAO Code (3)
45-46      004   Section Code (3)
47-49      231   Common Segment Along Track Dist
50-54      011   Enroute Transition Identifier
55-59      013   Enroute Transition Fix
60-61      014   ICAO Code (4)
62-63      004   Section Code (4)
64-66      231   Enroute Transition Along Track Dist
67-69      012   Sequence Number
70         016   Continuation Number
71         091   Application Type
72         131   Time Code
73         138   Time Indicator
74-83      195   Time of Operation
84-93      195   Time of Operation (1)
94-103     195   Time of Operation (2)
104-113    195   Time of Operation (3)
114-123    195   Time of Operation (4)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PR: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-19      009   SID/STAR/Approach Identifier
20         230   Procedure Type
21-25      011   Runway Transition Identifier
26-30      013   Runway Transition Fix
31-32      014   ICAO Code (2)
33-34      004   Section Code (2)
35-37      231   Runway Transition Along Track Dist
38-42      013   Common Segment Transition Fix
43-44      014   ICAO Code (3)
45-46      004   Section Code (3)
47-49      231   Common Segment Along Track Dist
50-54      011   Enroute Transition Identifier
55-59      013   Enroute Transition Fix
60-61      014   ICAO Code (4)
62-63      004   Section Code (4)
64-66      231   Enroute Transition Along Track Dist
67-69      012   Sequence Number
70         016   Continuation Number
71-74      232   Number of Engines
75         233   Turboprop/Jet Indicator
76         234   RNAV Flag
77         235   ATC Weight Category
78-84      236   ATC Identifier
85         131   Time Code
86-100     237   Procedure Description
101-102    238   Leg Type Code
103        239   Reporting Code
104-107    026   Initial Departure Magnetic Course
108        029   Altitude Description
109-111    240   Altitude
112-114    240   Altitude (2)
115-117    072   Speed Limit
118-119    134   Initial Cruise Table
120        261   Speed Limit Description
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PS: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-18      144   MSA Center
19-20      014   ICAO Code (2)
21-22      004   Section Code (2)
23         130   Multiple Code
39         016   Continuation Record No
40         091   Application Type
41-109     061   Notes
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PS: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-18      144   MSA Center
19-20      014   ICAO Code (2)
21-22      004   Section Code (2)
23         130   Multiple Code
39         016   Continuation Record No
43-48      146   Sector Bearing
49-51      147   Sector Altitude
52-53      145   Sector Radius
54-59      146   Sector Bearing (2)
60-62      147   Sector Altitude (2)
63-64      145   Sector Radius (2)
65-70      146   Sector Bearing (3)
71-73      147   Sector Altitude (3)
74-75      145   Sector Radius (3)
76-81      146   Sector Bearing (4)
82-84      147   Sector Altitude (4)
85-86      145   Sector Radius (4)
87-92      146   Sector Bearing (5)
93-95      147   Sector Altitude (5)
96-97      145   Sector Radius (5)
98-103     146   Sector Bearing (6)
104-106    147   Sector Altitude (6)
107-108    145   Sector Radius (6)
109-114    146   Sector Bearing (7)
115-117    147   Sector Altitude (7)
118-119    145   Sector Radius (7)
120        165   Magnetic/True Bearing
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PT: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport and Heliport Identifier
11-12      014   ICAO Code
14-17      044   GLS Ref Path Identifier
18         080   GLS Category
22         016   Continuation Record No
23         091   Application Type
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PT: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport and Heliport Identifier
11-12      014   ICAO Code
14-17      044   GLS Ref Path Identifier
18         080   GLS Category
22         016   Continuation Record No
23-27      244   GLS Channel
28-32      046   Runway Identifier
52-55      047   GLS Approach Bearing
56-64      036   Station Latitude
65-74      037   Station Longitude
75-78      243   GLS Station Ident
84-85      245   Service Volume Radius
86-87      246   TDMA Slots
88-90      052   GLS Approach Slope
91-95      039   Magnetic Variation
98-102     074   Station Elevation
103-105    197   Datum Code
106-108    247   Station Type
111-115    248   Station Elevation WGS
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PV: N', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-16      101   Communications Type
17-23      103   Communications Freq
24         182   Guard/Transmit
25         104   Frequency Units
26         016   Continuation Record No
27         091   Application Type
28-87      186   Narrative
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('PV: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5,13       004   Section Code
7-10       006   Airport Identifier
11-12      014   ICAO Code
14-16      101   Communications Type
17-23      103   Communications Freq
24         182   Guard/Transmit
25         104   Frequency Units
26         016   Continuation Record No
27-29      106   Service Indicator
30         102   Radar Service
31         198   Modulation
32         199   Signal Emission
33-41      036   Latitude
42-51      037   Longitude
52-56      039   Magnetic Variation
57-61      092   Facility Elevation
62         181   H24 Indicator
63-68      183   Sectorization
69         029   Altitude Description
70-74      184   Communication Altitude
75-79      184   Communication Altitude (2)
80-83      185   Sector Facility
84-85      014   ICAO Code (2)
86-87      004   Section (2)
88         187   Distance Description
89-90      188   Communications Distance
91-94      200   Remote Facility
95-96      014   ICAO Code (3)
97-98      004   Section (3)
99-123     105   Call Sign
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('R_: primary', '''
1          002   Record Type
2-4        003   Customer
5-6        004   Section Code
7-11       075   From Airport/Fix
13-14      014   ICAO Code
15-16      004   Section Code (2)
17-21      075   To Airport/Fix
23-24      014   ICAO Code (2)
25-26      004   Section Code (3)
27-36      076   Company Route ID
37-39      012   Sequence Number
40-42      077   VIA
43-48      078   SID/STAR/App/Awy
49-51      003   Area Code
52-57      083   To Fix
58-59      014   ICAO Code (3)
60-61      004   Section Code (4)
62-66      084   Runway Trans
67-71      085   ENRT Trans
73-77      086   Cruise Altitude
78-81      087   Terminal/Alternate Airport
82-83      014   ICAO Code (4)
84-87      088   Alternate Distance
88-90      089   Cost Index
91-94      148   Enroute Alternate Airport
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('RA: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-11       075   Alternate Related Airport to Fix
12-13      014   Alternate Related ICAO Code
14-15      004   Alternate Section
16-17      250   Alternate Record Type
20-22      251   Distance to Alternate
23         252   Alternate Type
24-33      253   Primary Alternate Identifier
36-38      251   Distance to Alternate (2)
39         252   Alternate Type (2)
40-49      253   Additional Alternate Identifier One
52-54      251   Distance to Alternate (3)
55         252   Alternate Type (3)
56-65      253   Additional Alternate Identifier Two
68-70      251   Distance to Alternate (4)
71         252   Alternate Type (4)
72-81      253   Additional Alternate Identifier (3)
84-86      251   Distance to Alternate (5)
87         252   Alternate Type (5)
88-97      253   Additional Alternate Identifier (4)
100-102    251   Distance to Alternate (6)
103        252   Alternate Type (6)
104-113    253   Additional Alternate Identifier (5)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('TC: primary', '''
1          002   Record Type
5-6        004   Section Code
7-8        134   Cruise Table Identifier
9          012   Sequence Number
29-32      135   Course From
33-36      135   Course To
37         165   Mag/True
40-44      136   Cruise Level From
45-49      137   Vertical Separation
50-54      136   Cruise Level To 
55-59      136   Cruise Level From (2)
60-64      137   Vertical Separation (2)
65-69      136   Cruise Level To (2)
70-74      136   Cruise Level From (3)
75-79      137   Vertical Separation (3)
80-84      136   Cruise Level To (3)
85-89      136   Cruise Level From (4)
90-94      137   Vertical Separation (4)
95-99      136   Cruise Level To (4)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('TG: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        218   Geographical Ref Table ID
9          012   Sequence Number
10-38      219   Geographical Entity
39         016   Continuation Record No
40         091   Application Type
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('TG: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        218   Geographical Ref Table ID
9          012   Sequence Number
10-38      219   Geographical Entity
39         016   Continuation Record No
41-50      008   Preferred Route Ident
51-52      220   Preferred Route Use Ind
53-62      008   Preferred Route Ident (2)
63-64      220   Preferred Route Use Ind (2)
65-74      008   Preferred Route Ident (3)
75-76      220   Preferred Route Use Ind (3)
77-86      008   Preferred Route Ident (4)
87-88      220   Preferred Route Use Ind (4)
89-98      008   Preferred Route Ident (5)
99-100     220   Preferred Route Use Ind (5)
101-110    008   Preferred Route Ident (6)
111-112    220   Preferred Route Use Ind (6)
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UC: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        014   ICAO Code
9          213   Airspace Type
10-14      214   Airspace Center
15-16      004   Section Code (2)
17         215   Airspace Classification
20         130   Multiple Code
21-24      012   Sequence Number
25         016   Continuation Record No
26         091   Application Type
27         131   Time Code
28         132   NOTAM
29         138   Time Indicator
30-39      195   Time of Operations
40-49      195   Time of Operations (2)
50-59      195   Time of Operations (3)
60-69      195   Time of Operations (4)
70-79      195   Time of Operations (5)
80-89      195   Time of Operations (6)
90-99      195   Time of Operations (7)
100-123    140   Controlling Agency
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UC: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        014   ICAO Code
9          213   Airspace Type
10-14      214   Airspace Center
15-16      004   Section Code (2)
17         215   Airspace Classification
20         130   Multiple Code
21-24      012   Sequence Number
25         016   Continuation Record No
26         019   Level
27         131   Time Code
28         132   NOTAM
31-32      118   Boundary Via
33-41      036   Latitude
42-51      037   Longitude
52-60      036   Arc Origin Latitude
61-70      037   Arc Origin Longitude
71-74      119   Arc Distance
75-78      120   Arc Bearing
79-81      211   RNP
82-86      121   Lower Limit
87         133   Unit Indicator
88-92      121   Upper Limit
93         133   Unit Indicator (2)
94-123     216   Controlled Airspace Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UF: A', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       116   FIR/UIR Identifier
11-14      151   FIR/UIR Address
15         117   FIR/UIR Indicator
16-19      012   Sequence Number
20         016   Continuation Record No
21         091   Application Type
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UF: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-10       116   FIR/UIR Identifier
11-14      151   FIR/UIR Address
15         117   FIR/UIR Indicator
16-19      012   Sequence Number
20         016   Continuation Record No
21-24      116   Adjacent FIR Identifier
25-28      116   Adjacent UIR Identifier
29         122   Reporting Units Speed
30         123   Reporting Units Altitude
31         124   Entry Report
33-34      118   Boundary Via
35-43      036   FIR/UIR Latitude
44-53      037   FIR/UIR Longitude
54-62      036   Arc Origin Latitude
63-72      037   Arc Origin Longitude
73-76      119   Arc Distance
77-80      120   Arc Bearing
81-85      121   FIR Upper Limit
86-90      121   UIR Lower Limit
91-95      121   UIR Upper Limit
96-97      134   Cruise Table Ind
99-123     125   FIR/UIR Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UR: C; UR: T', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        014   ICAO Code
9          128   Restrictive Type
10-19      129   Restrictive Airspace Designation
20         130   Multiple Code
21-24      012   Sequence Number
25         016   Continuation Record No
26         091   Application Type
27         131   Time Code
28         132   NOTAM
29         138   Time Indicator
30-39      195   Time of Operations
40-49      195   Time of Operations (2)
50-59      195   Time of Operations (3)
60-69      195   Time of Operations (4)
70-79      195   Time of Operations (5)
80-89      195   Time of Operations (6)
90-99      195   Time of Operations (7)
100-123    140   Controlling Agency
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UR: P', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        014   ICAO Code
9          128   Restrictive Type
10-19      129   Restrictive Airspace Designation
20         130   Multiple Code
21-24      012   Sequence Number
25         016   Continuation Record No
26         091   Application Type
30         152   Start/End Indicator
31-41      153   Start/End Date
124-128    031   File Record No
129-132    032   Cycle Date
''')

L('UR: primary', '''
1          002   Record Type
2-4        003   Customer / Area Code
5-6        004   Section Code
7-8        014   ICAO Code
9          128   Restrictive Type
10-19      129   Restrictive Airspace Designation
20         130   Multiple Code
21-24      012   Sequence Number
25         016   Continuation Record No
26         019   Level
27         131   Time Code
28         132   NOTAM
31-32      118   Boundary Via
33-41      036   Latitude
42-51      037   Longitude
52-60      036   Arc Origin Latitude
61-70      037   Arc Origin Longitude
71-74      119   Arc Distance
75-78      120   Arc Bearing
82-86      121   Lower Limit
87         133   Unit Indicator
88-92      121   Upper Limit
93         133   Unit Indicator (2)
94-123     126   Restrictive Airspace Name
124-128    031   File Record No
129-132    032   Cycle Date
''')

