"""What the code tables of ARINC 424 chapter 5 mean, as this package words them.

Reviewed against the field descriptions of the standard; the numbers in the
comments are its section numbers (5.x).
"""
# 5.3
AREA = {
    'USA': 'United States of America',
    'AFR': 'Africa',
    'CAN': 'Canada',
    'EEU': 'Eastern Europe and Asia',
    'EUR': 'Europe',
    'LAM': 'Latin America',
    'MES': 'Middle East',
    'PAC': 'Pacific',
    'SAM': 'Southern America',
    'SPA': 'South Pacific',
}
# 5.4
SECTION = {
    'AS': 'Grid MORA',
    'D ': 'VHF Navaid',
    'DB': 'NDB Navaid',
    'EA': 'Waypoint',
    'EM': 'Airways Marker',
    'EP': 'Holding Pattern',
    'ER': 'Airways and Route',
    'ET': 'Preferred Route',
    'EU': 'Airway Restrictions',
    'EV': 'Enroute Communication',
    'HA': 'Heliport Pads',
    'HC': 'Heliport Terminal Waypoint',
    'HD': 'Heliport SID',
    'HE': 'Heliport STAR',
    'HF': 'Heliport Approach Procedure',
    'HK': 'Heliport TAA',
    'HS': 'Heliport MSA',
    'HV': 'Heliport Communication',
    'PA': 'Airport Reference Point',
    'PB': 'Airport Gates',
    'PC': 'Airport Terminal Waypoint',
    'PD': 'Airport SID',
    'PE': 'Airport STAR',
    'PF': 'Airport Approach Procedure',
    'PG': 'Airport Runway',
    'PI': 'Airport Localizer/Glideslope',
    'PK': 'Airport TAA',
    'PL': 'Airport MLS',
    'PM': 'Airport Localizer Marker',
    'PN': 'Airport Terminal',
    'PP': 'Airport Path',
    'PR': 'Airport Flt Planning ARR/DEP',
    'PS': 'Airport MSA',
    'PT': 'Airport GLS Station',
    'PV': 'Airport Communication',
    'R ': 'Company Route',
    'RA': 'Alternate Record',
    'TC': 'Cruising Table',
    'TG': 'Geographical Reference',
    'TN': 'RNAV Name Table',
    'UC': 'Controller Airspace',
    'UF': 'Airspace FIR/UIR',
    'UR': 'Restrictive Airspace',
}
# 5.21
LEG = {
    'IF': 'Initial Fix or IF Leg.',
    'TF': 'Track to a Fix or TF Leg.',
    'CF': 'Course to a Fix or CF Leg.',
    'DF': 'Direct to a Fix or DF Leg.',
    'FA': 'Fix to an Altitude or FA Leg.',
    'FC': 'Track from a Fix for a Distance or FC Leg.',
    'FD': 'Track from a Fix to a DME Distance or FD Leg.',
    'FM': 'From a Fix to a Manual termination or FM Leg.',
    'CA': 'Course to an Altitude or CA Leg.',
    'CD': 'Course to a DME Distance or CD Leg.',
    'CI': 'Course to an Intercept or CI Leg.',
    'CR': 'Course to a Radial termination or CR Leg.',
    'RF': 'Constant Radius Arc or RF Leg.',
    'AF': 'Arc to a Fix or AF Leg.',
    'VA': 'Heading to an Altitude termination or VA Leg.',
    'VD': 'Heading to a DME Distance termination or VD Leg.',
    'VI': 'Heading to an Intercept or VI Leg.',
    'VM': 'Heading to a Manual termination or VM Leg.',
    'VR': 'Heading to a Radial termination or VR Leg.',
    'PI': '045/180 Procedure Turn or PI Leg.',
    'HA': 'Holding pattern (Altitude Termination)',
    'HF': 'Holding pattern (Single circuit terminating at the fix)',
    'HM': 'Holding pattern (Manual Termination)',
}
# 5.7
ROUTE_AIRWAY = {
    'A': 'Airline Airway (Tailored Data)',
    'C': 'Control',
    'D': 'Direct Route',
    'H': 'Helicopter Airways',
    'O': 'Officially Designated Airways',
    'R': 'RNAV Airways',
    'S': 'Undesignated ATS Route',
}
ROUTE_PREFERRED = {
    'C': 'North American Routes for North Atlantic Traffic Common Portion',
    'D': 'Preferential Routes',
    'J': 'Pacific Oceanic Transition Routes (PACOTS)',
    'M': 'RNAV Airways',
    'N': 'Undesignated ATS Route',
}
ROUTE_SID = {
    '0': 'Engine Out SID',
    '1': 'SID Runway Transition',
    '2': 'SID or SID Common Route',
    '3': 'SID Enroute Transition',
    '4': 'RNAV SID Runway Transition',
    '5': 'RNAV SID or SID Common Route',
    '6': 'RNAV SID Enroute Transition',
    'F': 'FMS SID Runway Transition',
    'M': 'FMS SID or SID Common Route',
    'S': 'FMS SID Enroute Transition',
    'R': 'RNP SID Runway Transition',
    'N': 'RNP SID or SID Common Route',
    'P': 'RNP SID Enroute Transition',
    'T': 'Vector SID Runway Transition',
    'V': 'Vector SID Enroute Transition',
}
ROUTE_STAR = {
    '1': 'STAR Enroute Transition',
    '2': 'STAR or STAR Common Route',
    '3': 'STAR Runway Transition',
    '4': 'RNAV STAR Enroute Transition',
    '5': 'RNAV STAR or STAR Common Route',
    '6': 'RNAV STAR Runway Transition',
    '7': 'Profile Descent Enroute Transition',
    '8': 'Profile Descent Common Route',
    '9': 'Profile Descent Runway Transition',
    'F': 'FMS STAR Enroute Transition',
    'M': 'FMS STAR or STAR Common Route',
    'S': 'FMS STAR Runway Transition',
    'R': 'RNP STAR Enroute Transition',
    'N': 'RNP STAR or STAR Common Route',
    'P': 'RNP STAR Runway Transition',
}
ROUTE_APPROACH = {
    'A': 'Approach Transition',
    'B': 'Localizer/Backcourse Approach',
    'D': 'VORDME Approach',
    'F': 'Flight Management System (FMS) Approach',
    'G': 'Instrument Guidance System (IGS) Approach',
    'H': 'Area Navigation (RNAV) Approach with Required Navigation Performance (RNP) Approach',
    'I': 'Instrument Landing System (ILS) Approach',
    'J': 'GNSS Landing System (GLS) Approach',
    'L': 'Localizer Only (LOC) Approach',
    'M': 'Microwave Landing System (MLS) Approach',
    'N': 'Non-Directional Beacon (NDB) Approach',
    'P': 'Global Position System (GPS) Approach',
    'Q': 'Non-Directional Beacon + DME (NDB+DME) Approach',
    'R': 'Area Navigation (RNAV) Approach (Note 1)',
    'S': 'VOR Approach using VORDME/VORTAC',
    'T': 'TACAN Approach',
    'U': 'Simplified Directional Facility (SDF) Approach',
    'V': 'VOR Approach',
    'W': 'Microwave Landing System (MLS), Type A Approach',
    'X': 'Localizer Directional Aid (LDA) Approach',
    'Y': 'Microwave Landing System (MLS), Type B and C Approach',
    'Z': 'Missed Approach',
}
# 5.17
WPT_DESC_1 = {
    'A': 'Airport as Waypoint',
    'E': 'Essential Waypoint',
    'F': 'Off Airway Waypoint',
    'G': 'Runway/Helipad as Waypoint',
    'H': 'Heliport as Waypoint',
    'N': 'NDB Navaid as Waypoint',
    'P': 'Phantom Waypoint',
    'R': 'Non-Essential Waypoint',
    'T': 'Transition Essential Waypoint',
    'V': 'VHF Navaid as Waypoint',
}
WPT_DESC_2 = {
    'B': 'Flyover Waypoint: End of SID/STAR Route Type, APCH Transition or Final Approach',
    'E': 'End of Enroute Airway or Terminal Procedure Route Type',
    'U': 'Uncharted Airway Intersection',
    'Y': 'Fly-Over Waypoint',
}
WPT_DESC_3 = {
    'A': 'Unnamed Stepdown Fix After Final Approach Fix',
    'B': 'Unnamed Stepdown Fix Before Final Approach Fix',
    'C': 'ATC Compulsory Waypoint',
    'G': 'Oceanic Gateway Waypoint',
    'M': 'First Leg of Missed Approach Procedure',
    'P': 'Path Point Fix',
    'R': 'Fix used for turning final approach',
    'S': 'Named Stepdown Fix',
}
WPT_DESC_4 = {
    'A': 'Initial Approach Fix',
    'B': 'Intermediate Approach Fix',
    'C': 'Initial Approach Fix with Holding',
    'D': 'Initial Approach Fix with Final Approach Course Fix',
    'E': 'Final End Point Fix',
    'F': 'Published Final Approach Fix or Database Final Approach Fix',
    'H': 'Holding Fix',
    'I': 'Final Approach Course Fix',
    'M': 'Published Missed Approach Point Fix',
}
# 5.42
WPT_TYPE_1 = {
    'C': 'Combined Named Intersection and RNAV',
    'I': 'Unnamed, Charted Intersection',
    'N': 'NDB Navaid as Waypoint',
    'R': 'Named Intersection',
    'U': 'Uncharted Airway Intersection',
    'V': 'VFR Waypoint',
    'W': 'RNAV Waypoint',
}
WPT_TYPE_2 = {
    'A': 'Final Approach Fix',
    'B': 'Initial and Final Approach Fix',
    'C': 'Final Approach Course Fix',
    'D': 'Intermediate Approach Fix',
    'E': 'Off-Route intersection in FAA National Reference System',
    'F': 'Off-Route Intersection',
    'I': 'Initial Approach Fix',
    'K': 'Final Approach Course Fix at Initial Approach Fix',
    'L': 'Final Approach Course Fix at Intermediate Approach Fix',
    'M': 'Missed Approach Fix',
    'N': 'Initial Approach Fix and Missed Approach Fix',
    'O': 'Oceanic Entry/Exit Waypoint',
    'P': 'Pitch and Catch Point in the FAA High Altitude Redesign',
    'S': 'AACAA and SUA Waypoints in the FAA High Altitude Redesign',
    'U': 'FIR/UIR or Controlled Airspace Intersection',
    'V': 'Latitude/Longitude Intersection, Full Degree of Latitude',
    'W': 'Latitude/Longitude Intersection, Half Degree of Latitude',
}
# 5.196
NAME_FORMAT_1 = {
    'A': 'Abeam Fix',
    'B': 'Bearing and Distance Fix ',
    'D': 'Airport Name as Fix',
    'F': 'FIR Fix',
    'H': 'Phonetic Letter Name Fix',
    'I': 'Airport Ident as Fix',
    'L': 'Latitude/Longitude Fix ',
    'M': 'Multiple Word Name Fix',
    'N': 'Navaid Ident as Fix',
    'P': 'Published Five - Letter - Name - Fix',
    'Q': 'Published Name Fix, less than five letters',
    'R': 'Published Name Fix, more than five letters',
    'T': 'Airport/Rwy Related Fix (Note 2)',
    'U': 'UIR Fix',
}
NAME_FORMAT_2 = {
    'O': 'Localizer Marker with officially published five - letter identifier',
    'M': 'Localizer Marker without officially published five - letter identifier',
}
MARKER_POSITION = {
    '@': 'Beyond stop end of runway',
    '+': 'Ahead of approach end of runway',
    '-': 'To the side of runway',
}
APPLICATION = {
    'A': 'Standard ARINC Continuation containing notes or other formatted data',
    'B': 'Combined Controlling Agency/Call Sign and formatted Time of Operation',
    'C': 'Call Sign/Controlling Agency Continuation',
    'E': 'Primary Record Extension',
    'L': 'VHF Navaid Limitation Continuation',
    'N': 'Sector Narrative Continuation',
    'T': 'Time of Operations Continuation "formatted time data"',
    'U': 'Time of Operations Continuation "Narrative time data"',
    'V': 'Time of Operations Continuation, Start/End Date',
    'P': 'Flight Planning Application Continuation',
    'Q': 'Flight Planning Application Primary Data Continuation',
    'S': 'Simulation Application Continuation',
    'W': 'Airport or Heliport Procedure Data Continuation with SBAS use authorization information',
}
RADAR = {
    'R': 'Radar Capabilities',
    'N': 'No Radar Capabilities',
}
IFR = {
    'Y': 'Official',
    'N': 'Non-official',
}
SHAPE = {
    'E': 'Elliptical',
    'B': 'Bone',
}
POWER = {
    'H': 'High Power (general use)',
    'L': 'Low Power (low altitude use)',
}
BOUNDARY = {
    'C': 'Circle',
    'G': 'Great Circle',
    'H': 'Rhumb Line',
    'L': 'Counter Clockwise ARC',
    'R': 'Clockwise ARC',
}
PUBLIC = {
    'C': 'Public / Civil',
    'M': 'Military',
    'P': 'Private (not open to public)',
}
DAYLIGHT = {
    'Y': 'Yes',
    'N': 'No',
}
GUARD = {
    'G': 'Guard (radio receives on this freq)',
    'T': 'Transmit (radio transmits on this freq)',
    ' ': 'Guards and Transmits',
}
TCH = {
    'I': 'ILS or MLS Glideslope',
    'R': 'RNAV Procedure',
    'V': 'Visual Glideslope Indicator (VGSI)',
    'D': 'Default Value (40 or 50 feet)',
    ' ': ' ',
}
COMM_TYPE = {
    'ACC': 'Area Control Center',
    'ACP': 'Airlift Command Post',
    'AIR': 'Air to Air',
    'APP': 'Approach Control',
    'ARR': 'Arrival Control',
    'ASO': 'Automatic Surface Observing System (ASOS)',
    'ATI': 'Automatic Terminal Info Service (ATIS)',
    'AWI': 'Airport Weather Information Broadcast (AWIB)',
    'AWO': 'Automatic Weather Observing Service (AWOS)',
    'AWS': 'Aerodrome Weather Information Services (AWIS)',
    'CLD': 'Clearance Delivery',
    'CPT': 'Clearance, Pre-Taxi',
    'CTA': 'Control Area (Terminal)',
    'CTL': 'Control',
    'DEP': 'Departure Control',
    'DIR': 'Director (Approach Control Radar)',
    'EFS': 'Enroute Flight Advisory Service (EFAS)',
    'EMR': 'Emergency',
    'FSS': 'Flight Service Station',
    'GCO': 'Ground Comm Outlet',
    'GND': 'Ground Control',
    'GTE': 'Gate Control',
    'HEL': 'Helicopter Frequency',
    'INF': 'Information',
    'MIL': 'Military Frequency',
    'MUL': 'Multicom',
    'OPS': 'Operations',
    'PAL': 'Pilot Activated Lighting (Note 1)',
    'RDO': 'Radio',
    'RDR': 'Radar',
    'RFS': 'Remote Flight Service Station (RFSS)',
    'RMP': 'Ramp/Taxi Control',
    'RSA': 'Airport Radar Service Area (ARSA)',
    'TCA': 'Terminal Control Area',
    'TMA': 'Terminal Control Area',
    'TML': 'Terminal',
    'TRS': 'Terminal Radar Service Area (TRSA)',
    'TWE': 'Transcribe Weather Broadcast (TWEB)',
    'TWR': 'Tower, Air Traffic Control',
    'UAC': 'Upper Area Control',
    'UNI': 'Unicom',
    'VOL': 'Volmet',
}
FREQ_UNITS = {
    'H': 'High Frequency (3000 kHz - 30,000 kHz)',
    'V': 'Very High Frequency (30,000 kHz - 200 MHz)',
    'U': 'Ultra High Frequency (200 MHz - 3000 MHz)',
    'C': 'Communication Channel for 8.33 kHz spacing',
}
SERVICE = {
    'A  ': 'Airport Advisory Serivce (AAS)',
    'C  ': 'Community Aerodrome Radio Station (CARS)',
    'D  ': 'Departure Service (Other than Departure Control Unit)',
    'F  ': 'Flight Information Serivce (FIS)',
    'I  ': 'Initial Contact (IC)',
    'L  ': 'Arrival Service (Other than Arrival Control Unit)',
    'P  ': 'Pre-Departure Clearance (Data Link Service)',
    'S  ': 'Aerodrome Flight Information Service (AFIS)',
    'T  ': 'Terminal Area Control (Other than dedicated Terminal Control Unit)',
    ' A ': 'Aerodrome Traffic Frequency (ATF)',
    ' C ': 'Common Traffic Advisory Frequency (CTAF)',
    ' M ': 'Mandatory Frequency (MF) ',
    ' R ': 'Air/Air',
    ' S ': 'Secondary Frequency',
    '  A': 'Air/Ground',
    '  D': 'VHF Direction Finding Service (VDF)',
    '  G': 'Remote Communications Air to Ground (RCAG)',
    '  L': 'Language other than English',
    '  M': 'Military Use Frequency',
    '  P': 'Pilot Controlled Light (PCL)',
    '  R': 'Remote Communications Outlet (RCO)',
}
H24 = {
    'Y': '24-Hour Availability',
    'N': 'Part-time Availability',
}
MODULATION = {
    'A': 'Amplitude Modulated',
    'F': 'Frequency Modulated',
}
EMISSION = {
    '3': 'Double Sideband (A3) ',
    'A': 'Single sideband, reduced carrier (A3A) ',
    'B': 'Two Independent sidebands (A3B)',
    'H': 'Single sideband, full carrier (A3H) ',
    'J': 'Single sideband, suppressed carrier (A3J)',
    'L': 'Lower (single) sideband, carrier unknown',
    'U': 'Upper (single) sideband, carrier unknown',
}
