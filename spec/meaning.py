"""What each kind of field (ARINC 424 section 5.x) has to be decoded to.

Every function takes the text of the columns and the section code of the record
and returns (status, text):

  'code'    a value of the field's code table, text is its meaning
  'number'  a quantity, text is the quantity with its scale and unit
  'text'    an identifier, coordinate, name or note: shown as it stands
  'blank'   nothing recorded: shown as it stands (or as nothing)
  'unknown' not a value of the field: text says so or repeats the value
  'refuse'  not a value of the field: decoding has to fail with a ValueError

The module is evaluated by the analysis, never together with the package.
"""
from .tables import *

UNKNOWN = '<UNKNOWN>'


def refuse():
  return ('refuse', None)


def table(v, tab, otherwise=None):
  """a code of a table, or the text for any other value (the value itself)"""
  if v in tab:
    return ('code', tab[v])
  if otherwise is None:
    return ('unknown', v)
  return ('unknown', otherwise)


def blank(v):
  return v.strip() == ''


def unsupported(v):
  return ('unknown', 'Unsupported Value: "' + v + '"')


# ------------------------------------------------------------- code tables

def m_002(v, ident):
  if v == 'S':
    return ('code', 'Standard')
  if v == 'T':
    return ('code', 'Tailored')
  return refuse()


def m_003(v, ident):
  return table(v, AREA, UNKNOWN)


def m_004(v, ident):
  if blank(v):
    return ('blank', v)
  return table(v, SECTION, UNKNOWN)


ROUTES = {'ER': ROUTE_AIRWAY, 'ET': ROUTE_PREFERRED, 'PD': ROUTE_SID, 'HD': ROUTE_SID, 'PE': ROUTE_STAR,
          'HE': ROUTE_STAR, 'PF': ROUTE_APPROACH, 'HF': ROUTE_APPROACH}


def m_007(v, ident):
  return table(v, ROUTES.get(ident, {}), UNKNOWN)


def m_016(v, ident):
  if v == '0':
    return ('code', 'Primary Record')
  if v == '1':
    return ('code', 'Primary Record (with Cont.)')
  return ('code', v + ' - Continuation')


def m_017(v, ident):
  parts = ''
  for ch, tab in ((v[0], WPT_DESC_1), (v[1], WPT_DESC_2), (v[2], WPT_DESC_3), (v[3], WPT_DESC_4)):
    parts = parts + (tab[ch] + '\n' if ch in tab else '')
  return ('code', parts.strip('\n'))


def m_020(v, ident):
  if v == 'R':
    return ('code', 'Right')
  if v == 'L':
    return ('code', 'Left')
  if v in ('E', ' '):
    return ('code', 'Either')
  return refuse()


def m_021(v, ident):
  s = v.strip()
  if s == '':
    return ('blank', '')
  if not s.isalpha():
    return refuse()
  return table(s, LEG, UNKNOWN)


def m_042(v, ident):
  if v[0] == 'N':
    return ('code', WPT_TYPE_1['N'] + v[1:])
  if v[0] in WPT_TYPE_1:
    return ('code', WPT_TYPE_1[v[0]])
  return table(v[1], WPT_TYPE_2, 'Unknown Waypoint Type')


def m_049(v, ident):
  return table(v, MARKER_POSITION)


def m_082(v, ident):
  if v[1] == 'B':
    return ('code', 'HI and LO Altitude')
  if v[1] == 'H':
    return ('code', 'HI Altitude')
  if v[1] == 'L':
    return ('code', 'LO Altitude')
  if v[1] == ' ':
    return ('code', 'Terminal Use Only')
  if v[0] == 'R':
    return ('code', 'RNAV')
  return refuse()


def m_091(v, ident):
  return table(v, APPLICATION, 'Unknown Application Type: ' + v)


def m_101(v, ident):
  return table(v, COMM_TYPE, UNKNOWN)


def m_102(v, ident):
  return table(v, RADAR)


def m_104(v, ident):
  return table(v, FREQ_UNITS, UNKNOWN)


def m_106(v, ident):
  if blank(v):
    return ('blank', v)
  return table(v, SERVICE, UNKNOWN)


def m_108(v, ident):
  if v in IFR:
    return ('code', IFR[v])
  return refuse()


def m_112(v, ident):
  return table(v, SHAPE)


def m_113(v, ident):
  return table(v, POWER)


def m_117(v, ident):
  return table(v, {'F': 'FIR', 'U': 'UIR', 'B': 'Combined FIR/UIR'})


def m_118(v, ident):
  if v[0] not in BOUNDARY:
    return unsupported(v)
  if v[1] == 'E':
    return ('code', BOUNDARY[v[0]] + ', End of description, return to origin point')
  return ('code', BOUNDARY[v[0]])


def m_165(v, ident):
  return table(v, {'M': 'Magnetic', 'T': 'True'})


def m_177(v, ident):
  if v in PUBLIC:
    return ('code', PUBLIC[v])
  return unsupported(v)


HOURS = {'Z': '+0', 'N': '+1', 'O': '+2', 'P': '+3', 'Q': '+4', 'R': '+5', 'S': '+6', 'T': '+7', 'U': '+8',
         'V': '+9', 'W': '+10', 'X': '+11', 'Y': '+12', 'A': '-1', 'B': '-2', 'C': '-3', 'D': '-4', 'E': '-5',
         'F': '-6', 'G': '-7', 'H': '-8', 'I': '-9', 'K': '-10', 'L': '-11', 'M': '-12'}


def m_178(v, ident):
  if v[0] in HOURS and v[1:].isnumeric():
    return ('code', 'GMT ' + HOURS[v[0]] + ':' + v[1:])
  return unsupported(v)


def m_179(v, ident):
  if v in DAYLIGHT:
    return ('code', DAYLIGHT[v])
  return unsupported(v)


def m_181(v, ident):
  return table(v, H24, UNKNOWN)


def m_182(v, ident):
  if v in GUARD:
    return ('code', GUARD[v])
  return refuse()


def m_196(v, ident):
  if v[0] in NAME_FORMAT_1:
    return ('code', NAME_FORMAT_1[v[0]])
  return table(v[1], NAME_FORMAT_2, 'Unknown Name Format Indicator')


def m_198(v, ident):
  return table(v, MODULATION, UNKNOWN)


def m_199(v, ident):
  if blank(v):
    return ('blank', v)
  return table(v, EMISSION, UNKNOWN)


def m_270(v, ident):
  if v in TCH:
    return ('code', TCH[v])
  return refuse()


# ------------------------------------------------------------- quantities

def plain(digits):
  """digits without leading zeros"""
  s = digits.lstrip('0')
  if s == '':
    return '0'
  return s


def feet(v, ident):
  if v.isdigit():
    return ('number', plain(v) + ' ft')
  return ('unknown', v)


def hundreds(v, ident):
  if v.isdigit():
    return ('number', plain(v + '00') + ' ft')
  return ('unknown', v)


def shift(digits, places):
  """the decimal text of digits / 10**places with that many decimals"""
  whole = digits[:-places] if len(digits) > places else ''
  frac = digits[-places:]
  if len(frac) < places:
    frac = '0' * (places - len(frac)) + frac
  return plain(whole) + '.' + frac


def short(digits):
  """digits / 10 as Python shows the number"""
  return shift(digits, 1)


def m_012(v, ident):
  n = len(v.strip())
  if n == 1:
    return ('number', 'MSA Table, TAA Table, Cruise Table - Sequence No. ' + v)
  if n == 2:
    return ('number', 'VHF Navaid Limitation Continuation Records - Sequence No. ' + v)
  if n == 3:
    return ('number', 'SID/STAR/Approach and Company Routes - Sequence No. ' + v)
  if n == 4:
    return ('number', 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. ' + v)
  return ('unknown', v)


def m_026(v, ident):
  s = v.strip()
  if s == '':
    return ('blank', '')
  if s.isalnum() and len(s) <= 4:
    if s[-1] == 'T':
      return ('number', s)
    if s.isdigit():
      return ('number', shift(s, 1))
  return refuse()


def m_027(v, ident):
  s = v.strip()
  if s == '':
    return ('blank', '')
  if s.isdigit():
    return ('number', shift(s, 1) + ' nm')
  if s[0] == 'T' and s[1:].isdigit():
    return ('number', shift(s[1:], 1) + ' min')
  return refuse()


def m_032(v, ident):
  if v[:2].isdigit():
    century = '19' if v[0] > '5' or (v[0] == '5' and v[1] != '0') else '20'
    return ('number', century + v[:2] + ', Release ' + v[2:])
  return refuse()


def m_034(v, ident):
  s = v.strip()
  if s == '':
    return ('blank', '')
  if not s.isdigit():
    return refuse()
  if ident in ('DB', 'PN', 'PM'):
    return ('number', shift(s, 1))
  return ('number', shift(s, 2))


def m_039(v, ident):
  if blank(v):
    return ('blank', v)
  if v[1:].isdigit():
    return ('number', shift(v[1:], 1) + ' ' + v[0])
  return refuse()


def hundredths(v, ident):
  if v.isdigit():
    return ('number', shift(v, 2))
  return ('unknown', 'BAD VALUE')


def tenths(v, ident):
  if v.isdigit():
    return ('number', short(v))
  return ('unknown', 'BAD VALUE')


SIXTHS = {'0': '0', '1': '6', '2': '12', '3': '18', '4': '24', '5': '30', '6': '36', '7': '42', '8': '48', '9': '54'}


def m_065(v, ident):
  if blank(v):
    return ('blank', v)
  if v[0].isdigit() and v[1].isdigit():
    return ('number', v[0] + 'm ' + SIXTHS[v[1]] + 's')
  return ('unknown', 'Invalid Value: "' + v + '"')


def m_072(v, ident):
  if v.isdigit():
    return ('number', v + ' knots (IAS)')
  if blank(v):
    return ('blank', v)
  return refuse()


def m_269(v, ident):
  if blank(v):
    return ('blank', v)
  s = v.strip(' \t\n\r\x0b\x0c')
  if s.isdigit():
    return ('number', short(s))
  return refuse()


# ------------------------------------------------------------- text

def verbatim(v, ident):
  return ('text', v)


def m_008(v, ident):
  if v.strip().isalnum():
    return ('text', v)
  return refuse()


def m_010(v, ident):
  return ('text', 'Approach: ' + v[0] + ', Runway: ' + v[1:4])


def m_022(v, ident):
  s = v.strip()
  if s == '' or s.isalpha():
    return ('text', s)
  return refuse()


def m_023(v, ident):
  s = v.strip()
  if s == '' or (s.isalnum() and len(s) <= 4):
    return ('text', s)
  return refuse()


m_024 = m_023
m_025 = m_023


def m_043(v, ident):
  return ('text', v.strip())


FEET = ('029', '030', '048', '050', '053', '073', '086', '092', '123', '127', '161', '184', '209', '240')

MEANING = {
    '002': m_002, '003': m_003, '004': m_004, '007': m_007, '008': m_008, '010': m_010, '012': m_012, '016': m_016,
    '017': m_017, '020': m_020, '021': m_021, '022': m_022, '023': m_023, '024': m_024, '025': m_025, '026': m_026,
    '027': m_027, '032': m_032, '034': m_034, '039': m_039, '042': m_042, '043': m_043, '045': hundredths,
    '049': m_049, '054': hundreds, '062': tenths, '065': m_065, '072': m_072, '082': m_082, '091': m_091,
    '101': m_101, '102': m_102, '103': hundredths, '104': m_104, '106': m_106, '108': m_108, '112': m_112,
    '113': m_113, '117': m_117, '118': m_118, '135': tenths, '147': hundreds, '165': m_165, '177': m_177,
    '178': m_178, '179': m_179, '181': m_181, '182': m_182, '196': m_196, '198': m_198, '199': m_199,
    '269': m_269, '270': m_270,
}
for _n in FEET:
  MEANING[_n] = feet


def meaning(kind):
  return MEANING.get(kind, verbatim)
