"""When a line is a record, of which kind, and which layout applies.

Evaluated by the analysis next to the package's own reading of the same line.
"""
from .layouts import LAYOUTS, CONTINUATION

IDENTS = ('AS', 'D ', 'DB', 'EA', 'EM', 'EP', 'ER', 'ET', 'EU', 'EV', 'HA', 'HC', 'HD', 'HE', 'HF', 'HK', 'HS',
          'HV', 'PA', 'PB', 'PC', 'PD', 'PE', 'PF', 'PG', 'PI', 'PK', 'PL', 'PM', 'PN', 'PP', 'PR', 'PS', 'PT',
          'PV', 'R ', 'RA', 'TC', 'TG', 'UC', 'UF', 'UR')


def wellformed(text):
  """a standard or tailored record of 132 columns with file record number and cycle date"""
  return len(text) == 132 and text[0] in ('S', 'T') and text[123:132].isdigit()


def section(text):
  """section and subsection code: columns 5-6, or 5 and 13"""
  if text[4:6] in IDENTS:
    return text[4:6]
  if text[4] + text[12] in IDENTS:
    return text[4] + text[12]
  return None


def classify(line):
  """(reason it is no record) or (section code, number, layout)"""
  text = line.strip()
  if not wellformed(text):
    return ('form',)
  ident = section(text)
  if ident is None:
    return ('section',)
  if ident not in CONTINUATION:
    return (ident, '', 'primary')
  cont, app = CONTINUATION[ident]
  number = text[cont - 1]
  if not number.isalnum():
    return ('number',)
  primary = number == '0' or number == '1'
  kind = text[app[0] - 1:app[-1]]
  if ident == 'EU':
    sel = ('primary ' if primary else 'cont ') + kind
  elif primary:
    sel = 'primary'
  else:
    sel = kind
  if (ident, sel) not in LAYOUTS:
    return ('application',)
  return (ident, number, sel)
