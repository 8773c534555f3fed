"""enum, namedtuple, ExitStack, os.listdir, generators, partial, reduce, translate, itemgetter, suppress, registry"""
import re, glob


def sub1(s, a, b, must=True):
  assert not must or a in s, a
  return s.replace(a, b)


def apply(src):
  p = src + '/decoder.py'; s = open(p).read()
  i, j = s.index('class Field():'), s.index('# This file decodes fields')
  s = s[:i] + '''class Field(namedtuple('Field', 'name value decode_fn')):
  __slots__ = ()

  def decode(self, record):
    return self.decode_fn(self.value, record)


class Side(Enum):
  RIGHT = 'R'
  LEFT = 'L'
  EITHER = 'E'

  @classmethod
  def of(cls, text):
    return cls('E' if text == ' ' else text)


def _scaled(value, by, digits):
  whole = float(value) / by
  return format(whole, '.%df' % digits)


_tenths = partial(_scaled, by=10, digits=1)
_hundredths = partial(_scaled, by=100, digits=2)


def _feet(value):
  if not value.isnumeric():
    return value
  digits = ''.join(dropwhile(lambda c: c == '0', value))
  return f"{digits if digits else 0} ft"


def _alnum4(text, what):
  text = text.strip()
  bad = bool(text) and (not text.isalnum() or len(text) > 4)
  if bad:
    raise ValueError(what, text)
  return text


''' + s[j:]
  s = s.replace('import io\n', 'import io\nfrom collections import namedtuple\nfrom enum import Enum\nfrom functools import partial, reduce\nfrom itertools import dropwhile, chain\nfrom contextlib import suppress\nfrom operator import itemgetter\nfrom types import MappingProxyType\n', 1)
  n = s.count("""  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value""")
  assert n > 5
  s = s.replace("""  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value""", "  return _feet(value)")
  for nm, t in (('Recommended NAVAID (RECD NAV)', 0), ('Theta', 0), ('Rho', 0)):
    s = sub1(s, '''  value = value.strip()
  if len(value) > 0:
    if value.isalnum() is False or len(value) > 4:
      raise ValueError("Invalid %s:", value)
  return value''' % nm, '''  return _alnum4(value, "Invalid %s:")''' % nm)
  s = sub1(s, '''  if value == 'R':
    return 'Right'
  elif value == 'L':
    return 'Left'
  # TODO check this
  elif value == 'E' or value == ' ':
    return 'Either'
  else:
    raise ValueError("Invalid Turn Direction:", value)''', '''  try:
    side = Side.of(value)
  except ValueError:
    raise ValueError("Invalid Turn Direction:", value) from None
  return side.name.capitalize()''')
  s = sub1(s, '''    if value.removeprefix('T').isnumeric() is False:
      raise ValueError('Invalid Route Distance or Holding Distance/Time', value)
    if value[0] == 'T':
      return "{:.1f} min".format(float(value[1:]) / 10)
    else:
      return "{:.1f} nm".format(float(value) / 10)

  return value''', '''    timed = value.startswith('T')
    digits = value[timed:]
    if not digits.isnumeric():
      raise ValueError('Invalid Route Distance or Holding Distance/Time', value)
    return ' '.join((_tenths(digits), ('nm', 'min')[timed]))

  return value''')
  s = sub1(s, '''  # Handle the 'T' in the tenths position for degrees true
  if value.endswith('T'):
    return value
  elif value.isnumeric() is False:
    raise ValueError('Invalid Outbound Magnetic Course', value)
  else:
    return "{:.1f}".format(float(value) / 10)''', '''  # Handle the 'T' in the tenths position for degrees true
  if value[-1] != 'T':
    if not all(c.isnumeric() for c in value):
      raise ValueError('Invalid Outbound Magnetic Course', value)
    value = _tenths(value)
  return value''')
  s = sub1(s, '''  year = "19" + value[:2] if int(value[:2]) > 50 else "20" + value[:2]
  return '{}, Release {}'.format(year, value[2:])''', '''  yy, release = map(itemgetter(slice(None, 2), slice(2, None)), [value]).__next__()
  century = 19 if 50 < int(yy) <= 99 else 20
  return '%d%s, Release %s' % (century, yy, release)''')
  s = sub1(s, '''    if record.ident in ('DB', 'PN', 'PM'):
      return "{:.1f}".format(float(value)/10)
    return "{:.2f}".format(float(value)/100)''', '''    shown = _tenths if {'DB', 'PN', 'PM'} & {record.ident} else _hundredths
    return shown(value)''')
  s = sub1(s, '''  match len(value.strip()):
    case 1:
      return f'MSA Table, TAA Table, Cruise Table - Sequence No. {value}'
    case 2:
      return f'VHF Navaid Limitation Continuation Records - Sequence No. {value}'
    case 3:
      return f'SID/STAR/Approach and Company Routes - Sequence No. {value}'
    case 4:
      return f'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. {value}'
    case _:
      return value''', '''  what = (None,
          'MSA Table, TAA Table, Cruise Table',
          'VHF Navaid Limitation Continuation Records',
          'SID/STAR/Approach and Company Routes',
          'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace')
  with suppress(IndexError):
    use = what[len(value.strip())]
    if use is not None:
      return use + ' - Sequence No. ' + value
  return value''')
  # 017 : table driven
  i = s.index("  s = io.StringIO()\n  match value[0]:\n    case 'A':\n      s.write('Airport as Waypoint"); j = s.index("  return s.getvalue().strip()\n\n\n# 5.18")
  body = s[i:j]
  tabs = []
  for part in body.split('  match value[')[1:]:
    tabs.append(dict(re.findall(r"case '(.)':\n\s+s.write\('(.*)\\n'\)", part)))
  assert len(tabs) == 4 and all(tabs)
  s = s[:i] + '''  notes = (table.get(code) for table, code in zip(_WAYPOINT_NOTES, value))
  return '\\n'.join(filter(None, notes))


# 5.18''' + s[j + len("  return s.getvalue().strip()\n\n\n# 5.18"):]
  s = s.replace('# 5.17 Waypoint Description Code (DESC CODE)', '_WAYPOINT_NOTES = tuple(map(MappingProxyType, %r))\n\n\n# 5.17 Waypoint Description Code (DESC CODE)' % tabs, 1)
  # 091: match -> table with format_map
  i = s.index('def field_091'); j = s.index('\n# 5.92', i)
  d = dict(re.findall(r"case '(.)':\n\s+return '(.*)'", s[i:j]))
  assert len(d) > 8
  s = s[:i] + '''def field_091(value, record):
  known = reduce(lambda acc, kv: {**acc, kv[0]: kv[1]}, _APPLICATIONS, {})
  if value in known:
    return known[value]
  return f'Unknown Application Type: {value!s}'


_APPLICATIONS = ''' + repr(sorted(d.items())) + '\n\n' + s[j:]
  s = sub1(s, '''  wp = ''
  if value[1] == 'B':
    wp = wp + 'HI and LO Altitude'
  elif value[1] == 'H':
    wp = wp + 'HI Altitude'
  elif value[1] == 'L':
    wp = wp + 'LO Altitude'
  elif value[1] == ' ':
    wp = wp + 'Terminal Use Only'
  elif value[0] == 'R':
    wp = wp + 'RNAV'
  else:
    raise ValueError(f"Invalid Waypoint Usage: '{value}'")
  return wp''', '''  first, second = value
  for mark, text in zip('BHL ', ('HI and LO Altitude', 'HI Altitude', 'LO Altitude', 'Terminal Use Only')):
    if second == mark:
      break
  else:
    if first != 'R':
      raise ValueError(f"Invalid Waypoint Usage: '{value}'")
    text = 'RNAV'
  return text''')
  s = sub1(s, '''  try:
    return '{}m {}s'.format(int(value[0]), int(value[1])*6)
  except (ValueError, IndexError) as e:
    print(f'Error: Invalid value passed to format_time. Value: "{value}". Error: {str(e)}')
    return f'Invalid Value: "{value}"\'''', '''  try:
    minutes = int(value[0])
    seconds = int(value[1]) * 6
  except (ValueError, IndexError) as e:
    print('Error: Invalid value passed to format_time. Value: "{}". Error: {}'.format(value, e))
    result = f'Invalid Value: "{value}"'
  else:
    result = '%sm %ss' % (minutes, seconds)
  return result''')
  open(p, 'w').write(s)

  p = src + '/record.py'; s = open(p).read()
  i = s.index('class Record():')
  rows = re.findall(r"^records\['(..)'\] = (.*)$", s, re.M)
  k = s.index('def def_val')
  s = s[:k] + 'records = dict(\n  [\n' + ''.join('    (%r, %s),\n' % r for r in rows) + '''  ]
)


class Record():

  __slots__ = ('ident', 'raw', 'continuation', 'fields', 'definition')

  def __init__(self):
    self._clear()

  def _clear(self):
    for name, empty in (('ident', ''), ('raw', ''), ('continuation', ''), ('definition', -1)):
      setattr(self, name, empty)
    self.fields = list()

  def primary(self):
    return self.definition != -1 and self.continuation in ('0', '1')

  def hasCont(self):
    return self.primary() and self.continuation == '1'

  @staticmethod
  def validate(line):
    text = line.strip()
    checks = (
      lambda: text[:1] in ('S', 'T'),
      lambda: len(text) == 132,
      lambda: text[123:].isnumeric(),
    )
    return all(check() for check in checks)

  def _kind(self, raw):
    section, *_ = raw[4]
    return next((code for code in (section + raw[5], section + raw[12]) if code in records), None)

  def _complain(self, *lines):
    print(*lines, f'Record: {self.raw}', sep='\\n')
    return False

  def read(self, line) -> bool:
    self._clear()
    if not Record.validate(line):
      return False
    self.raw = raw = line.strip()
    kind = self._kind(raw)
    if kind is None:
      return False
    self.ident, self.definition = kind, records[kind]
    column = getattr(self.definition, 'cont_idx', None)
    if column is not None:
      self.continuation = raw[column]
      if not self.continuation.isalnum():
        return self._complain(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"',
                              'Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
      if not self.primary() and not hasattr(self.definition, 'app_idx'):
        raise ValueError("no hasattr(self.definition, 'app_idx')")
    self.fields = self.definition.read(raw, self.primary())
    return bool(self.fields)

  def _rows(self):
    for field in self.fields:
      yield field.name, f"'{field.value}'", field.decode(self)

  def decode(self, output=True):
    table = PrettyTable(['Field', 'Value', 'Decoded'])
    table.align = 'l'
    table.add_rows(list(row) for row in self._rows())
    text = str(table)
    if output is True:
      print(text)
    return text

  def json(self, output=True, single_line=True):
    style = {} if single_line else dict(sort_keys=True, indent=4, separators=(',', ': '))
    data = json.dumps(dict((f.name, f.value) for f in self.fields), **style)
    if output is True:
      print(data)
    return data
'''
  s = s.replace('from collections import defaultdict\n', '')
  open(p, 'w').write(s)

  p = src + '/__init__.py'; s = open(p).read()
  i = s.index('def parse')
  s = s[:i] + '''def parse(line, output=True):
  """Parse one record."""
  record = Record()
  accepted = record.read(line)
  if accepted:
    record.decode(output)
  return accepted


def _lines(path):
  with ExitStack() as stack:
    f = stack.enter_context(open(path, 'r'))
    yield from f


def _records(path):
  for line in _lines(path):
    record = Record()
    if record.read(line):
      yield record


def search(file, filters):
  """Search"""
  wanted = [filters] if isinstance(filters, str) else filters if isinstance(filters, list) else []
  found = 0
  for found, record in enumerate((r for r in _records(file) if not any(w not in r.raw for w in wanted)), start=1):
    print(record.raw)
  colour = ('red', 'green')[found > 0]
  print(colored("Found {} records that contain {}".format(found, filters), colour))


def read_file(path, output=True):
  """Parse all"""
  for line in _lines(path):
    parse(line, output)


def read_folder(path):
  """Parse all files"""
  for name in os.listdir(path):
    read_file(os.path.join(path, name))
'''
  s = s.replace('import os\n', 'import os\nfrom contextlib import ExitStack\n')
  open(p, 'w').write(s)

  # definitions: base class with registry and generic dispatch
  p = src + '/definitions/VHFNavaid.py'; s = open(p).read()
  i = s.index('  def application_type'); j = s.index('  # 4.1.2.1  VHF')
  s = s[:i] + '''  def application_type(self, line):
    return line[self.app_idx]

  def read(self, line, primary) -> list:
    if primary:
      return self.read_primary(line)
    name = {'A': 'read_cont', 'L': 'read_lim', 'P': 'read_flight_plan0', 'S': 'read_sim'}.get(self.application_type(line))
    return getattr(self, name)(line) if name else []

''' + s[j:]
  open(p, 'w').write(s)
  p = src + '/definitions/GridMORA.py'; s = open(p).read()
  i = s.index('    return [\n      Field("Record Type"')
  s = s[:i] + '''    head = [
      Field("Record Type", r[0], decoder.field_002),
      Field("Section Code", r[4:6], decoder.field_004),
      Field("Starting Latitude", r[13:16], decoder.field_141),
      Field("Starting Longitude", r[16:20], decoder.field_142),
    ]

    def moras():
      nonlocal r
      for n, at in enumerate(range(30, 120, 3), 1):
        yield Field("MORA" if n == 1 else f"MORA ({n})", r[at:at + 3], decoder.field_143)

    return [*head, *moras(), Field("File Record No", r[-9:-4], decoder.field_031), Field("Cycle Date", r[-4:], decoder.field_032)]
'''
  open(p, 'w').write(s)
