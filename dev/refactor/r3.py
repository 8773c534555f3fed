"""exotic: dataclass, regex, functools.cache, pathlib, base class, property, namedtuple, try/except KeyError"""
import re, glob
def apply(src):
  p = src + '/decoder.py'; s = open(p).read()
  i, j = s.index('class Field():'), s.index('# This file decodes fields')
  s = s[:i] + '''@dataclass
class Field:
  name: str
  value: str
  decode_fn: Callable[[str, object], str]

  def decode(self, record):
    fn = self.decode_fn
    return fn(self.value, record)


''' + s[j:]
  s = s.replace('import io\n', 'import io\nimport re\nfrom dataclasses import dataclass\nfrom functools import lru_cache\nfrom typing import Callable, Optional\n')
  s = s.replace('''  value = value.strip()
  if len(value) > 0:
    if value.isalnum() is False or len(value) > 4:
      raise ValueError("Invalid Theta:", value)
  return value''', '''  if not (value := value.strip()):
    return value
  if not value.isalnum() or len(value) > 4:
    raise ValueError("Invalid Theta:", value)
  return value''')
  s = s.replace('''  value = value.strip()
  if len(value) == 0:
    return value

  if not value.isalpha():
    raise ValueError("Invalid Path and Termination:", value)

  return LegTypeDesc[value]''', '''  code = value.strip()
  if code == '':
    return ''
  if re.fullmatch(r'[A-Za-z]+', code) is None:
    raise ValueError("Invalid Path and Termination:", code)
  try:
    return LegTypeDesc[code]
  except KeyError:
    return '<UNKNOWN>\'''')
  s = s.replace('''def field_045(value, record):
  if (value.isnumeric()):
    return "{:.2f}".format(float(value)/100)
  else:
    return "BAD VALUE"''', '''@lru_cache(maxsize=None)
def _hundredths(value):
  return "%.2f" % (int(value) / 100)


def field_045(value, record):
  return _hundredths(value) if value.isdigit() else "BAD VALUE"''')
  s = s.replace('''    return "{:.2f}".format(float(value)/100)
  else:
    return "BAD VALUE"''', '''    return _hundredths(value)
  return "BAD VALUE"''')
  s = s.replace('''def field_082(value, record):
  wp = \'\'
  if value[1] == 'B':
    wp = wp + 'HI and LO Altitude'
  elif value[1] == 'H':
    wp = wp + 'HI Altitude'
  elif value[1] == 'L':
    wp = wp + 'LO Altitude'
  elif value[1] == ' ':
    wp = wp + 'Terminal Use Only'
  elif value[0] == 'R':
    wp = wp + 'RNAV'
  else:
    raise ValueError(f"Invalid Waypoint Usage: '{value}'")
  return wp''', '''_USAGE = dict(zip('BHL ', ('HI and LO Altitude', 'HI Altitude', 'LO Altitude', 'Terminal Use Only')))


def field_082(value, record):
  rnav, altitude = value[0], value[1]
  usage = _USAGE.get(altitude)
  if usage is None and rnav == 'R':
    usage = 'RNAV'
  if usage is None:
    raise ValueError(f"Invalid Waypoint Usage: '{value}'")
  return usage''')
  s = s.replace('''  s = \'\'
  match value[0]:
    case 'C':
      s += 'Circle'
''', '''  s = \'\'
  via, end, *_ = value
  match via:
    case 'C':
      s += 'Circle'
''').replace('''  if value[1] == 'E':
    s += ', End of description, return to origin point'

  return s''', '''  return s + (', End of description, return to origin point' if end == 'E' else \'\')''')
  s = s.replace('''  if value.strip() != '' and value[1:].isnumeric() is False:
    raise ValueError('Invalid Magnetic Variation', value)
  return value if value.strip() == '' else "{:.1f} {}".format(int(value[1:])/10, value[0])''', '''  if not value.strip():
    return value
  hemisphere, tenths = value[0], value[1:]
  if not tenths.isnumeric():
    raise ValueError('Invalid Magnetic Variation', value)
  degrees = int(tenths) / 10
  return f'{degrees:.1f} {hemisphere}\'''')
  s = s.replace('''  if len(value) > 0:
    if value.removeprefix('T').isnumeric() is False:
      raise ValueError('Invalid Route Distance or Holding Distance/Time', value)
    if value[0] == 'T':
      return "{:.1f} min".format(float(value[1:]) / 10)
    else:
      return "{:.1f} nm".format(float(value) / 10)

  return value''', '''  if not value:
    return value
  match = re.match(r'^(T?)([0-9]+)$', value)
  if not match:
    raise ValueError('Invalid Route Distance or Holding Distance/Time', value)
  timed, digits = match.groups()
  unit = 'min' if timed else 'nm'
  return f'{int(digits) / 10:.1f} {unit}\'''')
  open(p, 'w').write(s)
  # a common base class
  open(src + '/definitions/base.py', 'w').write('''from abc import ABC, abstractmethod


class Definition(ABC):
  """what record kinds have in common"""

  name = ''

  def application_type(self, line):
    return line[self.app_idx]

  @abstractmethod
  def read(self, line, primary):
    ...
''')
  for p in sorted(glob.glob(src + '/definitions/*.py')):
    if p.endswith(('base.py', '__init__.py')):
      continue
    s = open(p).read()
    s = s.replace('  def application_type(self, line):\n    return line[self.app_idx]\n\n', '')
    s = re.sub(r'class (\w+)\(\):', r'class \1(Definition):', s)
    s = s.replace('from arinc424.decoder import Field\n', 'from arinc424.decoder import Field\nfrom .base import Definition\n', 1)
    s = s.replace('''    if primary:
      return self.read_primary(line)

    application = line[self.app_idx]
''', '''    if primary:
      return self.read_primary(line)
    return self._read_continuation(line)

  def _read_continuation(self, line):
    application = self.application_type(line)
''')
    open(p, 'w').write(s)
  p = src + '/record.py'; s = open(p).read()
  a, b = s.split('class Record():')
  b = '''class Record():

  _FORM = re.compile(r'[ST].{122}[0-9]{9}', re.DOTALL)

  def __init__(self):
    self.clear()

  def clear(self) -> None:
    for name, value in (('ident', ''), ('raw', ''), ('continuation', '')):
      setattr(self, name, value)
    self.fields = list()
    self.definition = -1

  def primary(self):
    if self.definition == -1:
      return False
    return self.continuation in {'0', '1'}

  def hasCont(self):
    return self.primary() and self.continuation == '1'

  def validate(self, line):
    return self._FORM.fullmatch(line.strip()) is not None

  def read(self, line) -> bool:
    self.clear()
    if not self.validate(line):
      return False
    self.raw = raw = line.strip()
    first, second = raw[4:6], ''.join((raw[4], raw[12]))
    self.ident = next((x for x in (first, second) if x in records), '')
    if not self.ident:
      return False
    self.definition = definition = records.get(self.ident)
    try:
      self.continuation = raw[definition.cont_idx]
    except AttributeError:
      pass
    else:
      if not self.continuation.isalnum():
        print('Unsupported %s Continuation Record Number: "%s"' % (definition.name, self.continuation))
        print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
        print('Record: ' + raw)
        return False
    self.fields = definition.read(raw, self.primary())
    return bool(self.fields)

  def decode(self, output=True):
    table = PrettyTable(['Field', 'Value', 'Decoded'], align='l')
    rows = map(lambda f: (f.name, "'" + f.value + "'", f.decode(self)), self.fields)
    for row in rows:
      table.add_row(list(row))
    rendered = str(table)
    if output is True:
      print(rendered)
    return rendered

  def json(self, output=True, single_line=True):
    d = dict((field.name, field.value) for field in self.fields)
    if single_line:
      data = json.dumps(d)
    else:
      data = json.dumps(d, indent=4, sort_keys=True, separators=(',', ': '))
    if output is True:
      sys.stdout.write(data + '\\n')
    return data
'''
  open(p, 'w').write(a.replace('import json\n', 'import json\nimport re\nimport sys\n') + b)
  open(src + '/__init__.py', 'w').write('''from pathlib import Path

from termcolor import colored
from .record import Record


def _read(line):
  record = Record()
  return record if record.read(line) else None


def parse(line, output=True):
  if (record := _read(line)) is None:
    return False
  record.decode(output)
  return True


def search(file, filters):
  if isinstance(filters, str):
    wanted = lambda raw: filters in raw
  elif isinstance(filters, list):
    wanted = lambda raw: all(f in raw for f in filters)
  else:
    wanted = lambda raw: True
  with open(file) as f:
    records = [r.raw for r in map(_read, f) if r is not None]
  hits = list(filter(wanted, records))
  for raw in hits:
    print(raw)
  print(colored(f"Found {len(hits)} records that contain {filters}", 'green' if hits else 'red'))


def read_file(path, output=True):
  text = Path(path).read_text()
  for line in text.split('\\n'):
    parse(line, output)


def read_folder(path):
  folder = Path(path)
  for entry in sorted(folder.iterdir()):
    read_file(entry)
''')
