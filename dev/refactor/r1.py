"""record.py and __init__.py rewritten, decoders as tables"""
import re
def apply(src):
  p = src + '/record.py'; s = open(p).read()
  a, b = s.split('class Record():')
  a = a.replace("def def_val():\n  return False\n\n\nrecords = defaultdict(def_val)\n", "records = {}\n").replace("from collections import defaultdict\n", "from dataclasses import dataclass, field as dc_field\n")
  b = '''class Record:
  """An ARINC-424 record."""

  RECORD_LENGTH = 132
  PRIMARY = frozenset('01')

  def __init__(self):
    self._reset()

  def _reset(self):
    self.ident, self.raw, self.continuation = '', '', ''
    self.fields = []
    self.definition = -1

  def primary(self):
    return self.definition != -1 and self.continuation in ('0', '1')

  def hasCont(self):
    return bool(self.primary() and self.continuation == '1')

  def validate(self, line):
    text = line.strip()
    return (len(text) == self.RECORD_LENGTH and text[:1] in ('S', 'T')
            and all(c.isdigit() for c in text[-9:]))

  @staticmethod
  def _section(raw):
    """section code of a record, or None"""
    for candidate in (raw[4:6], raw[4] + raw[12]):
      if candidate in records:
        return candidate
    return None

  def _complain(self, *parts):
    for part in parts:
      print(part)
    return False

  def read(self, line) -> bool:
    self._reset()
    if not self.validate(line):
      return False
    self.raw = line.strip()
    ident = self._section(self.raw)
    if ident is None:
      return False
    self.ident = ident
    definition = self.definition = records[ident]
    idx = getattr(definition, 'cont_idx', None)
    if idx is not None:
      number = self.continuation = self.raw[idx]
      if not number.isalnum():
        return self._complain(
          f'Unsupported {definition.name} Continuation Record Number: "{number}"',
          'Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)',
          f'Record: {self.raw}')
    self.fields = definition.read(self.raw, self.primary())
    return len(self.fields) > 0

  def _rows(self):
    for f in self.fields:
      yield [f.name, f"'{f.value}'", f.decode(self)]

  def decode(self, output=True):
    table = PrettyTable()
    table.field_names = ['Field', 'Value', 'Decoded']
    table.align = 'l'
    table.add_rows(list(self._rows()))
    text = table.get_string()
    if output is True:
      print(text)
    return text

  def json(self, output=True, single_line=True):
    members = {f.name: f.value for f in self.fields}
    options = {} if single_line else dict(sort_keys=True, indent=4, separators=(',', ': '))
    data = json.dumps(members, **options)
    if output is True:
      print(data)
    return data
'''
  open(p, 'w').write(a + b)
  p = src + '/__init__.py'
  open(p, 'w').write('''import os

from termcolor import colored

from .record import Record


def _records(file):
  """the records of an open file, one by one"""
  for line in file:
    record = Record()
    if record.read(line):
      yield record


def _matches(record, filters):
  if isinstance(filters, str):
    filters = [filters]
  if not isinstance(filters, list):
    return True
  return all(text in record.raw for text in filters)


def parse(line, output=True):
  record = Record()
  ok = record.read(line)
  if ok:
    record.decode(output=output)
  return ok


def search(file, filters):
  found = 0
  with open(file, 'r') as f:
    for record in _records(f):
      if not _matches(record, filters):
        continue
      print(record.raw)
      found += 1
  color = 'green' if found > 0 else 'red'
  print(colored('Found {} records that contain {}'.format(found, filters), color))


def read_file(path, output=True):
  with open(path) as f:
    lines = f.read().splitlines()
  for line in lines:
    parse(line, output)


def read_folder(path):
  for name in os.listdir(path):
    read_file(os.path.join(path, name))
''')
  p = src + '/decoder.py'; s = open(p).read()
  # tables at module level instead of defaultdicts built on each call
  def table(m):
    name, pre, var, rows, post = m.groups()
    entries = re.findall(var + r"\['([^']*)'\] = ('[^\n]*')\n", rows)
    t = 'TABLE_%s = {\n%s}\n\n\n' % (name, ''.join("  %r: %s,\n" % e for e in entries))
    post = re.sub(r"return %s\[value\][^\n]*" % var, "return TABLE_%s.get(value, '<UNKNOWN>')" % name, post)
    return t + 'def field_%s(value, record):\n%s%s' % (name, pre, post)
  s, n = re.subn(r"def field_(\d+)\(value, record\):\n((?:  if [^\n]*\n    return value\n)?)  (\w+) = defaultdict\(def_val\)\n((?:  \w+\['[^']*'\] = '[^\n]*'\n)+)(  return \w+\[value\][^\n]*\n)", table, s)
  print('tables', n)
  def mt(m):
    name, rows = m.groups()
    es = re.findall(r"case ('[^']*'):\n      return ('[^\n]*'|\"[^\n]*\")\n", rows)
    d = re.search(r"case _:\n      return ([^\n]*)\n", rows).group(1)
    return 'def field_%s(value, record):\n  meanings = {\n%s  }\n  if value not in meanings:\n    return %s\n  return meanings[value]\n' % (name, ''.join('    %s: %s,\n' % e for e in es), d)
  s, n = re.subn(r"def field_(\d+)\(value, record\):\n  match value:\n((?:    case '[^']*':\n      return (?:'[^\n]*'|\"[^\n]*\")\n)+    case _:\n      return [^\n]*\n)", mt, s)
  print('matches', n)
  s = s.replace('''  s = io.StringIO()
  match value[0]:''', '''  out = []
  match value[0]:''').replace("s.write('", "out.append('").replace("\\n')\n", "')\n").replace("return s.getvalue().strip()", "return '\\n'.join(out)")
  s = s.replace('''def field_029(value, record):
  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value''', '''def _feet(digits):
  if not digits.isnumeric():
    return digits
  return f'{int(digits)} ft'


def field_029(value, record):
  return _feet(value)''')
  s = s.replace('''  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value''', '''  return _feet(value)''')
  s = s.replace('''  if value.isnumeric():
    return ((value+"00").lstrip('0') or '0') + " ft"
  else:
    return value''', '''  if not value.isnumeric():
    return value
  return str(int(value) * 100) + " ft"''')
  s = s.replace('''  year = "19" + value[:2] if int(value[:2]) > 50 else "20" + value[:2]
  return '{}, Release {}'.format(year, value[2:])''', '''  yy, release = value[:2], value[2:]
  century = '19' if int(yy) > 50 else '20'
  return f'{century}{yy}, Release {release}\'''')
  s = s.replace('''  zones = 'MLKIHGFEDCBAZNOPQRSTUVWXY'
  if value[0] in zones and value[1:].isnumeric():
    x = zones.index(value[0]) - 12
    return f'GMT {x:+d}:{value[1:]}'
  else:
    return f'Unsupported Value: "{value}"\'''', '''  zones = {letter: offset for offset, letter in enumerate('MLKIHGFEDCBAZNOPQRSTUVWXY', start=-12)}
  letter, minutes = value[0], value[1:]
  if letter not in zones or not minutes.isnumeric():
    return f'Unsupported Value: "{value}"'
  return 'GMT {:+d}:{}'.format(zones[letter], minutes)''')
  s = s.replace('''    return '{}m {}s'.format(int(value[0]), int(value[1])*6)
  except (ValueError, IndexError) as e:
''','''    minutes, tenths = (int(c) for c in value[:2])
    return f'{minutes}m {tenths * 6}s'
  except (ValueError, IndexError) as e:
''')
  open(p, 'w').write(s)
