"""modules moved, importlib, Decimal, StrEnum, frozen dataclass, cached_property, singledispatch, recursion, iter/next, descriptors"""
import re, glob, os


def sub1(s, a, b):
  assert a in s, a
  return s.replace(a, b)


def apply(src):
  p = src + '/decoder.py'; s = open(p).read()
  i, j = s.index('class Field():'), s.index('# This file decodes fields')
  s = s[:i] + '''@dataclass(frozen=True, slots=True)
class Field:
  name: str
  value: str
  decode_fn: Decoder = field(repr=False)

  def decode(self, record) -> Any:
    return self.decode_fn(self.value, record)


class Region(StrEnum):
  USA = 'United States of America'
  AFR = 'Africa'
  CAN = 'Canada'
  EEU = 'Eastern Europe and Asia'
  EUR = 'Europe'
  LAM = 'Latin America'
  MES = 'Middle East'
  PAC = 'Pacific'
  SAM = 'Southern America'
  SPA = 'South Pacific'


def verbatim(value, record):
  return value


def scaled(places: int, *, bad=None):
  """a decoder for numbers with that many decimal places"""
  def decode(value, record):
    if not value.isnumeric():
      return bad if bad is not None else value
    return f'{Decimal(value).scaleb(-places):.{places}f}'
  decode.__name__ = f'scaled_{places}'
  return decode


class Unit:
  """callable decoder with a unit"""

  def __init__(self, unit, zeros=0):
    self.unit, self.zeros = unit, zeros

  def __call__(self, value, record):
    if not value.isnumeric():
      return value
    return '{:d} {}'.format(int(value) * 10 ** self.zeros, self.unit)


feet = Unit('ft')


''' + s[j:]
  s = s.replace('from collections import defaultdict\nimport io\n', '''from __future__ import annotations

import io
from collections import defaultdict
from dataclasses import dataclass, field
from decimal import Decimal
from enum import StrEnum
from typing import Any, Callable, Final

Decoder = Callable[[str, 'Record'], Any]
''', 1)
  n = 0
  pat = re.compile(r'''def (field_\w+)\(value, record\):\n  return \(value\.lstrip\('0'\) or '0'\) \+ " ft" if value\.isnumeric\(\) else value\n''')
  s, n = pat.subn(lambda m: m.group(1) + ' = feet\n', s)
  assert n > 3, n
  pat = re.compile(r'''def (field_\w+)\(value, record\):\n  return value\n''')
  s, n = pat.subn(lambda m: m.group(1) + ' = verbatim\n', s)
  assert n > 50, n
  pat = re.compile(r'''def (field_\w+)\(value, record\):\n  if \(value\.isnumeric\(\)\):\n    return "\{:.2f\}"\.format\(float\(value\)/100\)\n  else:\n    return "BAD VALUE"\n''')
  s, n = pat.subn(lambda m: m.group(1) + " = scaled(2, bad='BAD VALUE')\n", s)
  assert n >= 2, n
  i = s.index('def field_003'); j = s.index('# 5.4 & 5.5')
  s = s[:i] + '''def field_003(value, record):
  return str(Region[value]) if value in Region.__members__ else '<UNKNOWN>'


''' + s[j:]
  s = sub1(s, '''def field_054(value, record):
  if value.isnumeric():
    return ((value+"00").lstrip('0') or '0') + " ft"
  else:
    return value
''', '''field_054: Final = Unit('ft', zeros=2)
''')
  # 101: defaultdict -> module constant + recursion-free lookups
  i = s.index('def field_101'); j = s.index('# 5.102')
  d = re.findall(r"d\['(...)'\] = '(.*)'", s[i:j])
  s = s[:i] + 'COMMUNICATIONS = {\n' + ''.join('  %r: %r,\n' % x for x in d) + '''}


def field_101(value, record):
  return COMMUNICATIONS.get(value, '<UNKNOWN>')


''' + s[j:]
  # 017
  i = s.index("  s = io.StringIO()\n  match value[0]:\n    case 'A':\n      s.write('Airport as Waypoint"); j = s.index("  return s.getvalue().strip()\n\n\n# 5.18")
  body = s[i:j]
  tabs = []
  for part in body.split('  match value[')[1:]:
    tabs.append(dict(re.findall(r"case '(.)':\n\s+s.write\('(.*)\\n'\)", part)))
  flat = {(k, c): t for k, tab in enumerate(tabs) for c, t in tab.items()}
  s = s[:i] + '''  def gather(at):
    if at == 4:
      return []
    rest = gather(at + 1)
    note = DESCRIPTIONS.get((at, value[at]))
    return rest if note is None else [note] + rest
  return '\\n'.join(gather(0))


# 5.18''' + s[j + len("  return s.getvalue().strip()\n\n\n# 5.18"):]
  s = s.replace('# 5.17 Waypoint Description Code (DESC CODE)', 'DESCRIPTIONS = %r\n\n\n# 5.17 Waypoint Description Code (DESC CODE)' % flat, 1)
  s = sub1(s, '''    if record.ident in ('DB', 'PN', 'PM'):
      return "{:.1f}".format(float(value)/10)
    return "{:.2f}".format(float(value)/100)''', '''    match record.ident:
      case 'DB' | 'PN' | 'PM':
        places = 1
      case _:
        places = 2
    return scaled(places)(value, record)''')
  open(p, 'w').write(s)

  p = src + '/record.py'; s = open(p).read()
  rows = re.findall(r"^records\['(..)'\] = (.*)$", s, re.M)
  open(src + '/registry.py', 'w').write('''"""which definition reads which kind of record"""
from importlib import import_module

_KINDS = (
''' + ''.join('  (%r, %r, %r),\n' % (k, c.split('(')[0], {'': (), 'True': (True,), 'False': (False,)}[c.split('(')[1][:-1]]) for k, c in rows) + ''')


def _build():
  for ident, name, args in _KINDS:
    module = import_module(f'arinc424.definitions.{name}')
    yield ident, getattr(module, name)(*args)


records = dict(_build())
''')
  i = s.index('class Record():')
  s = '''from __future__ import annotations

import json
from functools import cached_property
from prettytable import PrettyTable

from .registry import records

LENGTH = 132
SERIAL = slice(-9, None)


class Column:
  """the character of a record in one column"""

  def __init__(self, attribute):
    self.attribute = attribute

  def __get__(self, record, owner=None):
    if record is None:
      return self
    index = getattr(record.definition, self.attribute, None)
    return None if index is None else record.raw[index]


class Record():

  number = Column('cont_idx')

  def __init__(self):
    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1

  def primary(self):
    return False if self.definition == -1 else self.continuation in {'0', '1'}

  def hasCont(self):
    return self.continuation == '1' if self.primary() else False

  def validate(self, line):
    line = line.strip()
    if len(line) != LENGTH:
      return False
    if not line[SERIAL].isdecimal():
      return False
    return line[0] == 'S' or line[0] == 'T'

  def read(self, line) -> bool:
    Record.__init__(self)
    if not self.validate(line):
      return False
    self.raw = line.strip()
    candidates = iter((self.raw[4:6], self.raw[4:13:8]))
    while True:
      try:
        self.ident = next(candidates)
      except StopIteration:
        self.ident = ''
        return False
      if self.ident in records:
        break
    self.definition = records[self.ident]
    number = self.number
    if number is not None:
      self.continuation = number
      if not number.isalnum():
        for text in (f'Unsupported {self.definition.name} Continuation Record Number: "{number}"',
                     'Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)',
                     f'Record: {self.raw}'):
          print(text)
        return False
      if not (self.primary() or hasattr(self.definition, 'app_idx')):
        raise ValueError("no hasattr(self.definition, 'app_idx')")
    self.fields = self.definition.read(self.raw, self.primary())
    return len(self.fields) > 0

  def decode(self, output=True):
    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'], align='l')
    pending = self.fields[::-1]
    while pending:
      field = pending.pop()
      table.add_row((field.name, "'" + field.value + "'", field.decode(self)))
    text = table.get_string()
    if output is True:
      print(text)
    return text

  def json(self, output=True, single_line=True):
    d = dict.fromkeys(f.name for f in self.fields)
    d |= {f.name: f.value for f in self.fields}
    options = {}
    if not single_line:
      options.update(sort_keys=True, indent=4, separators=(',', ': '))
    data = json.dumps(d, **options)
    if output is True:
      print(data)
    return data
'''
  open(p, 'w').write(s)
  p = src + '/__init__.py'; s = open(p).read()
  open(src + '/files.py', 'w').write('''from pathlib import Path

from termcolor import colored

from .record import Record

COLOURS = {True: 'green', False: 'red'}


def parse(line, output=True):
  """Parse one record."""
  record = Record()
  if not record.read(line):
    return False
  record.decode(output)
  return True


class Matcher:

  def __init__(self, filters):
    self.filters = filters

  def __call__(self, record):
    match self.filters:
      case str() as text:
        return text in record.raw
      case list() as texts:
        return all(text in record.raw for text in texts)
    return True


def search(file, filters):
  """Search"""
  matches = Matcher(filters)
  hits = []
  with open(file) as f:
    while line := f.readline():
      record = Record()
      if record.read(line) and matches(record):
        hits.append(record.raw)
        print(hits[-1])
  print(colored(f"Found {len(hits)} records that contain {filters}", COLOURS[bool(hits)]))


def read_file(path, output=True):
  """Parse all"""
  f = open(path)
  try:
    for line in f:
      parse(line, output)
  finally:
    f.close()


def read_folder(path):
  """Parse all files"""
  for entry in Path(path).iterdir():
    read_file(entry)
''')
  open(p, 'w').write('''from .files import parse, read_file, read_folder, search
from .record import Record

__all__ = ['Record', 'parse', 'read_file', 'read_folder', 'search']
''')
  for p in glob.glob(src + '/definitions/*.py'):
    s = open(p).read()
    if 'import arinc424.decoder as decoder' in s:
      s = s.replace('from arinc424.decoder import Field\nimport arinc424.decoder as decoder\n', 'from .. import decoder\nfrom ..decoder import Field\n')
      open(p, 'w').write(s)
