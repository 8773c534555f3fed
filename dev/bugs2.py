BUGS = []


def bug(id, property, edits, needs, breaks, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('stops-at-blank', 'C17', [('__init__.py', '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
''', '''  with open(path) as f:
    for line in iter(lambda: f.readline().strip(), ''):
      parse(line, output)
''')], 'an empty line inside the file', 'everything after an empty line is dropped',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(t + '\\n\\n' + t + '\\n')
  _, out = quiet(arinc424.read_file, p)
  assert out == quiet(arinc424.parse, t)[1] * 2
''')

bug('repeats-skipped', 'C17', [('__init__.py', '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
''', '''  with open(path) as f:
    for line in dict.fromkeys(f):
      parse(line, output)
''')], 'two identical lines in one file', 'the second of two identical lines is not handled',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(t + '\\n' + t + '\\n')
  _, out = quiet(arinc424.read_file, p)
  assert out == quiet(arinc424.parse, t)[1] * 2
''')

bug('folder-hidden', 'C17', [('__init__.py', '''  for file in os.scandir(path):
    read_file(os.path.join(path, file.name))
''', '''  import glob
  for file in glob.glob(os.path.join(path, '*')):
    read_file(file)
''')], 'a file whose name starts with a dot', 'files with a leading dot are skipped',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  open(os.path.join(d, '.cifp'), 'w').write(t + '\\n')
  _, out = quiet(arinc424.read_folder, d)
  assert out == quiet(arinc424.parse, t)[1] != ''
''')

bug('folder-stems', 'C17', [('__init__.py', '''  for file in os.scandir(path):
    read_file(os.path.join(path, file.name))
''', '''  done = set()
  for file in os.scandir(path):
    stem, _ = os.path.splitext(file.name)
    if stem in done:
      continue
    done.add(stem)
    read_file(os.path.join(path, file.name))
''')], 'two files in one folder that differ in the extension only', 'only one of them is read',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  for n in ('cifp.pc', 'cifp.dat', 'other'):
    open(os.path.join(d, n), 'w').write(t + '\\n')
  _, out = quiet(arinc424.read_folder, d)
  assert out == quiet(arinc424.parse, t)[1] * 3
''')

bug('search-whole-line', 'C18', [('__init__.py', '''        if filters not in r.raw:
          continue
''', '''        if filters not in line:
          continue
''')], 'a search for white space that only surrounds the record', 'a record matches by what surrounds it',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write('\\t' + t + '\\n')
  _, out = quiet(arinc424.search, p, '\\t')
  assert t not in out
  _, out = quiet(arinc424.search, p, 'USA')
  assert t in out
''')

bug('search-empty-list', 'C18', [('__init__.py', '''        if all(map(r.raw.__contains__, filters)) is False:
          continue
''', '''        wanted = [s for s in filters if s.strip()]
        if all(map(r.raw.__contains__, wanted)) is False:
          continue
''')], 'a list with a text made of blanks', 'blank search texts are not honoured',
'''
t = line('AS').replace(' ', 'X')
assert len(t) == 132 and ' ' not in t
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(t + '\\n')
  assert t in quiet(arinc424.search, p, ['X', '1880'])[1]
  assert t not in quiet(arinc424.search, p, ['X', ' '])[1]
''')

bug('search-early-stop', 'C18', [('__init__.py', '''      if r.read(line) is False:
        continue
      if isinstance(filters, str):
''', '''      if r.read(line) is False:
        if count and not line.strip():
          break
        continue
      if isinstance(filters, str):
''')], 'an empty line after the first hit', 'hits after an empty line are not listed',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write('\\n' + t + '\\n\\n' + t + '\\n')
  _, out = quiet(arinc424.search, p, 'USA')
  assert out.count(t) == 2
''')

bug('table-sorted', 'C14', [('record.py', '''      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
''', '''      if table.rows and table.rows[-1][0] == field.name.removesuffix(' (2)') and table.rows[-1][1] == repr(field.value):
        continue
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
''')], 'a field and its second instance next to each other with equal values', 'the repeated row is left out',
'''
for t in (line('PA', {22: '0'}, at13=True), line('EA', {22: '0'}), line('D ', {22: '0'}), line('ER', {39: '0'}), line('HA', {22: '0'}, at13=True),
          line('PI', {22: '0'}, at13=True), line('PV', {26: '0'}, at13=True), line('UC', {25: '0'}), line('TC'), line('AS'), line('PS', {39: '0'}, at13=True),
          line('PK', {30: '0'}, at13=True), line('ET', {39: '0'}), line('PR', {70: '0'}, at13=True), line('RA'), line('PG', {22: '0'}, at13=True)):
  r = arinc424.Record()
  if quiet(r.read, t)[0]:
    n = len(json.loads(quiet(r.json)[0]))
    try:
      text, _ = quiet(r.decode)
    except ValueError:
      continue
    assert sum(l.startswith('|') for l in text.splitlines()) >= n + 1, t
''')

bug('row-limit', 'C14', [('record.py', '''    return table.get_string()
''', '''    return table.get_string(end=len({f.name: f.value for f in self.fields if f.value}) - (self.raw[123:128] == '99999'))
''')], 'a record with file record number 99999', 'the returned table lacks its last row (the printed one does not)',
'''
r = read(line('AS', tail='999998808'))
assert 'Cycle Date' in quiet(r.decode)[0]
''')

bug('json-blank-members', 'C15', [('record.py', '''      d.update({field.name: field.value})
''', '''      d.setdefault(field.name.split(' (')[0] if field.value.isspace() and field.name.endswith('(5)') else field.name, field.value)
''')], 'a record whose fifth repetition of a field is blank', 'the member is merged with the first one',
'''
t = line('TC')
for s in ('AS', 'TC', 'R ', 'RA'):
  r = read(line(s))
  names = [f.name for f in r.fields]
  assert list(json.loads(quiet(r.json)[0])) == names, s
for s, c in (('PA', 22), ('PG', 22), ('PV', 26), ('PS', 39), ('HS', 39), ('PR', 70), ('PK', 30), ('PF', 39), ('HA', 22), ('PI', 22)):
  for app in ('0', '2A', '2S', '2P', '2N'):
    r = arinc424.Record()
    if quiet(r.read, line(s, {c: app}, at13=True))[0]:
      assert list(json.loads(quiet(r.json)[0])) == [f.name for f in r.fields], s
for s, c in (('EA', 22), ('D ', 22), ('ET', 39), ('ER', 39), ('UC', 25), ('UF', 20), ('UR', 25), ('EV', 56)):
  for app in ('0', '2A', '2S', '2P', '2N', '2C', '2T', '2L'):
    r = arinc424.Record()
    if quiet(r.read, line(s, {c: app}))[0]:
      assert list(json.loads(quiet(r.json)[0])) == [f.name for f in r.fields], s
''')

bug('grid-memory', 'C13', [('definitions/GridMORA.py', '''  def read(self, line, primary):
''', '''  seen = set()

  def read(self, line, primary):
    if line[13:20] in self.seen and line[13:20].strip():
      return []
    self.seen.add(line[13:20])
''')], 'the same grid block read a second time', 'a record is refused because one with the same start was read before',
'''
t = line('AS', {14: 'N42W072'})
for _ in range(3):
  read(t)
''')

bug('records-default', 'C13', [('record.py', '''    if identifier_1 in records:
      self.ident = identifier_1
    elif identifier_2 in records:
      self.ident = identifier_2
    else:
      return False
''', '''    if identifier_1 in records:
      self.ident = identifier_1
    elif records[identifier_2]:
      self.ident = identifier_2
    else:
      return False
''')], 'a line with an unsupported code in columns 5 and 13, then one with that code in columns 5-6', 'the second line raises',
'''
r = arinc424.Record()
assert quiet(r.read, line('ZQ', at13=True))[0] is False
assert quiet(r.read, line('ZQ'))[0] is False
''')

bug('last-application', 'C13', [('definitions/Runway.py', '''    application = line[self.app_idx]
    match application:
''', '''    application = line[self.app_idx]
    if application == ' ':
      application = getattr(self, 'last', application)
    else:
      self.last = application
    match application:
''')], 'a runway continuation with a blank application type after one with a valid type', 'a refused line is accepted because of an earlier one',
'''
r = arinc424.Record()
b = line('PG', {22: '2'}, at13=True)
assert quiet(r.read, b)[0] is False
assert quiet(r.read, line('PG', {22: '2S'}, at13=True))[0] is True
assert quiet(r.read, b)[0] is False
''')

bug('decode-twice', 'C20', [('record.py', '''    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
''', '''    for field in self.fields:
      try:
        table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
      except ValueError:
        self.fields.remove(field)
        raise
''')], 'decoding a record with a malformed field twice', 'after a failed decode the offending field is gone from the record',
'''
r = read(line('ER', {26: '0000', 39: '0', 47: '-'}))
before = quiet(r.json)[0]
for _ in range(2):
  try:
    quiet(r.decode)
  except ValueError:
    pass
  assert quiet(r.json)[0] == before
''')

bug('exit-code', 'C12', [('decoder.py', '''    case _:
      raise ValueError("bad guard/transmit")
''', '''    case _:
      raise SystemExit("bad guard/transmit")
''')], 'a communication record with an invalid guard/transmit flag', 'the program ends',
'''
import arinc424.decoder
try:
  arinc424.decoder.field_182('#', None)
except ValueError:
  pass
''')

bug('frequency-rounding', 'C09', [('decoder.py', '''# 5.103 ‘Communications Frequency (COMM FREQ)
def field_103(value, record):
  if (value.isnumeric()):
    return "{:.2f}".format(float(value)/100)
''', '''# 5.103 ‘Communications Frequency (COMM FREQ)
def field_103(value, record):
  if (value.isnumeric()):
    return "{:.6g}".format(float(value)/100).ljust(2)
''')], 'a frequency that ends in zero or has seven digits', 'trailing zeros and the seventh digit are dropped',
'''
import arinc424.decoder
assert arinc424.decoder.field_103('0126000', None) == '1260.00'
assert arinc424.decoder.field_103('1234567', None) == '12345.67'
''')

bug('marker-sub', 'C08', [('decoder.py', '''    case 'E':
      return 'Elliptical'
    case 'B':
      return 'Bone'
    case _:
      return value
''', '''    case 'E' | 'B':
      return {'B': 'Bone'}.get(value, 'Elliptical')
    case 'e' | 'b':
      return 'Bone' if value == 'b' else 'Elliptical'
    case _:
      return value
''')], 'a marker shape in lower case', 'an invalid code is shown as a valid one',
'''
import arinc424.decoder
assert arinc424.decoder.field_112('e', None) == 'e'
''')

bug('comm-type-prefix', 'C08', [('decoder.py', '''  d['VOL'] = 'Volmet'
  return d[value] if d[value] != "bad value" else value + "BAD VALUE"
''', '''  d['VOL'] = 'Volmet'
  for key in d:
    if value.startswith(key[:2]) and key[2:] in ' AEIOU':
      return d[key]
  return d[value] if d[value] != "bad value" else value + "BAD VALUE"
''')], 'communication types that share their first two letters with another one', 'a code is shown with another code\'s meaning',
'''
import arinc424.decoder
assert arinc424.decoder.field_101('TWR', None) == 'Tower, Air Traffic Control'
assert arinc424.decoder.field_101('CTL', None) == 'Control'
''')

bug('opened-for-update', 'C21', [('__init__.py', '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
''', '''  with open(path, 'r+' if os.access(path, os.W_OK) else 'r') as f:
    for line in f.readlines():
      parse(line, output)
''')], 'a writable file', 'the file is opened for writing',
'''
import builtins
modes = []
real = builtins.open


def spy(p, mode='r', *a, **k):
  modes.append(mode)
  return real(p, mode, *a, **k)


with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  real(p, 'w').write('x\\n')
  builtins.open = spy
  try:
    quiet(arinc424.read_file, p)
  finally:
    builtins.open = real
assert modes and not any(set(m) & set('wa+x') for m in modes), modes
''')

bug('folder-chdir', 'C21', [('__init__.py', '''  for file in os.scandir(path):
    read_file(os.path.join(path, file.name))
''', '''  here = os.getcwd()
  os.chdir(path)
  for file in os.scandir('.'):
    read_file(file.name)
  os.chdir(here)
''')], 'a folder with a record that cannot be decoded', 'the process is left in another directory',
'''
t = line('ER', {26: '0000', 39: '0', 47: '-'})
here = os.getcwd()
with tempfile.TemporaryDirectory() as d:
  open(os.path.join(d, 'f'), 'w').write(t + '\\n')
  try:
    quiet(arinc424.read_folder, d)
  except ValueError:
    pass
  try:
    assert os.getcwd() == here
  finally:
    os.chdir(here)
''')

bug('quiet-default', 'C16', [('record.py', '''    if output is True:
      print(table)
    return table.get_string()
''', '''    text = table.get_string()
    if output is True:
      print(text.rstrip('-+ ') if len(self.fields) > 40 else text)
    return text
''')], 'a record with more than 40 fields', 'the printed table lacks its closing line',
'''
r = read(line('TC'))
for t in (line('PK', {30: '0'}, at13=True), line('TC'), line('AS'), line('PF', {39: '0', 48: 'IF', 44: ' '}, at13=True), line('HV', {26: '0'}, at13=True),
          line('PR', {70: '0'}, at13=True), line('PL', {22: '0'}, at13=True), line('PP', {27: '0'}, at13=True), line('PS', {39: '0'}, at13=True)):
  r = arinc424.Record()
  if not quiet(r.read, t)[0]:
    continue
  try:
    v, out = quiet(r.decode)
  except ValueError:
    continue
  assert out == v + '\\n', t
''')

bug('parse-truth', 'C19', [('__init__.py', '''  if r.read(line):
    r.decode(output)
    return True
  return False
''', '''  if r.read(line):
    return bool(r.decode(output) and r.raw[123:128].strip('0'))
  return False
''')], 'an accepted record with file record number 00000', 'parse returns False for a record',
'''
assert quiet(arinc424.parse, line('AS', tail='000008808'))[0] is True
''')

bug('number-digits', 'C03', [('record.py', '''      self.continuation = self.raw[self.definition.cont_idx]
''', '''      self.continuation = self.raw[self.definition.cont_idx]
      if self.continuation == 'O':
        self.continuation = '0'
''')], 'continuation number O', 'the 15th continuation is taken for the primary record',
'''
r = read(line('PA', {22: 'OA'}, at13=True))
assert r.primary() is False
assert len(r.fields) == len(read(line('PA', {22: '2A'}, at13=True)).fields)
''')

bug('trailer-short', 'C02', [('record.py', '''    if len(line) != 132:
      return False
''', '''    if len(line.expandtabs(1)) != 132 or '\\0' in line:
      return False
''')], 'a record with a NUL character', 'a well-formed record is refused',
'''
assert read(line('AS', {50: '\\0'}))
''')

bug('waypoint-blank-name', 'C10', [('decoder.py', '''# 5.125 FIR/UIR Name
def field_125(value, record):
  return value
''', '''# 5.125 FIR/UIR Name
def field_125(value, record):
  return value.expandtabs(1).replace('\\x0b', ' ')
''')], 'a tab inside the name of a FIR', 'control characters in a name are replaced',
'''
import arinc424.decoder
assert arinc424.decoder.field_125('A\\tB' + ' ' * 22, None) == 'A\\tB' + ' ' * 22
''')

bug('ident-swap', 'C10', [('decoder.py', '''# 5.46 Runway Identifier (RUNWAY ID)
def field_046(value, record):
  return value
''', '''# 5.46 Runway Identifier (RUNWAY ID)
def field_046(value, record):
  return value if not value.startswith('RW') else value[:2] + value[2:].replace('O', '0')
''')], 'a runway identifier with the letter O', 'shown with a digit',
'''
import arinc424.decoder
assert arinc424.decoder.field_046('RW3O ', None) == 'RW3O '
''')

bug('zone-zero', 'C11', [('decoder.py', '''# 5.179 Daylight Time Indicator (DAY TIME)
def field_179(value, record):
  match value:
    case 'Y':
      return 'Yes'
    case 'N':
      return 'No'
    case _:
      return f'Unsupported Value: "{value}"'
''', '''# 5.179 Daylight Time Indicator (DAY TIME)
def field_179(value, record):
  if value in 'YN':
    return dict(zip('YN', ('Yes', 'No'))).get(value, 'No')
  return f'Unsupported Value: "{value}"' if value > ' ' else 'No'
''')], 'a blank daylight indicator', 'shown as a valid No',
'''
import arinc424.decoder
assert arinc424.decoder.field_179(' ', None) != 'No'
''')
