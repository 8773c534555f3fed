BUGS = []


def bug(id, property, edits, needs, breaks, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('lowercase-section', 'C01', [('record.py', '''    if identifier_1 in records:
      self.ident = identifier_1
''', '''    if identifier_1.upper() in records:
      self.ident = identifier_1.upper()
''')], 'a section code in lower case in columns 5-6', 'a line whose section code is none of the supported ones is accepted',
'''
r = arinc424.Record()
ok, _ = quiet(r.read, line('tc', {7: 'AA'}))
assert ok is False
assert quiet(r.read, line('TC', {7: 'AA'}))[0] is True
''')

bug('blank-record-number', 'C02', [('record.py', '''    if line[-9:].isnumeric() is False:''', '''    if line[-9:].replace(' ', '0').isnumeric() is False:''')],
'blanks among columns 124-131', 'a record with a blank file record number is accepted',
'''
r = arinc424.Record()
assert quiet(r.read, line('AS', tail='     8808'))[0] is False
assert quiet(r.read, line('AS', tail='000018808'))[0] is True
''')

bug('primary-membership', 'C03', [('record.py', '''    return self.continuation == '0' or self.continuation == '1'
''', '''    return self.continuation in '01'
''')], 'a kind without continuation numbers (grid MORA, company route, alternate, cruising table)',
'primary() answers True for kinds without continuation number, because the empty text is in every text',
'''
for s in ('AS', 'R ', 'RA', 'TC'):
  r = read(line(s))
  assert r.primary() is False, s
  assert r.hasCont() is False, s
''')

bug('procedure-continuations', 'C04', [('definitions/SIDSTARApproach.py', '''      case 'P':
        return self.read_flight0(line)
      case 'W':
        return self.read_data(line)
''', '''      case 'P' | 'Q':
        return self.read_flight0(line)
      case 'W':
        return self.read_data(line)
''')], 'a SID/STAR/approach continuation with application type Q', 'an unsupported application type is read with another type\'s layout',
'''
r = arinc424.Record()
for s in ('PD', 'PE', 'PF', 'HD', 'HE', 'HF'):
  assert quiet(r.read, line(s, {39: '2', 40: 'Q'}, at13=True))[0] is False, s
  assert quiet(r.read, line(s, {39: '2', 40: 'P'}, at13=True))[0] is True, s
''')

bug('holding-altitude', 'C05', [('definitions/HoldingPattern.py', '''      Field("Leg Time",                            r[47:49],      decoder.field_065),
''', '''      Field("Leg Time",                            r[48:50],      decoder.field_065),
''')], 'a holding pattern record with a leg time', 'the leg time is read one column too far right',
'''
r = read(line('EP', {39: '0', 48: '15', 50: '03000'}))
assert raw(r)['Leg Time'] == '15'
assert raw(r)['Minimum Altitude'] == '03000'
''')

bug('navaid-limitation', 'C06', [('definitions/VHFNavaid.py', '''      Field("Distance Limitation (3)",     r[62:68],      decoder.field_208),
      Field("Altitude Description (3)",    r[68],         decoder.field_029),
''', '''      Field("Distance Limitation (3)",     r[62:67],      decoder.field_208),
      Field("Altitude Description (3)",    r[67],         decoder.field_029),
''')], 'a VHF navaid limitation continuation (type L) with a third sector', 'two neighbouring fields of the third sector are read one column off',
'''
r = read(line('D ', {22: '2', 23: 'L', 63: '123456', 69: 'C'}))
assert raw(r)['Distance Limitation (3)'] == '123456'
assert raw(r)['Altitude Description (3)'] == 'C'
''')

bug('gate-overlap', 'C07', [('definitions/AirportGate.py', '''      Field("Name",                                r[98:123],     decoder.field_060),''', '''      Field("Name",                                r[98:124],     decoder.field_060),''')],
'an airport gate record', 'the gate name takes in the first digit of the file record number',
'''
r = read(line('PB', {22: '0', 99: 'X' * 25}, at13=True, tail='123458808'))
assert raw(r)['Name'] == 'X' * 25
''')

bug('stepdown-fix-codes', 'C08', [('decoder.py', '''    case 'A':
      s.write('Unnamed Stepdown Fix After Final Approach Fix\\n')
    case 'B':
      s.write('Unnamed Stepdown Fix Before Final Approach Fix\\n')
''', '''    case 'B':
      s.write('Unnamed Stepdown Fix After Final Approach Fix\\n')
    case 'A':
      s.write('Unnamed Stepdown Fix Before Final Approach Fix\\n')
''')], 'a waypoint description code with A or B in its third column', 'two codes show each other\'s meaning',
'''
r = read(line('ER', {14: 'V1   ', 26: '0010', 39: '0', 42: 'A'}))
assert shown(r)['Waypoint Desc Code'] == 'Unnamed Stepdown Fix After Final Approach Fix'
''')

bug('century', 'C09', [('decoder.py', '''int(value[:2]) > 50 else''', '''int(value[:2]) >= 50 else''')],
'a cycle date of the year 50', 'the year 2050 is shown as 1950',
'''
assert shown(read(line('AS', tail='000015001')))['Cycle Date'] == '2050, Release 01'
assert shown(read(line('AS', tail='000015101')))['Cycle Date'] == '1951, Release 01'
''')

bug('trimmed-name', 'C10', [('decoder.py', '''# 5.60 Name (NAME)
def field_060(value, record):
  return value
''', '''# 5.60 Name (NAME)
def field_060(value, record):
  return ' '.join(value.split()).ljust(len(value))
''')], 'a gate name with two blanks in a row', 'inner blanks of a name are collapsed',
'''
r = read(line('PB', {22: '0', 99: 'A  B'}, at13=True))
assert shown(r)['Name'] == 'A  B', shown(r)['Name']
''')

bug('usage-fallback', 'C11', [('decoder.py', '''  elif value[0] == 'R':
    wp = wp + 'RNAV'
''', '''  elif 'R' in value:
    wp = wp + 'RNAV'
''')], 'a waypoint usage with R in its second column', 'an invalid waypoint usage is shown as RNAV instead of being refused',
'''
r = read(line('EA', {22: '0', 27: 'R  ', 30: ' R'}))
try:
  quiet(r.decode)
except ValueError:
  pass
else:
  raise AssertionError('an invalid usage was shown: %r' % shown(r))
''')

bug('leg-time', 'C12', [('decoder.py', '''    return '{}m {}s'.format(int(value[0]), int(value[1])*6)
  except (ValueError, IndexError) as e:
''', '''    minutes, tenths = value.split()[0]
    return '{}m {}s'.format(int(minutes), int(tenths)*6)
  except (TypeError, IndexError) as e:
''')], 'a holding pattern whose leg time is not two digits', 'decoding raises although the field shows such a value as invalid',
'''
for t in ('15', '  ', '1 ', 'A5', ' 5'):
  quiet(read(line('EP', {39: '0', 44: '0000', 48: t})).decode)
''')

bug('route-type-cache', 'C13', [('decoder.py', '''# 5.7 Route Type
def field_007(value, record):
  d = defaultdict(def_val)
  if record.ident == 'ER':
''', '''RouteTypes = {}


# 5.7 Route Type
def field_007(value, record):
  # the tables are the same for every record of a section
  d = RouteTypes.setdefault(record.ident[:1], defaultdict(def_val))
  if record.ident == 'ER':
''')], 'records of two kinds of the same section, one after the other', 'a route type that one kind does not have is shown with the meaning of another kind that was decoded earlier',
'''
def preferred():
  return shown(read(line('ET', {14: 'V1        ', 26: '0010', 39: '0', 62: 'R'})))['Route Type']


before = preferred()
quiet(read(line('ER', {14: 'V1   ', 26: '0010', 39: '0', 45: 'R'})).decode)
assert preferred() == before, preferred()
''')

bug('empty-rows', 'C14', [('record.py', '''    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
''', '''    seen = set()
    for field in self.fields:
      decoded = field.decode(self)
      if (field.name.split(' (')[0], decoded) in seen and not str(decoded).strip():
        continue
      seen.add((field.name.split(' (')[0], decoded))
      table.add_row([field.name, "'{}'".format(field.value), decoded])
''')], 'a record with a repeated group (MORA, MORA (2), ...) that is blank twice', 'rows of blank repeated fields are left out of the table',
'''
r = read(line('AS', {31: '123'}))
assert len(rows(r)) == len(r.fields), (len(rows(r)), len(r.fields))
''')

bug('json-indented', 'C15', [('record.py', '''      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
''', '''      data = json.dumps({k.title(): v for k, v in d.items()}, sort_keys=True, indent=4, separators=(',', ': '))
''')], 'the indented form, and labels with capitals inside a word', 'the indented form has other keys than the one-line form',
'''
r = read(line('AS'))
a = json.loads(quiet(r.json, True, True)[0])
b = json.loads(quiet(r.json, True, False)[0])
assert a == b
''')

bug('indented-output', 'C16', [('record.py', '''    if output is True:
      print(data)

    return data''', '''    if output is not False or not single_line:
      print(data)

    return data''')], 'the indented JSON form with output switched off', 'the indented dump is printed although output is off',
'''
r = read(line('AS'))
assert quiet(r.json, False)[1] == ''
assert quiet(r.json, False, False)[1] == ''
''')

bug('file-header', 'C17', [('__init__.py', '''    for line in f.readlines():
      parse(line, output)
''', '''    for line in f.read().split('\\n'):
      if line.startswith('EOF') or not line:
        break
      parse(line, output)
''')], 'a file with an empty line between records', 'everything after an empty line is skipped',
'''
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(line('AS') + chr(10) + chr(10) + line('TC') + chr(10))
  want = ''.join(quiet(arinc424.parse, l)[1] for l in (line('AS'), '', line('TC')))
  assert quiet(arinc424.read_file, p)[1] == want
''')

bug('search-pattern', 'C18', [('__init__.py', '''from .record import Record
import os
''', '''from .record import Record
import os
import re
'''), ('__init__.py', '''        if filters not in r.raw:
''', '''        if re.search(filters.replace('(', '[(]').replace(')', '[)]'), r.raw) is None:
''')], 'a search text with a character that is special in regular expressions', 'a dot in the search text matches any character',
'''
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(line('AS', {40: 'AXB'}) + chr(10))
  assert 'Found 0 records' in quiet(arinc424.search, p, 'A.B')[1]
  assert 'Found 1 records' in quiet(arinc424.search, p, 'AXB')[1]
''')

bug('swallowed-error', 'C19', [('__init__.py', '''  if r.read(line):
    r.decode(output)
    return True
  return False
''', '''  if r.read(line):
    try:
      r.decode(output)
    except ValueError as e:
      print(f'Could not decode record: {e}')
    return True
  return False
''')], 'a record with a value that its field refuses', 'parse reports success and raises nothing for a record that cannot be decoded',
'''
bad = line('D ', {22: '0', 23: '11X30'})
try:
  quiet(arinc424.parse, bad)
except ValueError:
  pass
else:
  raise AssertionError('no error')
''')

bug('json-sorts', 'C20', [('record.py', '''      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
''', '''      self.fields.sort(key=lambda f: f.name)
      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
''')], 'decoding after the indented JSON dump', 'the indented dump reorders the fields of the record for every later call',
'''
r = read(line('AS'))
before = quiet(r.decode)[0]
quiet(r.json, False, False)
assert quiet(r.decode)[0] == before
''')

bug('file-left-open', 'C21', [('__init__.py', '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
''', '''  f = open(path)
  for line in f.readlines():
    parse(line, output)
  f.close()
''')], 'a file with a record that cannot be decoded', 'the file stays open when a record raises',
'''
import builtins
opened = []
real = builtins.open


def spy(*a, **k):
  f = real(*a, **k)
  opened.append(f)
  return f


with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  real(p, 'w').write(line('D ', {22: '0', 23: '11X30'}) + chr(10))
  builtins.open = spy
  try:
    quiet(arinc424.read_file, p)
  except ValueError:
    pass
  builtins.open = real
assert all(f.closed for f in opened)
''')
