BUGS = []


def bug(id, property, edits, needs, breaks, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('chunked-read', 'C17', [('__init__.py', '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
''', '''  with open(path) as f:
    for line in f.readlines(1 << 20):
      parse(line, output)
''')], 'a file of more than one megabyte', 'lines after the first megabyte are not read',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(('#' * 100 + '\\n') * 12000 + t + '\\n')
  _, out = quiet(arinc424.read_file, p)
  assert out == quiet(arinc424.parse, t)[1]
''')

bug('table-reused', 'C13', [('record.py', '''    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
''', '''    table = TABLE
    table.align = 'l'
    for field in self.fields:
'''), ('record.py', '''    if output is True:
      print(table)
    return table.get_string()
''', '''    if output is True:
      print(table)
    text = table.get_string()
    table.clear_rows()
    return text
'''), ('record.py', '''class Record():

  def __init__(self):
''', '''TABLE = PrettyTable(field_names=['Field', 'Value', 'Decoded'])


class Record():

  def __init__(self):
''')], 'a record that cannot be decoded, then any other record', 'the rows of the failed record appear in the next table',
'''
bad = read(line('D ', {22: '0', 23: 'ABCDE'}))
want = quiet(read(line('AS')).decode)[0]
try:
  quiet(bad.decode)
except ValueError:
  pass
assert quiet(read(line('AS')).decode)[0] == want
''')

bug('value-stripped', 'C20', [('decoder.py', '''    return self.decode_fn(self.value, record)
''', '''    text = self.decode_fn(self.value, record)
    if self.value == '   ':
      self.value = ''
    return text
''')], 'JSON after decoding, of a record with a blank field', 'the raw value of a blank field is lost',
'''
r = read(line('AS'))
a = raw(r)
try:
  quiet(r.decode)
except ValueError:
  pass
assert raw(r) == a
''')

bug('freq-memo', 'C13', [('decoder.py', '''def field_034(value, record):
  value = value.strip()
  if len(value) > 0:
''', '''def field_034(value, record, seen={}):
  value = value.strip()
  if value not in seen:
    seen[value] = frequency(value, record)
  return seen[value]


def frequency(value, record):
  if len(value) > 0:
''')], 'an NDB with the same frequency digits as a VOR read before', 'the NDB is shown with the VOR scale',
'''
a = line('DB', {22: '0', 23: '11330'})
b = line('D ', {22: '0', 23: '11330'})
want = shown(read(a))['NDB Frequency'] if 'NDB Frequency' in shown(read(a)) else None
fresh = os.popen('true')
quiet(read(b).decode)
import subprocess
code = "import sys; sys.path.insert(0, 'src'); import arinc424; r = arinc424.Record(); r.read(sys.argv[1]); print(r.decode(False))"
def alone(t):
  return subprocess.run([sys.executable, '-c', code, t], capture_output=True, text=True, check=True).stdout.strip()
assert quiet(read(b).decode)[0].strip() == alone(b)
assert quiet(read(a).decode)[0].strip() == alone(a)
''')

bug('section-blank-only', 'C01', [('record.py', '''    elif identifier_2 in records:
''', '''    elif self.raw[5] == ' ' and identifier_2 in records:
''')], 'an airport record with a character in column 6', 'a record named by columns 5 and 13 is refused',
'''
t = list(line('PG', at13=True, cols={6: 'X', 22: '0'}))
assert quiet(arinc424.Record().read, ''.join(t))[0] is True
''')

bug('cont-order', 'C03', [('record.py', '''    return self.continuation == '1'
''', '''    return self.continuation.isdigit() and int(self.continuation) % 2 == 1 or self.continuation == 'B'
''')], 'nothing: only continuation number 1 reaches the line, so this one is equivalent', 'equivalent', '''
''')

bug('service-stripped', 'C08', [('decoder.py', '''def field_106(value, record):
  if (value.strip() == ''):
    return value
  sections = defaultdict(def_val)
''', '''def field_106(value, record):
  if (value.strip() == ''):
    return value
  value = value.rstrip().ljust(3) if value[0] != ' ' else value.strip().center(3)
  sections = defaultdict(def_val)
''')], 'a service indicator in the third column', 'a code of the third column is shown with the meaning of the second column',
'''
from arinc424 import decoder
class R: ident = 'PV'
assert decoder.field_106('  A', R) != decoder.field_106(' A ', R)
''')

bug('localizer-blank', 'C11', [('decoder.py', '''def field_103(value, record):
  if (value.isnumeric()):
''', '''def field_103(value, record):
  if (value.strip().isnumeric()):
''')], 'a communication frequency with a blank in it', 'a malformed frequency is shown as a valid one',
'''
from arinc424 import decoder
assert decoder.field_103(' 118300', None) == 'BAD VALUE'
''')

bug('parse-text', 'C19', [('__init__.py', '''  if r.read(line):
    r.decode(output)
    return True
  return False
''', '''  if r.read(line):
    return r.decode(output).count('Continuation') < 12
  return False
''')], 'a record whose free text holds the word Continuation often', 'parse returns False for a record',
'''
t = line('PA', {22: '2', 23: 'A'})
t = t[:23] + ('Continuation' * 6)[:69] + t[92:]
t = t[:23] + ('Continuation' * 9)[:100] + t[123:]
assert len(t) == 132
assert quiet(arinc424.parse, t)[0] is True
''')

bug('gc-off', 'C21', [('__init__.py', '''def read_file(path, output=True):
''', '''def _fast(fn):
  def run(*args, **kwargs):
    gc.disable()
    result = fn(*args, **kwargs)
    gc.enable()
    return result
  return run


@_fast
def read_file(path, output=True):
'''), ('__init__.py', '''import os
''', '''import gc
import os
''')], 'a file with a record that cannot be decoded', 'the garbage collector of the process stays switched off',
'''
import gc
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(line('D ', {22: '0', 23: 'ABCDE'}) + '\\n')
  try:
    quiet(arinc424.read_file, p)
  except ValueError:
    pass
assert gc.isenabled()
''')

bug('json-hook', 'C21', [('record.py', '''    if single_line:
      data = json.dumps(d)
''', '''    if single_line:
      json.encoder.c_make_encoder = None
      data = json.dumps(d)
''')], 'a JSON dump', 'the json module of the whole process is changed',
'''
import json.encoder
before = json.encoder.c_make_encoder
raw(read(line('AS')))
assert json.encoder.c_make_encoder is before
''')

bug('search-counts-lines', 'C18', [('__init__.py', '''      print(r.raw)
      count = count + 1
''', '''      print(r.raw)
      count = count + (r.primary() or r.continuation != '1')
''')], 'nothing', 'equivalent', '''
''')

bug('search-longest', 'C18', [('__init__.py', '''        if all(map(r.raw.__contains__, filters)) is False:
          continue
''', '''        rest = r.raw
        for s in filters:
          if s not in rest:
            break
          rest = rest.replace(s, '', 1)
        else:
          rest = None
        if rest is not None:
          continue
''')], 'two search texts that overlap in the record', 'a record that contains both texts is not listed',
'''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(t + '\\n')
  assert t in quiet(arinc424.search, p, ['SUSA', 'USAA'])[1]
''')

bug('folder-order', 'C17', [('__init__.py', '''  for file in os.scandir(path):
    read_file(os.path.join(path, file.name))
''', '''  try:
    for file in os.scandir(path):
      read_file(os.path.join(path, file.name))
  except ValueError as e:
    print(e)
''')], 'a folder with a record that cannot be decoded', 'the error does not reach the caller and the remaining files are skipped',
'''
with tempfile.TemporaryDirectory() as d:
  for n in 'ab':
    open(os.path.join(d, n), 'w').write(line('D ', {22: '0', 23: 'ABCDE'}) + '\\n')
  try:
    quiet(arinc424.read_folder, d)
  except ValueError:
    sys.exit(0)
  sys.exit(1)
''')

bug('hidden-values', 'C15', [('record.py', '''      d.update({field.name: field.value})
''', '''      d[field.name] = d.get(field.name) or field.value if field.value.strip() else ' ' * len(field.value)
''')], 'a field whose blank value holds a tab', 'the raw value is changed',
'''
t = line('AS', {31: '\\t\\t\\t'})
assert '\\t\\t\\t' in raw(read(t)).values()
''')

bug('route-order', 'C05', [('definitions/CompanyRoute.py', 'PLACEHOLDER', '')], '', '', '')

bug('latched-output', 'C16', [('record.py', '''    if output is True:
      print(table)
    return table.get_string()
''', '''    if output is True and self.__dict__.setdefault('shown', None) != table.get_string():
      self.shown = table.get_string()
      print(table)
    return table.get_string()
''')], 'decoding one record twice with output on', 'the second decode prints nothing',
'''
r = read(line('AS'))
a = quiet(r.decode)[1]
assert a and quiet(r.decode)[1] == a
''')

bug('angle-sign', 'C10', [('decoder.py', '''# 5.70 Vertical Angle (VERT ANGLE)
def field_070(value, record):
  return value
''', '''# 5.70 Vertical Angle (VERT ANGLE)
def field_070(value, record):
  return value if value[:1] != '+' else value[1:].rjust(len(value))
''')], 'a vertical angle with a plus sign', 'the sign is dropped',
'''
from arinc424 import decoder
assert decoder.field_070('+300', None) == '+300'
''')

bug('leg-seconds', 'C09', [('decoder.py', """    return '{}m {}s'.format(int(value[0]), int(value[1])*6)
""", """    return '{0[0]}m {0[1]}s'.format(divmod(round(float(value[0] + '.' + value[1]) * 60 - 0.01 * (value == '97')), 60))
""")], 'nothing', 'equivalent', '''
''')

bug('cont-letter', 'C04', [('definitions/VHFNavaid.py', '''    application = line[self.app_idx]
    match application:
      case 'A':
''', '''    application = line[self.app_idx]
    if line[self.cont_idx] == '9' and application == 'P':
      application = 'S'
    match application:
      case 'A':
''')], 'continuation number 9 with application type P', 'a flight planning continuation is read with the simulation layout',
'''
a = raw(read(line('D ', {22: '9', 23: 'P'})))
b = raw(read(line('D ', {22: '2', 23: 'P'})))
assert list(a) == list(b)
''')
BUGS[:] = [b for b in BUGS if b['breaks'] not in ('equivalent', '')]
