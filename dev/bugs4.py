BUGS = []


def bug(id, property, edits, needs, breaks, demo):
  BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


READ = '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
'''
FILE = '''
def lines_of(text, **k):
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f')
    open(p, 'w', encoding='utf-8').write(text)
    return quiet(arinc424.read_file, p)[1]
'''

bug('ascii-file', 'C17', [('__init__.py', READ, '''  with open(path, encoding='ascii') as f:
    for line in f.readlines():
      parse(line, output)
''')], 'a file with an accented letter in a comment line', 'reading the file raises instead of skipping the comment',
FILE + '''
t = line('AS')
assert lines_of('# Z\\u00fcrich\\n' + t + '\\n') == quiet(arinc424.parse, t)[1]
''')

bug('dropped-bytes', 'C17', [('__init__.py', READ, '''  with open(path, encoding='ascii', errors='ignore') as f:
    for line in f.readlines():
      parse(line, output)
''')], 'a record with an accented letter in its name', 'the record is one column short and skipped',
FILE + '''
t = line('PA', {22: '0', 94: 'GEN\\u00c8VE', 31: 'N', 50: 'E'})
assert lines_of(t + '\\n') == quiet(arinc424.parse, t)[1] != ''
''')

bug('blocks', 'C17', [('__init__.py', READ, '''  with open(path) as f:
    rest = ''
    while block := f.read(8192):
      *lines, rest = (rest + block).split('\\n')
      for line in lines:
        parse(line, output)
''')], 'a file whose last line has no line end', 'the last line is not handled',
FILE + '''
t = line('AS')
assert lines_of(t + '\\n' + t) == quiet(arinc424.parse, t)[1] * 2
''')

bug('blocks-cut', 'C17', [('__init__.py', READ, '''  with open(path) as f:
    while block := f.read(1 << 16):
      for line in block.split('\\n'):
        parse(line, output)
''')], 'a file longer than a block, with a record across the boundary', 'the record across the boundary is skipped',
FILE + '''
t = line('AS')
assert lines_of('#' * 65500 + '\\n' + t + '\\n') == quiet(arinc424.parse, t)[1]
''')

bug('search-consumed', 'C18', [('__init__.py', '''        if all(map(r.raw.__contains__, filters)) is False:
          continue
''', '''        pending = iter(r.raw.split())
        if not all(any(s in word for word in pending) for s in filters):
          continue
''')], 'two search texts in the order opposite to the record, or one with a blank', 'records that contain both are not listed',
'''
t = line('PA', {22: '0', 94: 'ZURICH', 7: 'LSZH'})
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(t + '\\n')
  assert t in quiet(arinc424.search, p, ['ZURICH', 'LSZH'])[1]
''')

bug('search-counted-lines', 'C18', [('__init__.py', '''    count = 0
    for line in f.readlines():
      r = Record()
''', '''    for count, line in enumerate(f.readlines()):
      r = Record()
'''), ('__init__.py', '''      print(r.raw)
      count = count + 1
    print(''', '''      print(r.raw)
    count = len([1 for _ in ()])
    print(''')], 'any hit', 'the closing line says 0', '''
t = line('AS')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write(t + '\\n')
  assert 'Found 1 ' in quiet(arinc424.search, p, 'SUSA')[1]
''')

bug('underscore-digits', 'C11', [('decoder.py', '''def field_103(value, record):
  if (value.isnumeric()):
''', '''def field_103(value, record):
  try:
    number = int(value)
  except ValueError:
    number = -1
  if (number >= 0):
''')], 'a communication frequency with an underscore or sign', 'a malformed frequency is shown as a valid one',
'''
from arinc424 import decoder
assert decoder.field_103('1_18300', None) == 'BAD VALUE'
assert decoder.field_103('+118300', None) == 'BAD VALUE'
''')

bug('section-order', 'C01', [('record.py', '''    if identifier_1 in records:
      self.ident = identifier_1
    elif identifier_2 in records:
      self.ident = identifier_2
''', '''    if identifier_2 in records and identifier_1[1] not in 'ACKS':
      self.ident = identifier_2
    elif identifier_1 in records:
      self.ident = identifier_1
''')], 'a record named by columns 5-6 with a letter in column 13 that makes another section', 'it is read as the other kind',
'''
t = line('ER', {13: 'A', 39: '0', 22: '0'})
assert read(t).ident == 'ER'
''')

bug('json-numbers', 'C15', [('record.py', '''      data = json.dumps(d)
''', '''      data = json.dumps({k: int(v) if v.isdigit() and str(int(v)) == v and k.startswith('Sector') else v for k, v in d.items()})
''')], 'a sector bearing without leading zero', 'the raw text is a number in the json object',
'''
t = line('PS', at13=False, cols={39: '0', 43: '180360'})
j = raw(read(t))
assert all(isinstance(v, str) for v in j.values()), j
''')

bug('environment', 'C21', [('__init__.py', '''    print(colored(f"Found {count} records that contain {filters}", 'green' if count else 'red'))
''', '''    if not count:
      os.environ.setdefault('NO_COLOR', '1')
    print(colored(f"Found {count} records that contain {filters}", 'green' if count else 'red'))
''')], 'a search without hits', 'the process environment is changed',
'''
os.environ.pop('NO_COLOR', None)
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'f')
  open(p, 'w').write('\\n')
  quiet(arinc424.search, p, 'x')
assert 'NO_COLOR' not in os.environ
''')

bug('handler', 'C21', [('record.py', '''  def decode(self, output=True):
    table =''', '''  def decode(self, output=True):
    if output is True and len(self.fields) > 35:
      import signal
      signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    table =''')], 'a record with more than 35 fields', 'the signal handling of the process is changed',
'''
import signal
before = signal.getsignal(signal.SIGPIPE)
for s in ('TC', 'PF', 'PE', 'AS', 'UF', 'R ', 'RA', 'ER'):
  r = arinc424.Record()
  for t in (line(s, {39: '0', 22: '0', 25: '0'}), line(s, {39: '0', 22: '0'}, at13=True)):
    if quiet(r.read, t)[0]:
      try:
        quiet(r.decode)
      except ValueError:
        pass
assert signal.getsignal(signal.SIGPIPE) is before
''')

bug('last-of-kind', 'C13', [('record.py', '''    self.definition = records[self.ident]
''', '''    self.definition = records[self.ident]
    if self.raw[-9:-4] == '00000':
      records[self.ident] = type('Seen', (type(self.definition),), {'__init__': lambda s: None})()
      records[self.ident].__dict__.update(self.definition.__dict__)
      records[self.ident].name = getattr(self.definition, 'name', '') + '*'
''')], 'a refused line after a record with file record number 0', 'the diagnostic names another kind',
'''
bad = line('PA', {22: '-'})
want = quiet(arinc424.Record().read, bad)[1]
read(line('PA', {22: '0'}, tail='000001808'))
assert quiet(arinc424.Record().read, bad)[1] == want
''')

bug('stderr-table', 'C16', [('record.py', '''    if output is True:
      print(table)
    return table.get_string()
''', '''    if output is True:
      print(table, file=sys.stderr if len(self.fields) < 12 else sys.stdout)
    return table.get_string()
'''), ('record.py', '''import json
''', '''import json
import sys
''')], 'a record with few fields', 'the table goes to standard error',
'''
found = 0
for s in ('D ', 'PA', 'UC', 'UR', 'PV', 'HV', 'EV', 'PG', 'PI', 'EA', 'PC', 'ER'):
  for c in (22, 25, 39, 26, 18, 20, 56):
    for at in (False, True):
      for app in 'ACEGLNPQSTUVWZ ':
        r = arinc424.Record()
        t = line(s, {c: '2', c + 1: app}, at13=at)
        if quiet(r.read, t)[0]:
          try:
            text, out = quiet(r.decode)
          except ValueError:
            continue
          found += 1
          assert out == text + '\\n'
assert found
''')

bug('seq-widths', 'C10', [('decoder.py', '''def field_013(value, record):
  return value
''', '''def field_013(value, record):
  return value if value.isascii() and '\\t' not in value else value.expandtabs(1)
''')], 'a fix identifier with a tab', 'the tab is replaced',
'''
from arinc424 import decoder
assert decoder.field_013('A\\tB', None) == 'A\\tB'
''')

bug('hascont-latch', 'C20', [('record.py', '''  def hasCont(self):
    if self.primary() is False:
      return False
    return self.continuation == '1'
''', '''  def hasCont(self):
    if self.primary() is False:
      self.continuation = self.continuation.upper()
      return False
    return self.continuation == '1'
''')], 'a continuation with a lower case number', 'hasCont() changes the record',
'''
r = read(line('PA', {22: 'b', 23: 'A'}))
a = dict(r.__dict__)
r.hasCont()
assert r.__dict__ == a
''')

bug('recursion', 'C12', [('decoder.py', '''def field_012(value, record):
  match len(value.strip()):
''', '''def field_012(value, record):
  if value.startswith('0') and value.strip('0') == '':
    return field_012(value.replace('0', 'O', 1), record) if value != '000' else field_012(value + '', record)
  match len(value.strip()):
''')], 'sequence number 000', 'decoding raises RecursionError',
'''
from arinc424 import decoder
try:
  decoder.field_012('000', None)
except ValueError:
  pass
''')

bug('assertion', 'C12', [('decoder.py', '''def field_010(value, record):
''', '''def field_010(value, record):
  assert value.isprintable()
''')], 'a control character in an approach identifier', 'decoding raises an AssertionError',
'''
from arinc424 import decoder
decoder.field_010('A\\x01  ', None)
''')
