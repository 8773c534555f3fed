"""Which passes decide which property."""
import itertools
import os

from .core import Broken, shards

ASSUMPTIONS = [
    'lines are ASCII; leading and trailing white space of up to 3 characters is analysed symbolically, 132 columns in between',
    'the engine models the Python constructs and library calls the package uses (engine/); a construct it does not model leaves its part undecided',
    'PrettyTable, json.dumps and termcolor are taken to render what they are given; Python itself is as documented',
    'the reference layouts and tables (spec/) are the reviewed reading of ARINC 424 for the supported section codes',
]

READ = 'every accepted part of the input is compared with the reference classification of the same line'
PROPERTIES = {
    'C01': ('records', 'section codes: read() is evaluated on a symbolic 132-column line per section code; the kind it settles on is compared with '
            'the reference (columns 5-6, else 5 and 13)'),
    'C02': ('records', 'acceptance: read() is evaluated on symbolic lines of every length and padding; accepted exactly where the reference accepts'),
    'C03': ('records', 'continuation numbers: which layout a line is read by, primary() and hasCont(), for every character in the number column'),
    'C04': ('records', 'application types: layout chosen for every value of the application type columns of every section code'),
    'C05': ('records', 'primary layouts: labels, columns and meanings of every field on symbolic lines, compared with the reference'),
    'C06': ('records', 'continuation layouts: labels, columns and meanings of every field on symbolic lines, compared with the reference'),
    'C07': ('layout', 'layout rules: unique labels, columns in range, ordered, disjoint; header, trailer, number and application type in place'),
    'C08': ('records', 'coded values: every abstract value of every coded field compared with the reference code tables'),
    'C09': ('records', 'numeric values: the scaled text of every numeric field compared with the reference on symbolic digits'),
    'C10': ('records', 'verbatim values: identifiers, coordinates and text are shown column for column'),
    'C11': ('records', 'values outside a field\'s domain: shown as unknown or refused exactly where the reference says so'),
    'C12': ('records', 'exceptions: every path that raises is collected; only decode() may raise, only ValueError, only on a refused field'),
    'C13': ('history', 'histories: a used record against a new one on every line, and every line again after a history of many records'),
    'C14': ('records', 'tables: rows of the abstract table decode() builds against the layout, in order'),
    'C15': ('records', 'json: members of the abstract object json() builds against the layout, both forms'),
    'C16': ('observe', 'output switch: what is printed with output on, off and left out against what is returned'),
    'C17': ('files', 'files and folders: output of read_file/read_folder against one record after the other, over abstract files'),
    'C18': ('files', 'search: listed records and count against containment of arbitrary texts, over abstract files'),
    'C19': ('observe', 'parse: value and output against reading and decoding the record'),
    'C20': ('observe', 'observers: answers repeated and state compared around every call that only looks'),
    'C21': ('files', 'effects: files opened, closed and written on every path, and a scan of every call for effects on the world'),
}
PROPERTIES = {k: {'group': a, 'rule': b} for k, (a, b) in PROPERTIES.items()}

HEAVY = {'TG': 4, 'T_G': 4, 'T?G': 4, 'HV': 4, 'H_V': 3, 'H?V': 3, 'EV': 4, 'E_V': 3, 'E?V': 3, 'PV': 4, 'P_V': 3, 'P?V': 3, 'ER': 3, 'ET': 3}


def weight(task):
  if len(task) > 1 and isinstance(task[1], str):
    return HEAVY.get(task[1], 1) + (2 if len(task[1]) == 2 else 0)
  return 1


def chunks(names, k):
  out = [[] for _ in range(k)]
  for i, n in enumerate(names):
    out[i % k].append(n)
  return [tuple(c) for c in out if c]


def plan(prop, tier):
  """(passes, tasks)"""
  from .records import Records
  names = [n for n, _ in shards()]
  group = PROPERTIES[prop]['group']
  passes, tasks = {}, []
  thorough = tier == 'thorough'
  if group == 'records':
    R = passes['rec'] = Records()
    tasks += [('rec', n) for n in names]
    if prop == 'C03':
      tasks.append(('rec', 'unread'))
    if prop in ('C02', 'C05', 'C06', 'C15', 'C10') or thorough:
      from .lengths import Padded
      P = passes['pad'] = Padded(share=R)
      for a, b in P.variants:
        tasks += [('pad', a, b, c) for c in chunks(names, 4)]
    if prop in ('C02', 'C12') or thorough:
      from .lengths import Lengths
      passes['len'] = Lengths(share=R)
      ns = [n for n in range(0, 141) if n != 132] + [150, 200, 264, 265, 400]
      tasks += [('len', n, a, a) for n in ns for a in ((0, 1) if n else (0, 1, 3))]
      if thorough:
        tasks += [('len', n, 3, 1) for n in range(110, 300) if n != 132]
    if prop == 'C15' or (thorough and prop in ('C14', 'C12', 'C08', 'C09')):
      from .observe import Observe
      passes['obs'] = Observe(share=R)
      tasks += [('obs', n) for n in names if thorough or len(n) == 2]
    if prop == 'C12':
      tasks += file_tasks(passes, R, prop, thorough)
  elif group == 'layout':
    from .layout import Layout
    passes['lay'] = Layout()
    tasks += [('lay', n) for n in names]
  elif group == 'observe':
    from .observe import Observe
    O = passes['obs'] = Observe()
    tasks += [('obs', n) for n in names if thorough or len(n) == 2 or n in ('other', 'E??', 'P??', 'P_A', 'P_D', 'H_A', 'D_B', 'E_U')]
    if prop == 'C20':
      from .observe import Failing
      passes['fail'] = Failing(share=O)
      tasks += [('fail', n) for n in names if thorough or len(n) == 2]
    if prop == 'C16':
      tasks += file_tasks(passes, O, prop, thorough)
    if prop == 'C19':
      tasks += file_tasks(passes, O, prop, thorough)
  elif group == 'history':
    from .history import History, Warm
    H = passes['hist'] = History()
    passes['warm'] = Warm()
    for v in H.prior:
      tasks += [('hist', v, c) for c in chunks(names, 2)]
    tasks += [('warm', n) for n in names] + [('warm', 'probes')]
    from .observe import Failing
    passes['fail'] = Failing(share=H)
    tasks += [('fail', n) for n in names if thorough or len(n) == 2]
  elif group == 'files':
    R = Records(('json',))
    tasks += file_tasks(passes, R, prop, thorough)
    if prop == 'C21':
      from .effects import Effects
      passes['scan'] = Effects(share=R)
      tasks.append(('scan',))
      from .events import Events
      passes['ev'] = Events(share=R)
      tasks += [('ev', n) for n in names if thorough or len(n) == 2 or n == 'other']
  return passes, tasks


def file_tasks(passes, share, prop, thorough):
  from .files import Files
  F = passes['file'] = Files(share=share)
  K = list(F.lib.kinds)
  acc = list(F.lib.ACCEPTED)
  t = []
  if prop in ('C17', 'C21', 'C16', 'C12', 'C19'):
    for mode in ('default', 'on', 'off'):
      t.append(('file', 'read_file', (), True, mode))
      for k in K:
        t.append(('file', 'read_file', (k,), True, mode))
        t.append(('file', 'read_file', (k,), False, mode))
    if prop in ('C17', 'C21') or thorough:
      for a in K:
        for b in K:
          if a in acc or b in acc or thorough:
            t.append(('file', 'read_file', (a, b), False, 'default'))
      for a in acc[:4]:
        t.append(('file', 'read_file', (a, 'same'), True, 'default'))
        t.append(('file', 'read_file', (a, 'same', 'same'), False, 'default'))
        for b in ('blank', 'not form', 'not number', 'not application', 'header', 'undecodable', 'short'):
          t.append(('file', 'read_file', (a, b, 'primary'), True, 'default'))
          t.append(('file', 'read_file', (b, b, a), False, 'default'))
          t.append(('file', 'read_file', (a, b, 'enroute'), True, 'off'))
      mix = ['plain', 'primary', 'blank', 'continuation', 'header', 'enroute', 'not section', 'airspace', 'more', 'not number']
      t.append(('file', 'read_file', tuple(mix), True, 'default'))
      t.append(('file', 'read_file', tuple(mix[::-1]), False, 'default'))
      t.append(('file', 'read_file', tuple(itertools.islice(itertools.cycle(mix), 1200 if thorough else 300)), True, 'default'))
      t.append(('file', 'read_file', ('plain', 'huge', 'primary', 'enroute'), True, 'default'))
      for k in ('blocks', 'thousands'):
        t.append(('file', 'read_file', (k, 'plain', 'primary'), True, 'default'))
      t.append(('file', 'read_file', ('plain',) + ('blank',) * (20000 if thorough else 5000) + ('primary', 'plain'), True, 'default'))
  if prop in ('C17', 'C21'):
    for n in folder_names(thorough):
      t.append(('file', 'read_folder', n, tuple((k,) for k, _ in zip(itertools.cycle(('plain', 'primary', 'enroute')), n))))
    t.append(('file', 'read_folder', ('a', 'b'), (('plain', 'blank', 'more'), ('not form', 'airspace'))))
    t.append(('file', 'read_folder', ('a', 'b'), (('plain',), ())))
    t.append(('file', 'read_folder', ('a', 'b'), (('undecodable',), ('plain',))))
    t.append(('file', 'read_folder', ('a', 'b'), (('plain',), ('undecodable',))))
    t.append(('file', 'read_folder', ('a', 'b', 'c'), (('plain',), ('same' if False else 'plain',), ('plain',))))
  if prop in ('C18', 'C21'):
    for n in (-1, 0, 1, 2) + ((3,) if thorough else ()):
      t.append(('file', 'search', (), n))
      t.append(('file', 'search', ('plain', 'huge', 'primary'), n))
      if n < 1:
        t.append(('file', 'search', ('blocks', 'plain', 'primary'), n))
        t.append(('file', 'search', ('thousands', 'plain', 'primary'), n))
      if n == -1:
        t.append(('file', 'search', ('plain',) + ('blank',) * 2500 + ('primary', 'plain'), n))
      for k in K:
        if n != 2 or k in acc[:2] or thorough:
          t.append(('file', 'search', (k,), n))
          t.append(('file', 'search', (k,), n, False))
      for a in acc[:6]:
        for b in ('blank', 'not form', 'not number', 'not section', 'continuation', 'more', 'same', 'undecodable', 'header'):
          if n in (-1, 1) or (n == 2 and a in ('plain', 'primary')) or thorough:
            t.append(('file', 'search', (a, b), n))
            t.append(('file', 'search', (b if b != 'same' else a, a), n, False))
      t.append(('file', 'search', ('plain', 'blank', 'primary', 'not form', 'continuation'), n))
    t.append(('file', 'search', ('plain', 'primary', 'continuation', 'more'), -1))
    t.append(('file', 'search', tuple(itertools.islice(itertools.cycle(('plain', 'blank', 'primary', 'header')), 120)), 0))
  return t


def folder_names(thorough):
  """folder contents; names made from the texts the package's own file handling mentions"""
  import ast
  from .core import PKG
  base = [(), ('FAACIFP18',), ('a', 'b'), ('b.pc', 'a.dat', 'C.TXT'), ('.hidden', 'x~', 'README'), ('a.tmp', 'a.bak', 'a'),
          ('data', 'data.gz', 'nav.pc'), ('1', '10', '2'), ('a b', '-x', '_y')]
  words = set()
  for f in ('__init__.py', 'record.py'):
    try:
      tree = ast.parse(open(os.path.join(PKG, f)).read())
    except (OSError, SyntaxError):
      continue
    for n in ast.walk(tree):
      if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 12 and '/' not in n.value and '\n' not in n.value:
        words.add(n.value)
  for w in sorted(words)[:60]:
    base.append((w + 'x', 'x' + w, 'plain'))
  return base


def followup(prop, outs):
  """further stages. Lines that leave something behind become part of a longer history;
  findings after a history that are there without one are no history"""
  if prop != 'C13':
    return None
  from .history import Warm, Cold
  passes, tasks = {}, []
  done = {o.task[1] for o in outs if o.task[0] == 'cold'}
  bad = sorted({o.task[1] for o in outs if o.task[0] in ('warm', 'warm2') and o.findings} - done - {'probes'})
  if bad:
    passes['cold'] = Cold()
    tasks += [('cold', n) for n in bad]
  if not any(o.task[0] == 'warm2' for o in outs):
    lines = sorted({t for o in outs if o.task[0] == 'warm' for t in (o.notes or {}).get('triggers', ())})
    if lines:
      passes['warm2'] = Warm(lines[::max(1, len(lines) // 150)])
      tasks += [('warm2', n) for n, _ in shards()] + [('warm2', 'probes')]
  return (passes, tasks) if tasks else None


def settle(prop, outs):
  if prop != 'C13':
    return
  cold = {}
  for o in outs:
    if o.task[0] == 'cold':
      cold[o.task[1]] = None if o.error else {(f.rule, str(f.key)) for f in o.findings}
      o.findings = []
  for o in outs:
    if o.task[0] not in ('warm', 'warm2') or o.task[1] == 'probes':
      continue
    base = cold.get(o.task[1])
    keep = []
    for f in o.findings:
      if base is None or (f.rule, str(f.key)) in base:
        continue
      f.tags = frozenset({'C13'})
      f.what = 'after other records were read: ' + f.what
      keep.append(f)
    o.findings = keep


def merge_notes(acc, n):
  for k, v in (n or {}).items():
    if isinstance(v, set):
      acc.setdefault(k, set()).update(v)
    elif isinstance(v, dict):
      d = acc.setdefault(k, {})
      for a, b in v.items():
        d[a] = d.get(a, 0) + b


def vacuous(prop, total, notes, outs):
  """a reason why a silent run would mean nothing"""
  if not total.leaves:
    return 'no part of the input was analysed'
  if total.undecided >= total.leaves:
    return 'every part of the input was left undecided'
  g = PROPERTIES[prop]['group']
  if g in ('records', 'layout', 'observe', 'history') and not total.accepted:
    return 'no line was read as a record'
  if all(o.error for o in outs):
    return 'every pass failed'
  if g == 'files' and not notes.get('rules'):
    return 'none of the file functions could be analysed'
  return None
