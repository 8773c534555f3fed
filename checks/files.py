"""read_file, read_folder and search over files whose lines are given abstractly."""
import ast
import itertools
import re

from .observe import *
from . import samples
from .effects import acts

PRINT = PRINTABLE & ~C.WS          # printable, not white space
PATH = 'data/nav.pc'
FREE = (1, 2, 3)                   # columns left open in every example record (area code)


class Lines:
  """the kinds of lines a file can hold: text, restrictions, and whether every record
  in it can be decoded"""

  def __init__(self, seed=1):
    rng = random.Random(seed)
    pick = {}
    for name, ident, sel in (('plain', 'AS', 'primary'), ('primary', 'PA', 'primary'), ('continuation', 'PA', 'A'),
                             ('enroute', 'EA', 'primary'), ('airspace', 'UR', 'primary')):
      pick[name] = self.decodable(ident, sel, rng)
    self.concrete = pick
    one = list(pick['primary'])
    one[SPEC.CONTINUATION['PA'][0] - 1] = '1'
    zero = list(pick['primary'])
    zero[SPEC.CONTINUATION['PA'][0] - 1] = '0'
    pick['primary'] = ''.join(zero)
    pick['more'] = ''.join(one)
    tail = list(pick['plain'])
    tail[0] = 'T'
    pick['tailored'] = ''.join(tail)
    # no blank anywhere; and a tab
    dense = pick['plain'].replace(' ', 'Q')
    pick['dense'] = dense[:5] + 'S' + dense[6:]
    pick['tab'] = pick['plain'][:40] + 'A\tB' + pick['plain'][43:]
    ref = samples.refused(seed)
    self.kinds = {}
    for k, v in pick.items():
      self.kinds[k] = v
    for k in ('section', 'number', 'application', 'trailer', 'form'):
      self.kinds['not ' + k] = ref[k]
    self.kinds['header'] = ('HDR01FAACIFP18      001P013203974811608  13-OCT-2016').ljust(132)
    self.kinds['comment'] = '# ' + pick['plain'][2:60]
    self.kinds['blank'] = ''
    self.kinds['spaces'] = '   '
    self.kinds['short'] = pick['plain'][:131]
    self.kinds['long'] = pick['plain'][:60] + 'X' + pick['plain'][60:]
    self.kinds['indented'] = '  ' + pick['primary'] + '  '
    bad = list(pick['plain'])
    self.bad = self.undecodable(rng)
    self.kinds['undecodable'] = self.bad
    # beyond ASCII: a comment, and a record (its text as it is)
    self.kinds['accented'] = '# Zürich – Genève'
    at = next(idx for nm, idx, kind in SPEC.LAYOUTS['PA', 'primary'] if 'Name' in nm)
    self.kinds['foreign'] = pick['primary'][:at[0]] + 'GENÈVE' + pick['primary'][at[0] + 6:]
    # a line longer than any buffer somebody may read a file by
    self.long = {'huge': '#' + 'x' * (3 << 20)}
    # the line after it lies across a boundary of blocks of any usual size
    self.long['blocks'] = '#' * ((1 << 20) - 61)
    self.long['thousands'] = '#' * (1000000 - 61)
    self.ACCEPTED = ('plain', 'primary', 'more', 'continuation', 'enroute', 'airspace', 'tailored', 'indented', 'dense', 'tab')

  @staticmethod
  def decodable(ident, sel, rng):
    t = samples.valid_line(ident, sel, rng)
    assert t is not None
    return t

  @staticmethod
  def undecodable(rng):
    """a VHF navaid whose frequency is no frequency"""
    t = samples.layout_line('D ', 'primary', rng, fill=' ')
    rows = SPEC.LAYOUTS['D ', 'primary']
    for nm, idx, kind in rows:
      if kind == '034':
        t = t[:idx[0]] + 'ABCDE'[:len(idx)] + t[idx[-1] + 1:]
    return t

  def make(self, kind, slot, region):
    """abstract text of one line (without its end); opens a few columns"""
    if kind in self.long:
      return self.long[kind]
    t = self.kinds[kind]
    if kind in self.ACCEPTED or kind in ('not section', 'undecodable'):
      off = len(t) - len(t.lstrip())
      el = list(t)
      for i in FREE:
        c = col('%s%s' % (kind[0], slot), i)
        region.restrict(c, PRINT)
        el[off + i] = c
      return mkstr(tuple(el))
    return t


class Files(Observe):

  def __init__(self, share=None):
    Observe.__init__(self, share)
    self.lib = Lines(int(os.environ.get('VERIF_SEED', '1') or 1))
    self.fn = {n: self.pkg.vars.get(n) for n in ('read_file', 'read_folder', 'search', 'parse')}

  def task(self, kind, *args):
    getattr(self, 'do_' + kind)(*args)

  # ---------------------------------------------------------------- the world

  def world(self, files, dirs=None):
    """files: path -> lines; what open() and a listing find"""
    I = self.I

    def fs(I, path):
      p = S.norm(I, path)
      return files.get(p) if isinstance(p, str) else None

    def ls(I, path):
      p = S.norm(I, path)
      return (dirs or {}).get(p) if isinstance(p, str) else None
    I.fs, I.dirs = fs, ls

  def go(self, region, thunk, judge):
    I = self.I
    p0, t0 = I.n_paths, I.n_tests

    def leaf(l):
      self.stats.leaves += 1
      if l.kind == 'undecided':
        self.stats.undecided += 1
        return
      if l.kind == 'exc':
        self.stats.undecided += 1
        return
      judge(l)
    try:
      I.explore(region, thunk, leaf, 400)
    finally:
      I.fs = I.dirs = None
    self.stats.paths += I.n_paths - p0
    self.stats.tests += I.n_tests - t0

  # ---------------------------------------------------------------- handles

  def handles(self, events, allowed, who, region, show):
    """opened read-only, only what the caller named, each closed"""
    opened = {}
    self.rule('files are opened read-only and closed')
    for e in flat(events):
      if e[0] == 'open':
        path, mode, site = S.norm(self.I, e[1]), e[2], e[3]
        if not isinstance(mode, str) or set(mode) & set('wax+'):
          self.tell({'C21'}, 'effects', '%s opens a file with mode %r' % (who, mode), site, show, ('mode', site))
        if path not in allowed:
          self.tell({'C21'}, 'effects', '%s opens %r, which the caller did not name' % (who, path), site, show, ('path', site))
        opened.setdefault(path, []).append(site)
      elif e[0] == 'close':
        path = S.norm(self.I, e[1])
        if opened.get(path):
          opened[path].pop()
      elif e[0] in ('write', 'stderr-file') or e[0] == 'external' and acts(e[1]):
        self.tell({'C21'}, 'effects', '%s: %s' % (who, e[0]), e[-1], show, (e[0], e[-1]))
    for p, sites in opened.items():
      for s in sites:
        if self.in_generator(s):
          continue
        self.tell({'C21'}, 'effects', '%s leaves %r open' % (who, p), s, show, ('leak', s))

  def in_generator(self, site):
    """opened in a `with` of a generator: it closes when the caller's loop lets go of the
    generator, also when that is because of an exception"""
    path, _, n = site.rpartition(':')
    for p, a, b in self.I.waiting:
      if p == path and n.isdigit() and a <= int(n) <= b:
        for f in ast.walk(ast.parse(open(path).read())):
          if isinstance(f, (ast.With,)) and a <= f.lineno <= int(n) <= f.end_lineno <= b:
            return True
    return False

  def tell(self, tags, rule, what, site, show, key):
    self.report(tags, rule, site, shorten(what), shorten(show), key=key)

  # ---------------------------------------------------------------- read_file

  def content(self, kinds, region, last_newline=True, slot0=0):
    out = []
    texts = []
    for i, k in enumerate(kinds):
      t = texts[-1] if k == 'same' else self.lib.make(k, slot0 + i, region)
      texts.append(t)
      end = '\n' if last_newline or i < len(kinds) - 1 else ''
      out.append(S.concat(self.I, [t, end]))
    return texts, out

  def expected_output(self, texts, output):
    """one record after the other, the way the caller would"""
    I = self.I
    for t in texts:
      o = I.call(self.Record, [], {})
      if self.truthy(self.method(o, 'read', t)):
        self.method(o, 'decode', output)


  def do_read_file(self, kinds, newline=True, mode='default'):
    f = self.fn['read_file']
    if f is None:
      return
    I = self.I
    R = Region()
    texts, lines = self.content(kinds, R, newline)
    args = {'default': [PATH], 'on': [PATH, True], 'off': [PATH, False]}[mode]
    output = mode != 'off'

    def thunk():
      self.world({PATH: tuple(lines)})
      got = self.attempt(lambda: I.call(f, list(args), {}))
      want = self.attempt(lambda: self.expected_output(texts, output))
      return got, want

    def judge(l):
      got, want = l.value
      show = self.example(l.region, lines)
      self.handles(got[2], {PATH}, 'read_file()', l.region, show)
      self.rule('read_file = its lines one after the other')
      if (got[0] == 'exc') != (want[0] == 'exc'):
        if got[0] == 'exc':
          self.tell({'C17'}, 'read-file', 'read_file() raises %s on a file of records that can be decoded' % exc_name(got[1]), None, show,
                    ('raises', exc_name(got[1])))
        else:
          self.tell({'C17'}, 'read-file', 'read_file() hides that a record cannot be decoded', self.fsite(f), show, 'hides')
        return
      if got[0] == 'exc' and exc_name(got[1]) != exc_name(want[1]):
        self.tell({'C17'}, 'read-file', 'read_file() raises %s instead of %s' % (exc_name(got[1]), exc_name(want[1])), self.fsite(f), show, 'other')
        return
      self.compare_output(l.region, got[2], want[2], 'read_file()', {'C17'} | ({'C16'} if mode == 'off' else set()), f, lines)
    self.go(R, thunk, judge)

  def compare_output(self, region, ea, eb, who, tags, f, lines):
    for r, pa in self.prints(ea, region):
      for r2, pb in self.prints(eb, r):
        a, b = self.as_text(pa), self.as_text(pb)
        d = self.differs(r2, a, b)
        if d:
          self.tell(tags, 'output', '%s prints %s' % (who, diff(d[1], d[2])), self.fsite(f), self.example(r2, lines, d[0]),
                    ('output', who, len(pa) < len(pb)))

  def example(self, region, lines, asg=None):
    cs = set()
    for t in lines:
      cs |= cols_of(t)
    r = region.copy()
    for c, ch in (asg or {}).items():
      r.restrict(c, C.BIT[ch])
    for a in S.sample_assignments(r, cs, 1, random.Random(3)):
      return ''.join(str(S.render(t, a)) for t in lines)
    return None

  # ---------------------------------------------------------------- read_folder

  def do_read_folder(self, names, kinds):
    """one file per name, holding the kinds given for it"""
    f = self.fn['read_folder']
    if f is None:
      return
    I = self.I
    R = Region()
    files, want_texts, show_lines = {}, [], []
    for i, (n, ks) in enumerate(zip(names, kinds)):
      texts, lines = self.content(ks, R, True, slot0=10 * i)
      files['data/' + n] = tuple(lines)
      want_texts.append(texts)
      show_lines += ['== %s\n' % n] + list(lines)

    def thunk():
      self.world(files, {'data': tuple(names), 'data/': tuple(names)})
      got = self.attempt(lambda: I.call(f, ['data'], {}))
      want = []
      for texts in want_texts:
        want.append(self.attempt(lambda: self.expected_output(texts, True)))
      return got, want

    def judge(l):
      got, want = l.value
      show = self.example(l.region, show_lines)
      self.handles(got[2], set(files), 'read_folder()', l.region, show)
      self.rule('read_folder = its files, each once')
      opens = [S.norm(I, e[1]) for e in flat(got[2]) if e[0] == 'open']
      if any(w[0] == 'exc' for w in want):
        if got[0] != 'exc':
          self.tell({'C17'}, 'read-folder', 'read_folder() hides that a record cannot be decoded', self.fsite(f), show, 'hides')
        return
      if got[0] == 'exc':
        self.tell({'C17'}, 'read-folder', 'read_folder() raises %s on files of records that can be decoded' % exc_name(got[1]), None, show,
                  ('raises', exc_name(got[1])))
        return
      left = [p for p in files if p not in opens]
      twice = [p for p in files if opens.count(p) > 1]
      blocks = [self.prints(w[2], l.region) for w in want]
      if any(len(b) != 1 for b in blocks):
        self.stats.undecided += 1
        return
      blocks = [self.as_text(b[0][1]) for b in blocks]
      for r, pa in self.prints(got[2], l.region):
        a = self.as_text(pa)
        best = None
        for perm in itertools.permutations(blocks):
          d = self.differs(r, a, S.norm(I, S.concat(I, list(perm))))
          if d is None:
            best = None
            break
          best = best or d
        if best:
          why = 'leaves out %s' % left if left else 'reads %s more than once' % twice if twice else diff(best[1], best[2])
          self.tell({'C17'}, 'output', 'read_folder() %s' % why, self.fsite(f), show, ('folder', bool(left), bool(twice)))
    self.go(R, thunk, judge)

  # ---------------------------------------------------------------- search

  def do_search(self, kinds, nfilters, newline=True):
    """filters: -1 one text, n a list of n texts; all of them arbitrary"""
    f = self.fn['search']
    if f is None:
      return
    I = self.I
    R = Region()
    texts, lines = self.content(kinds, R, newline)
    toks = [SStr((Term('str', 'tok', ('filter %d' % (i + 1),)),)) for i in range(max(1, nfilters))]
    self.suspect = None

    def thunk():
      self.world({PATH: tuple(lines)})
      arg = toks[0] if nfilters < 0 else AList(list(toks[:nfilters]))
      got = self.attempt(lambda: I.call(f, [PATH, arg], {}))
      want = self.attempt(lambda: self.matches(texts, toks[:1] if nfilters < 0 else toks[:nfilters]))
      return got, want

    def judge(l):
      got, want = l.value
      show = self.example(l.region, lines)
      self.handles(got[2], {PATH}, 'search()', l.region, show)
      self.rule('search = the records that contain the texts, and their number')
      if got[0] == 'exc' or want[0] == 'exc' or self.search_differs(l.region, got, want[1], None) is not None:
        self.suspect = True
    before = self.stats.undecided
    self.go(R, thunk, judge)
    if self.suspect or self.stats.undecided > before:
      self.stats.undecided = before
    # an arbitrary text may only look different, and one that is blank or empty is
    # never what it stands for: settle both on actual ones
    self.search_concrete(texts, lines, nfilters, 3 if len(lines) > 60 else None)

  def matches(self, texts, filters):
    I = self.I
    out = []
    for t in texts:
      o = I.call(self.Record, [], {})
      if not self.truthy(self.method(o, 'read', t)):
        continue
      raw = S.method(I, t, 'strip', [], {}) if not isinstance(t, str) else t.strip()
      raw = I.force(raw)
      if all([I.truth(I.contains(raw, x)) for x in filters]):
        out.append(raw)
    return tuple(out)

  def search_differs(self, region, got, want, filters):
    """None or what is wrong with the output of a search"""
    I = self.I
    for r, ps in self.prints(got[2], region):
      # diagnostics about refused lines are not part of the result
      text = self.as_text(ps)
      try:
        rows = self.rows(ps)
      except Undecided:
        return 'undecided'
      head = [t for t in rows if self.is_record(t)]
      rest = [t for t in rows if not self.is_record(t)]
      if len(head) != len(want):
        return 'lists %d records instead of %d' % (len(head), len(want))
      for a, b in zip(head, want):
        if self.differs(r, S.norm(I, a), S.norm(I, b)):
          return 'does not list the records as they are, in file order'
      if not rest:
        return 'does not say how many records were found'
      last = rest[-1]
      if rows and rows[-1] is not last:
        return 'does not end with the number of records'
      n = self.number_in(last, filters)
      if n is not None and n != [len(want)]:
        return 'reports %s instead of %d' % (n, len(want))
    return None

  def rows(self, ps):
    """printed lines"""
    out = []
    cur = []
    for t, end, _ in ps:
      for x in (t, end):
        for e in elems(self.I, x):
          if e == '\n':
            out.append(mkstr(tuple(cur)))
            cur = []
          else:
            cur.append(e)
    if cur:
      out.append(mkstr(tuple(cur)))
    return out

  def is_record(self, t):
    n = len(t) if isinstance(t, str) else len(t.elems) if t.fixed() else -1
    if isinstance(t, str):
      return len(t.strip()) == 132 and t.strip()[:1] in 'ST' and t.strip()[-9:].isdigit()
    return n >= 132 and any(isinstance(e, Col) for e in t.elems)

  def number_in(self, t, filters):
    """the numbers in a summary, without colours and the texts searched for"""
    out = ''
    for e in elems(self.I, t):
      out += e if isinstance(e, str) else '\0'
    out = re.sub('\x1b\\[[0-9;]*m', '', out)
    if filters is not None:
      for x in [str(filters)] + sorted(filters if isinstance(filters, list) else [filters], key=len, reverse=True):
        if x:
          out = out.replace(x, '\0')
    if '\0' in out and filters is None:
      out = re.sub('filter \\d+', '', out)
    return [int(x) for x in re.findall('\\d+', out)]

  def search_concrete(self, texts, lines, nfilters, limit=None):
    I = self.I
    f = self.fn['search']
    R = Region()
    a = next(iter(S.sample_assignments(R_of(texts), set().union(*[cols_of(t) for t in texts]) or set(), 1, random.Random(5))), {})
    con = [str(S.render(t, a)) if not isinstance(t, str) else t for t in lines]
    cand = candidates([c.strip() for c in con if len(c.strip()) == 132])
    combos = [[c] for c in cand] if nfilters in (-1, 1) else [list(x) for x in itertools.product(cand[:9], repeat=nfilters)][:200]
    if nfilters == 0:
      combos = [[]]
    for fs in combos[:limit]:
      arg = fs[0] if nfilters < 0 else fs
      out = []

      def thunk():
        self.world({PATH: tuple(con)})
        got = self.attempt(lambda: I.call(f, [PATH, arg if isinstance(arg, str) else AList(list(arg))], {}))
        want = self.attempt(lambda: self.matches([c[:-1] if c.endswith('\n') else c for c in con], fs))
        return got, want

      def judge(l):
        got, want = l.value
        show = ''.join(con) + '-- filters %r' % (arg,)
        if want[0] == 'exc':
          self.stats.undecided += 1
          return
        if got[0] == 'exc':
          out.append('raises %s' % exc_name(got[1]))
        else:
          d = self.search_differs(l.region, got, want[1], arg)
          if d and d != 'undecided':
            out.append(d)
        for d in out[:1]:
          self.tell({'C18'}, 'search', 'search() %s' % d, self.fsite(f), show, ('search', re.sub('\\d+', 'n', d)))
      self.go(R, thunk, judge)
      if out:
        return


def R_of(texts):
  R = Region()
  for t in texts:
    for c in cols_of(t):
      R.restrict(c, PRINT)
  return R


def elems(I, x):
  x = S.norm(I, I.force(x))
  if isinstance(x, str):
    return list(x)
  out = []
  for e in x.elems:
    if isinstance(e, Term) and e.fn == 'u':
      raise Undecided('output that depends on a choice')
    if isinstance(e, Term) and e.fn == 'colored':
      out.extend(elems(I, e.args[0]))
    else:
      out.append(e)
  return out


def candidates(recs):
  """texts to search for: parts of the records, near misses, and things that match nothing"""
  out = []
  for r in recs[:2]:
    out += [r[1:4], r[4:10], r[123:], r[0:132], r[120:126], ' ', r[3:8]]
    out += [r[1:4].swapcase(), r[1:4] + '~', ' ' + r[0:3], r[-3:] + ' ', r[1:4] + ' ', ' ' + r[1:4]]
  out += ['', 'S', 'ZZZZZZ', '.', '[', '  ', '(', '*', '\\', '\t', '|', '^S', '$', '?', '%', '{}', ' ' * 20, '\0']
  for r in recs[:2]:
    out += [r[1:4] + '|' + 'ZZ', r[1:4] + ',' + r[4:6], r[4:6] + ' ', r + ' ', r + r[:1], r[1:131], r[131:] + r[:1], r[1:3] + '.',
            r[3:1:-1], r[5:14], r[100:124], r[:4].lower(), r[1:4] + r[123:]]
  seen = []
  for x in out:
    if x not in seen:
      seen.append(x)
  return seen


def shorten(t):
  """long stretches of one character are written as their number"""
  if not isinstance(t, str) or len(t) < 3000:
    return t
  t = re.sub(r'(?s)(.)\1{199,}', lambda m: '<%d x %r>' % (len(m.group(0)), m.group(1)), t)
  return t if len(t) < 6000 else t[:3000] + '<...>' + t[-3000:]


def diff(a, b):
  """where two outputs part"""
  a, b = str(a), str(b)
  i = 0
  while i < min(len(a), len(b)) and a[i] == b[i]:
    i += 1
  return '%r where %r was due' % (a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40])


def flat(events):
  for e in events:
    if e[0] == 'cond':
      for _, ev in e[1]:
        yield from flat(ev)
    else:
      yield e
