"""Nothing read before changes what a line means."""
from .observe import *
from . import samples


def seed():
  return int(os.environ.get('VERIF_SEED', '1') or 1)


def top(I, fn):
  """run something between explorations: it becomes part of the start state"""
  try:
    return fn()
  except Throw as t:
    return t
  except Undecided as u:
    I.undecided.append((str(u), I.where()))
    return u


def prior_states(A):
  """records that have been used before, by what happened to them last"""
  I = A.I
  rng = random.Random(seed())
  hist = {}
  ref = samples.refused(seed())

  def used(*lines, **opt):
    o = top(I, lambda: I.call(A.Record, [], {}))
    for l in lines:
      r = top(I, lambda: A.method(o, 'read', l))
      if r is True or opt.get('look'):
        top(I, lambda: A.method(o, 'json', False))
        top(I, lambda: A.method(o, 'decode', False))
        top(I, lambda: A.method(o, 'primary'))
        top(I, lambda: A.method(o, 'hasCont'))
    return o
  pa = samples.layout_line('PA', 'primary', rng)
  cont = samples.layout_line('PA', 'A', rng)
  one = list(pa)
  one[SPEC.CONTINUATION['PA'][0] - 1] = '1'
  hist['a primary record'] = used(pa)
  hist['a primary record with continuations'] = used(''.join(one))
  hist['a continuation record'] = used(cont)
  hist['a record without number'] = used(samples.layout_line('AS', 'primary', rng))
  hist['a procedure record'] = used(samples.layout_line('PD', 'primary', rng))
  hist['a restriction record'] = used(samples.layout_line('EU', 'primary AE', rng))
  for k, l in sorted(ref.items()):
    hist['a record and then a refused line (%s)' % k] = used(pa, l, look=True)
  return hist


def clone(o):
  c = AObj(o.cls, o.site)
  for k, v in o.attrs.items():
    c.attrs[k] = AList(list(v)) if isinstance(v, AList) else v
  c.data = o.data
  return c


class History(Observe):
  """a used record against a new one, on every line"""

  def __init__(self, share=None):
    Observe.__init__(self, share)
    self.prior = prior_states(self)
    self.I.undecided = []

  def task(self, variant, group):
    self.variant = variant
    for name, box in shards():
      if name in group:
        self.run(name, box)

  def thunk(self):
    I = self.I
    res = {}
    f = self.stage('new', lambda: I.call(self.Record, [], {}))
    rf = self.stage('fresh', lambda: self.truthy(self.method(f, 'read', self.line)))
    o = self.prior[self.variant]
    ro = self.stage('read', lambda: self.truthy(self.method(o, 'read', self.line)))
    res['r'] = (rf, ro)
    a, b = state(I, f), state(I, o)
    res['same'] = set(a) == set(b) and all(same_frozen(I, a[k], b[k]) for k in a)
    look = [('ident', lambda x: I.getattr(x, 'ident')), ('raw', lambda x: I.getattr(x, 'raw')),
            ('primary', lambda x: self.truthy(self.method(x, 'primary'))), ('hasCont', lambda x: self.truthy(self.method(x, 'hasCont'))),
            ('json', lambda x: self.method(x, 'json', False))]
    if not res['same']:
      look.append(('decode', lambda x: self.method(x, 'decode', False)))
    res['look'] = []
    for k, g in look:
      if k in ('json', 'decode'):
        a = self.stage(k, lambda: g(f))
      else:
        a = self.tried(k, lambda: g(f))
        if isinstance(a, Throw):
          # then the used one must not know the answer either
          b = self.tried('lost ' + k, lambda: g(o))
          if not isinstance(b, Throw):
            res['look'].append((k, a, None))
          continue
      res['look'].append((k, a, self.stage(k + ' again', lambda: g(o))))
    self.at = 'done'
    return res

  def tried(self, name, fn):
    c = self.I.ctx
    c.try_depth += 1
    try:
      return self.stage(name, fn)
    except Throw as t:
      return t
    finally:
      c.try_depth -= 1

  def judge(self, l, stage):
    region = l.region
    if l.kind == 'exc':
      self.stats.raising += 1
      if stage == 'read' or stage.endswith(' again'):
        self.rule('a used record raises where a new one does')
        if stage == 'decode again' and is_value_error(l.value):
          return
        self.flag({'C13'}, 'history', '%s raises %s after %s' % (stage.split()[0], exc_name(l.value), self.variant), region, l.site,
                  key=('raises', stage, l.site))
      return
    got = l.value
    rf, ro = got['r']
    self.stats.accepted += bool(rf)
    self.stats.rejected += not rf
    self.rule('a used record accepts what a new one does')
    if rf != ro:
      self.flag({'C13'}, 'history', 'read() says %s after %s, and %s on a new record' % (ro, self.variant, rf), region, self.where_read(),
                key=('accepts', rf))
    for k, a, b in got['look']:
      self.rule('a used record shows what a new one does')
      self.stats.compared += 1
      if isinstance(a, Throw):
        self.flag({'C13'}, 'history', '%s is still known after %s, although a new record raises %s' % (k, self.variant, exc_name(a.exc)),
                  region, self.where_read(), key=('remains', k))
        continue
      if same(a, b):
        self.stats.proved += 1
        continue
      if a in (True, False) or b in (True, False):
        self.flag({'C13'}, 'history', '%s() is %s after %s, and %s on a new record' % (k, b, self.variant, a), region, self.where_read(),
                  key=('shows', k))
        continue
      for r, x in self.cases(a, region):
        for r2, y in self.cases(b, r):
          if same(x, y):
            continue
          if not strish(x) or not strish(y):
            self.flag({'C13'}, 'history', '%s is %r after %s, and %r on a new record' % (k, y, self.variant, x), r2, self.where_read(),
                      key=('shows', k))
            continue
          d = self.differs(r2, x, y)
          if d:
            self.flag({'C13'}, 'history', '%s of a record depends on what was read before: %r after %s, %r on a new record' % (
                k, short(d[2]), self.variant, short(d[1])), r2, self.where_read(), d[0], key=('shows', k))


class Warm(Records):
  """every line again, after a history of many records in the same process"""

  def __init__(self, extra=()):
    Records.__init__(self, ('json', 'decode'))
    I = self.I
    self.writes = set()
    self.triggers = {}
    parse = self.pkg.vars.get('parse')
    lines = samples.all_lines(seed()) + sorted(samples.refused(seed()).values()) + list(extra)
    n0 = len(I.ctx.events)
    self.history = len(lines)
    probes = self.probes()
    before = [self.said(l) for l in probes]
    # look at objects made so far only
    for l in lines:
      o = top(I, lambda: I.call(self.Record, [], {}))
      if top(I, lambda: self.method(o, 'read', l)) is True:
        top(I, lambda: self.method(o, 'json', False))
        top(I, lambda: self.method(o, 'decode', False))
      if parse is not None:
        top(I, lambda: I.call(parse, [l, False], {}))
    self.probed = [(l, a, self.said(l)) for l, a in zip(probes, before)]
    del I.ctx.events[n0:]
    I.undecided = []

  @staticmethod
  def probes():
    """lines that are refused with a word about why"""
    out = sorted(samples.refused(seed()).values())
    rng = random.Random(5)
    for ident in sorted(SPEC.CONTINUATION):
      t = samples.layout_line(ident, next(s for i, s in sorted(SPEC.LAYOUTS) if i == ident and s.startswith('primary')), rng, fill=' ')
      if t is None:
        continue
      cont, app = SPEC.CONTINUATION[ident]
      out.append(t[:cont - 1] + '-' + t[cont:])
      u = t[:cont - 1] + '2' + t[cont:]
      if app:
        for c in app:
          u = u[:c - 1] + '#' + u[c:]
        out.append(u)
    return out

  def said(self, line):
    """what reading a line answers and prints; None when that is not known"""
    I = self.I
    got = []

    def thunk():
      o = I.call(self.Record, [], {})
      return I.force(self.method(o, 'read', line))

    def leaf(l):
      out = []
      for e in l.events:
        if e[0] == 'print':
          out += [S.norm(I, x) for x in e[1:3]]
        elif e[0] == 'cond':
          out.append(None)
      known = l.kind == 'ok' and isinstance(l.value, bool) and all(isinstance(x, str) for x in out)
      got.append((l.value, ''.join(out)) if known else None)
    # what it leaves behind is taken back
    I.explore(Region(), thunk, leaf, 10)
    return got[0] if len(got) == 1 else None

  def task(self, name):
    if name != 'probes':
      return Records.task(self, name)
    self.shard = name
    for line, a, b in self.probed:
      self.stats.leaves += 1
      if a is None or b is None:
        self.stats.undecided += 1
        continue
      self.rule('a refused line is answered the same after other records')
      self.stats.compared += 1
      self.stats.accepted += a[0]
      if a != b:
        self.report({'C13'}, 'history', self.where_read(), 'reading a line answers %r after other records, and %r before' % (
            short(b), short(a)), line, key=('probe', a[0], b[0]))

  def leaf(self, l):
    for e in flat(l.events):
      if e[0] in ('shared-write', 'default-insert'):
        self.writes.add((e[0], e[1], rel(e[-1])))
      if e[0] == 'shared-write' and (self.shard, e[-1]) not in self.triggers:
        t = self.confirm(l.region)
        self.triggers[self.shard, e[-1]] = t
    Records.leaf(self, l)

  def notes(self):
    n = Records.notes(self)
    n['writes'] = set(self.writes)
    n['triggers'] = {t for t in self.triggers.values() if t is not None}
    return n


class Cold(Records):
  """the same lines without a history (to tell history from other defects)"""

  def __init__(self):
    Records.__init__(self, ('json', 'decode'))


def flat(events):
  for e in events:
    if e[0] == 'cond':
      for _, ev in e[1]:
        yield from flat(ev)
    else:
      yield e
