"""What the calls print and return, and that looking at a record does not change it."""
from .records import *


class Observe(Records):
  """parse / read / json / decode with the output switch on, off and left out"""

  def __init__(self, share=None):
    Records.__init__(self, (), 0, 0, share)
    self.parse = self.pkg.vars.get('parse')

  def thunk(self):
    I = self.I
    ctx = I.ctx
    res = {'ev': {}}

    def stage(name, fn):
      n = len(ctx.events)
      v = self.stage(name, fn)
      res['ev'][name] = ctx.events[n:]
      return v
    o = stage('new', lambda: I.call(self.Record, [], {}))
    res['r'] = r = stage('read', lambda: self.truthy(self.method(o, 'read', self.line)))
    if r:
      res['state'] = state(I, o)
      res['asked'] = stage('primary', lambda: (self.method(o, 'primary'), self.method(o, 'hasCont')))
      res['json0'] = stage('json0', lambda: self.method(o, 'json', False))
      res['json1'] = stage('json1', lambda: self.method(o, 'json', True))
      res['json2'] = stage('json2', lambda: self.method(o, 'json'))
      res['jsonm0'] = stage('jsonm0', lambda: self.method(o, 'json', False, False))
      res['jsonm1'] = stage('jsonm1', lambda: self.method(o, 'json', True, False))
      res['jsonk'] = stage('jsonk', lambda: self.method(o, 'json', output=False, single_line=False))
    if self.parse is not None:
      res['parse0'] = stage('parse0', lambda: I.call(self.parse, [self.line, False], {}))
    if r:
      res['decode0'] = stage('decode0', lambda: self.method(o, 'decode', False))
      res['decode1'] = stage('decode1', lambda: self.method(o, 'decode', True))
      res['json3'] = stage('json3', lambda: self.method(o, 'json', False))
      res['asked2'] = stage('primary2', lambda: (self.method(o, 'primary'), self.method(o, 'hasCont')))
      res['after'] = state(I, o)
      # the same again, now with an earlier call to remember
      res['decode2'] = stage('decode2', lambda: self.method(o, 'decode'))
    if self.parse is not None:
      res['parse1'] = stage('parse1', lambda: I.call(self.parse, [self.line], {}))
      res['parse2'] = stage('parse2', lambda: I.call(self.parse, [self.line, True], {}))
    self.at = 'done'
    return res

  def attempt(self, fn):
    """('ok', value) or ('exc', exception), with what happened"""
    I = self.I
    n = len(I.ctx.events)
    I.ctx.try_depth += 1
    try:
      try:
        r = ('ok', I.force(fn()))
      except Throw as t:
        r = ('exc', t.exc)
    finally:
      I.ctx.try_depth -= 1
    return r + (I.ctx.events[n:],)

  def leaf(self, l):
    I = self.I
    self.stats.leaves += 1
    if l.kind == 'undecided':
      self.stats.undecided += 1
      return
    stage = getattr(l, 'stage', None) or self.at
    self.judge(l, stage)

  # ---------------------------------------------------------------- prints

  def prints(self, events, region):
    """[(region, [text printed, ...])] of a list of events"""
    out = [(region, [])]
    for e in events:
      if e[0] == 'print':
        out = [(r, p + [(e[1], e[2], e[3])]) for r, p in out]
      elif e[0] == 'cond':
        if not any(has_print(ev) for _, ev in e[1]):
          continue
        new = []
        for r, p in out:
          for d, ev in e[1]:
            r2 = r.assume(d)
            if r2 is None:
              continue
            for r3, p3 in self.prints(ev, r2):
              new.append((r3, p + p3))
        out = new
        if len(out) > 3000:
          raise Undecided('too many kinds of output')
    return out

  def as_text(self, ps):
    return S.norm(self.I, S.concat(self.I, [x for t, end, _ in ps for x in (t, end)]))

  def case(self, v, region):
    """the value on a part of the input it was computed for"""
    got = self.cases(v, region)
    return got[0][1] if len(got) == 1 else None

  def flag(self, tags, rule, what, region, site, asg=None, key=None):
    line = self.confirm(region, asg)
    if line is not None:
      self.report(tags, rule, site, what, line, key=key or (rule, what))

  def same_output(self, region, got, want, tags, rule, what, site):
    self.rule(rule)
    d = self.differs(region, got, want)
    if d:
      self.flag(tags, rule, '%s: printed %r instead of %r' % (what, short(d[1]), short(d[2])), region, site, d[0], key=(rule, what))

  # ---------------------------------------------------------------- judging

  def judge(self, l, stage):
    if l.kind == 'exc':
      self.stats.raising += 1
      if stage in ('parse0', 'parse1'):
        # the record itself has to be one decode() refuses
        self.rule('parse raises only what decode raises')
        self.agree_raise(l, stage)
      elif stage.startswith('decode') and self.parse is not None:
        # parse() of the same line went through
        self.rule('parse does not hide a failed decode')
        self.flag({'C19', 'C17', 'C11'}, 'parse-hides', 'parse() returns although decode() of the record raises %s' % exc_name(l.value),
                  l.region, l.site, key=('parse-hides', l.site))
      elif stage == 'json3':
        self.flag({'C20'}, 'observer', 'json() raises %s after decode()' % exc_name(l.value), l.region, l.site)
      return
    got = l.value
    region = l.region
    ev = got['ev']
    if got['r']:
      self.stats.accepted += 1
    else:
      self.stats.rejected += 1
    cls = self.classes(region)
    # reading prints nothing unless it explains why the line was refused
    self.rule('read prints nothing but why a line is refused')
    for r, ps in self.prints(ev['read'], region):
      if not ps:
        continue
      bad = True if got['r'] else not (cls & {'number', 'application'})
      if bad:
        self.flag({'C16'}, 'prints', 'read() prints %r' % short(self.show(ps, r)), r, ps[0][2], key=('read-prints', ps[0][2]))
    for k in ('parse0', 'parse1'):
      if k not in got:
        continue
      v = got[k]
      self.rule('parse says whether the line is a record')

      def leaf(x):
        if x.kind == 'ok' and (x.value is not True and x.value is not False or x.value != got['r']):
          self.flag({'C19'}, 'parse-value', 'parse() returns %r for a line that %s' % (
              x.value, 'is a record' if got['r'] else 'is not a record'), x.region, self.fsite(self.parse), key=('parse-value', k, got['r']))
      self.I.explore(region, lambda: self.I.force(v), leaf)
      if not got['r']:
        quiet = self.prints(ev['read'], region)
        for r, ps in self.prints(ev[k], region):
          if ps and not any(q for _, q in quiet):
            self.flag({'C16', 'C19'}, 'prints', 'parse() of a line that is not a record prints %r' % short(self.show(ps, r)), r, ps[0][2],
                      key=('parse-prints', ps[0][2]))
    if not got['r']:
      return
    self.layouts_seen[cls_key(cls)] = 1
    for k in ('primary',):
      for r, ps in self.prints(ev[k], region):
        if ps:
          self.flag({'C16', 'C20'}, 'prints', 'primary()/hasCont() prints', r, ps[0][2])
    # json
    for k, on, val in (('json0', False, 'json0'), ('json1', True, 'json0'), ('json2', True, 'json0'), ('json3', False, 'json0'),
                       ('jsonm0', False, 'jsonm0'), ('jsonm1', True, 'jsonm0'), ('jsonk', False, 'jsonm0')):
      self.rule('json prints exactly what it returns, or nothing')
      for r, ps in self.prints(ev[k], region):
        if not on:
          if ps:
            self.flag({'C16', 'C20'}, 'prints', 'json() with output switched off prints', r, ps[0][2], key=('json-off', ps[0][2]))
          continue
        for r2, v in self.cases(got[k], r):
          self.same_output(r2, self.as_text(ps), S.norm(self.I, S.concat(self.I, [v, '\n'])), {'C16'}, 'json-output',
                           'json() with output switched on', self.method_site('json'))
      self.same_value(region, got[k], got[val], 'json')
    self.multi(got['jsonm0'], got['json0'], region)
    # decode
    base = self.prints(ev['decode0'], region)
    self.rule('decode prints exactly what it returns, or only diagnostics')
    for r, ps in base:
      if ps:
        self.diagnostic(r, ps, cls, 'decode() with output switched off')
    for k in ('decode1', 'decode2'):
      if k == 'decode2' and self.same_events(ev['decode1'], ev[k]) and same(got['decode1'], got[k]):
        self.stats.proved += 1
        continue
      for r, ps in self.prints(ev[k], region):
        for r2, v in self.cases(got[k], r):
          tail = self.strip_table(ps, v, r2)
          if tail is None:
            self.same_output(r2, self.as_text(ps), S.norm(self.I, S.concat(self.I, [v, '\n'])), {'C16'}, 'decode-output',
                             'decode() with output switched on', self.method_site('decode'))
          elif tail:
            self.diagnostic(r2, tail, cls, 'decode()')
    self.same_value(region, got['decode0'], got['decode1'], 'decode')
    for who, a, b in zip(('primary', 'hasCont'), got['asked'], got['asked2']):
      if isinstance(a, bool) and isinstance(b, bool):
        if a is not b:
          self.flag({'C20'}, 'observer', '%s() is %s, then %s for one record' % (who, a, b), region, self.method_site(who), key=('twice', who))
      else:
        self.same_value(region, a, b, who)
    self.rule('looking at a record leaves it as it was')
    d = self.state_differs(region, got['state'], got['after'])
    if d:
      self.flag({'C20', 'C13'}, 'observer', 'looking at a record changes its %s' % d[0], region, self.method_site('decode'), d[1], key=('state', d[0]))
    # parse
    if 'parse0' in got:
      self.rule('parse prints the decoded table, or only diagnostics')
      for r, ps in self.prints(ev['parse0'], region):
        if ps:
          self.diagnostic(r, ps, cls, 'parse() with output switched off')
      for k in ('parse1', 'parse2'):
        if k == 'parse2' and self.same_events(ev['parse1'], ev[k]):
          self.stats.proved += 1
          continue
        for r, ps in self.prints(ev[k], region):
          for r2, v in self.cases(got['decode0'], r):
            tail = self.strip_table(ps, v, r2)
            if tail is None:
              self.same_output(r2, self.as_text(ps), S.norm(self.I, S.concat(self.I, [v, '\n'])), {'C16', 'C19'}, 'parse-output', 'parse()',
                               self.fsite(self.parse))
            elif tail:
              self.diagnostic(r2, tail, cls, 'parse()')

  def same_events(self, a, b):
    """the same output, written the same way"""
    if len(a) != len(b):
      return False
    for x, y in zip(a, b):
      if x[0] != y[0]:
        return False
      if x[0] == 'print' and not (same(x[1], y[1]) and same(x[2], y[2])):
        return False
      if x[0] == 'cond' and not (len(x[1]) == len(y[1]) and all(
          same(d, e) and self.same_events(u, v) for (d, u), (e, v) in zip(x[1], y[1]))):
        return False
    return True

  def strip_table(self, ps, v, region):
    """what was printed besides the returned text; None when that was not printed once"""
    hit = [i for i, (t, end, _) in enumerate(ps) if same(self.norm1(t), self.norm1(v)) and end == '\n']
    if not hit and ps and ps[-1][1] == '\n' and not isinstance(ps[-1][0], str):
      # written with other cases, it may still be the same text here
      if self.differs(region, self.norm1(ps[-1][0]), self.norm1(v)) is None:
        hit = [len(ps) - 1]
    if len(hit) != 1 or hit[0] != len(ps) - 1:
      return None
    return ps[:-1]

  def norm1(self, v):
    return S.norm(self.I, v)

  def diagnostic(self, region, ps, cls, who):
    """output in quiet mode: only about a value the reference does not know"""
    self.rule('diagnostics only about unknown values')
    for ident, sel in cls:
      rows = SPEC.LAYOUTS.get((ident, sel))
      if rows is None:
        continue
      exps = self.expectations(rows, ident, region)
      if any(e is None for e in exps):
        self.undec()
        return
      cand = []
      for (nm, idx, kind), e in zip(rows, exps):
        alts = [(d, st) for d, st, t in e if st in ('unknown', 'refuse')]
        if alts:
          cand.append(alts)
      cs = set()
      for alts in cand:
        for d, _ in alts:
          for x in d:
            delta_cols(x, cs)
      cs |= set(self.el)

      def fine(asg):
        return not any(all(S.holds(x, asg) for x in d) for alts in cand for d, _ in alts)
      # a line of the region without any unknown value: look first where the columns
      # that matter are pinned to known values
      r = region
      for alts in cand:
        pass
      w = self.witness(r, fine, cs, 60)
      if w is not None:
        self.report({'C16'}, 'prints', ps[0][2], '%s prints %r although every value is known' % (who, short(self.show(ps, region))),
                    self.text(w, self.line.elems), key=('quiet', ps[0][2]))
      else:
        self.stats.sampled += 1

  def show(self, ps, region):
    a = self.full(region, {}, self.el)
    try:
      return str(S.render(self.as_text(ps), a))
    except Exception:  # noqa: BLE001  only for the message
      return '...'

  def classes(self, region):
    """the reference's verdicts inside the region"""
    out = set()
    I = self.I

    def thunk():
      c = I.call(self.spec.vars['classify'], [self.line], {})
      return tuple(I.force(x) for x in I.force(c))

    def one(s):
      if s.kind != 'ok':
        return
      v = s.value
      if len(v) == 1:
        out.add(v[0])
        return
      a, b = self.pin(s.region, S.norm(I, v[0])), self.pin(s.region, S.norm(I, v[2]))
      out.add((a, b))
    I.explore(region, thunk, one)
    return out

  def agree_raise(self, l, stage):
    """parse() raised: decode() of the same record has to raise as well"""
    I = self.I

    def thunk():
      c = I.call(self.spec.vars['classify'], [self.line], {})
      return tuple(I.force(x) for x in I.force(c))

    def one(x):
      if x.kind != 'ok':
        self.undec()
        return
      if len(x.value) == 1:
        self.flag({'C19', 'C12', 'C16'}, 'parse-raises', 'parse() raises %s although the line is not a record' % exc_name(l.value), x.region,
                  l.site, key=('parse-raises', l.site))
        return
      bad = self.not_refused(x.value, x.region)
      if bad:
        self.report({'C19', 'C12'}, 'parse-raises', l.site, 'parse() of a %s record (%s) raises %s although every field has a valid value' % (
            bad[0], bad[1], exc_name(l.value)), bad[2], key=('parse-raises', l.site))
    I.explore(l.region, thunk, one)

  def same_value(self, region, a, b, who):
    self.rule('%s gives the same answer every time' % who)
    if same(a, b):
      return
    for r, x in self.cases(a, region):
      for r2, y in self.cases(b, r):
        if same(x, y):
          continue
        d = self.differs(r2, x, y)
        if d:
          self.flag({'C20'}, 'observer', '%s() gives two different answers for one record' % who, r2, self.method_site(who), d[0],
                    key=('twice', who))

  def state_differs(self, region, a, b):
    for k in PUBLIC:
      if k in a and k in b and not same_frozen(self.I, a[k], b[k]):
        d = self.frozen_differs(region, a[k], b[k])
        if d is not None:
          return (k, d)
    return None

  def frozen_differs(self, region, a, b):
    """the columns' contents (maybe none) that tell two pictures apart; None: no difference is known"""
    if same_frozen(self.I, a, b):
      return None
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b):
        return {}
      for x, y in zip(a, b):
        d = self.frozen_differs(region, x, y)
        if d is not None:
          return d
      return None
    if isinstance(a, (SStr, Term, Union)) or isinstance(b, (SStr, Term, Union)):
      d = self.differs(region, a, b)
      return d[0] if d else None
    return {}

  def multi(self, m, j, region):
    """the indented form holds the same members"""
    self.rule('the indented form holds the same members')
    for r, x in self.cases(m, region):
      for r2, y in self.cases(j, r):
        a, b = single_term(x, 'json'), single_term(y, 'json')
        if a is None or b is None or not isinstance(a.args[0], tuple) or not isinstance(b.args[0], tuple):
          self.undec()
          continue
        da, db = dict(a.args[0][1]), dict(b.args[0][1])
        if set(da) != set(db):
          self.flag({'C15'}, 'json-indented', 'the indented form has other members: %s' % sorted(set(map(str, da)) ^ set(map(str, db)))[:4], r2,
                    self.method_site('json'), key='json-members')
          continue
        for k in da:
          if same(da[k], db[k]):
            continue
          d = self.differs(r2, S.norm(self.I, da[k]), S.norm(self.I, db[k]))
          if d:
            self.flag({'C15'}, 'json-indented', 'the indented form has %r: %r instead of %r' % (k, d[1], d[2]), r2, self.method_site('json'),
                      d[0], key=('json-member', str(k)))

  def fsite(self, f):
    if isinstance(f, AFunc):
      return '%s:%d' % (f.module.path, f.node.lineno)
    return None


class Failing(Observe):
  """a record that decode() refuses: it is still the record that was read, and still refused.
  One field that can be refused is open at a time, the others hold valid values"""

  def task(self, name):
    from . import samples
    self.shard = name
    rng = random.Random(11)
    self.open = []
    for ident, sel in sorted(SPEC.LAYOUTS):
      if ident != name:
        continue
      line = samples.valid_line(ident, sel, rng)
      if line is None:
        continue
      for nm, idx, kind in samples.refusing(ident, sel):
        self.probes = (line, samples.valid_line('AS', 'primary', random.Random(3)))
        R = self.base.copy()
        if all(R.restrict(self.el[i], C.BIT[line[i]]) for i in range(N) if i not in idx):
          self.I.explore(R, self.thunk, self.watch)

  def thunk(self):
    I = self.I
    o = self.stage('new', lambda: I.call(self.Record, [], {}))
    if not self.stage('read', lambda: self.truthy(self.method(o, 'read', self.line))):
      return None
    before = state(I, o)
    other = [self.probe(t) for t in self.probes]
    one = self.attempt(lambda: self.method(o, 'decode', False))
    if one[0] == 'ok':
      return ()
    res = {'one': one[1], 'before': before, 'after': state(I, o)}
    res['other'] = (other, [self.probe(t) for t in self.probes])
    res['json'] = self.attempt(lambda: self.method(o, 'json', False))
    res['two'] = self.attempt(lambda: self.method(o, 'decode', True))
    n = I.call(self.Record, [], {})
    res['read'] = self.truthy(self.method(n, 'read', self.line))
    res['new'] = self.attempt(lambda: self.method(n, 'json', False))
    res['fresh'] = self.attempt(lambda: self.method(n, 'decode', False))
    self.at = 'done'
    return res

  def probe(self, text):
    """what another record is shown as"""
    def look():
      n = self.I.call(self.Record, [], {})
      return self.truthy(self.method(n, 'read', text)) and self.method(n, 'decode', False)
    r = self.attempt(look)
    return r[1] if r[0] == 'ok' else 'raises ' + exc_name(r[1])

  def judge(self, l, stage):
    if l.kind == 'exc':
      return                   # the other passes
    if l.value is None:
      self.stats.rejected += 1
      return
    self.stats.accepted += 1
    if not l.value:
      return
    got, region = l.value, l.region
    self.stats.raising += 1
    site = self.method_site('decode')
    self.rule('a record that cannot be decoded stays what it was')
    d = self.state_differs(region, got['before'], got['after'])
    if d:
      self.flag({'C20', 'C13'}, 'failing', 'decoding a record that is refused changes its %s' % d[0], region, site, d[1], key=('failing', d[0]))
    self.rule('a record that cannot be decoded leaves no trace in the next one')
    for a, b in zip(*got['other']):
      if not same(a, b):
        d = self.differs(region, a, b) if strish(a) and strish(b) else ({}, a, b)
        if d:
          self.flag({'C13'}, 'failing', 'after a record was refused by decode(), another one is shown as %r instead of %r' % (
              short(d[2]), short(d[1])), region, site, d[0], key='trace')
    self.rule('a record that cannot be decoded is refused again')
    if got['two'][0] != 'exc' or exc_name(got['two'][1]) != exc_name(got['one']):
      self.flag({'C20', 'C13'}, 'failing', 'decode() of one record raises %s at first and then %s' % (
          exc_name(got['one']), 'nothing' if got['two'][0] != 'exc' else exc_name(got['two'][1])), region, site, key='twice')
    if not got['read'] or got['fresh'][0] != 'exc' or exc_name(got['fresh'][1]) != exc_name(got['one']):
      self.flag({'C13'}, 'failing', 'after a record was refused by decode(), the same line is no longer refused', region, site, key='fresh')
    if got['json'][0] == 'exc':
      self.flag({'C20', 'C12'}, 'failing', 'json() raises %s after a failed decode()' % exc_name(got['json'][1]), region, site, key='json')
    elif got['new'][0] == 'ok':
      self.same_value(region, got['json'][1], got['new'][1], 'json')


PUBLIC = ('ident', 'raw', 'continuation', 'fields', 'definition')


def cls_key(cls):
  for c in cls:
    if isinstance(c, tuple):
      return c
  return ('?', '?')


def has_print(events):
  for e in events:
    if e[0] == 'print':
      return True
    if e[0] == 'cond' and any(has_print(ev) for _, ev in e[1]):
      return True
  return False


def short(t, n=90):
  t = str(t)
  return t if len(t) <= n else t[:n] + '...'


def freeze_value(I, v, depth=0):
  """a comparable picture of a value reachable from a record"""
  if depth > 6:
    return ('...', id(v))
  if isinstance(v, AList):
    return ('list',) + tuple(freeze_value(I, x, depth + 1) for x in v)
  if isinstance(v, ADict):
    return ('dict',) + tuple((freeze_value(I, k, depth + 1), freeze_value(I, x, depth + 1)) for k, x in v.d.items())
  if isinstance(v, tuple):
    return ('tuple',) + tuple(freeze_value(I, x, depth + 1) for x in v)
  if isinstance(v, AObj):
    if v.cls.module is None or depth >= 3:
      return ('obj', id(v))
    # what is kept privately (a cache) is nobody's business
    return ('obj', v.cls.name) + tuple((k, freeze_value(I, x, depth + 1)) for k, x in sorted(v.attrs.items()) if not k.startswith('_'))
  return ('v', v)


def same_frozen(I, a, b):
  if a is b:
    return True
  if isinstance(a, tuple) and isinstance(b, tuple):
    return len(a) == len(b) and all(same_frozen(I, x, y) for x, y in zip(a, b))
  try:
    if bool(same(a, b)) or a == b:
      return True
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
      return bool(same(S.norm(I, a), S.norm(I, b)))
    return False
  except Exception:  # noqa: BLE001
    return False


def state(I, o):
  """the attributes of a record, frozen (definitions by identity)"""
  out = {}
  if isinstance(o, AObj):
    for k, v in o.attrs.items():
      if isinstance(v, AObj):
        out[k] = ('obj', id(v))
      else:
        out[k] = freeze_value(I, v, 1)
  return out
