"""Record.read / primary / hasCont / json / decode against the reference."""
from .core import *


class Records(Analysis):
  """one pass over shards of 132-column lines

  want: which stages to run: 'read', 'json', 'decode'
  """

  def __init__(self, want=('read', 'json', 'decode'), lead=0, trail=0, share=None):
    Analysis.__init__(self, share)
    self.want = want
    self.line, self.el, self.base = make_line(N, lead, trail)
    self.pad = [c for c in self.line.elems if c not in set(self.el)]
    self.boxes = dict(shards())

  def task(self, name):
    if name == 'unread':
      return self.unread()
    self.run(name, self.boxes[name])

  def unread(self):
    """a record nothing was read into"""
    I = self.I
    self.shard = 'unread'
    for who in ('primary', 'hasCont'):
      self.rule('a record nothing was read into is no primary record')

      def leaf(l):
        self.stats.leaves += 1
        self.stats.compared += 1
        if l.kind == 'undecided':
          self.stats.undecided += 1
        elif l.kind == 'exc':
          self.report({'C03'}, who, l.site or self.method_site(who), '%s() of a record nothing was read into raises %s' % (
              who, exc_name(l.value)), None, key=(who, 'unread'))
        elif l.value is not False:
          self.report({'C03'}, who, self.method_site(who), '%s() of a record nothing was read into says %s' % (who, l.value), None,
                      key=(who, 'unread'))
      I.explore(Region(), lambda: self.truthy(self.method(I.call(self.Record, [], {}), who)), leaf, 10)

  def region(self, box):
    R = self.base.copy()
    for i, m in box:
      if not R.restrict(self.el[i], m):
        return None
    return R

  def undec(self):
    self.stats.undecided_cmp += 1
    if DEBUG:
      import traceback
      print('undecided comparison', self.shard, traceback.format_stack(limit=2)[0].strip().split('\n')[0])

  def sampled(self):
    self.stats.sampled += 1
    if DEBUG:
      import traceback
      print('sampled', self.shard, traceback.format_stack(limit=2)[0].strip().split('\n')[0])

  # the package ---------------------------------------------------------------

  def run(self, name, box):
    R = self.region(box)
    if R is None:
      return
    I = self.I
    self.shard = name
    p0, t0 = I.n_paths, I.n_tests
    self.open = []
    while True:
      saved = dict(self.findings), dict(self.stats.__dict__), dict(self.layouts_seen)
      try:
        n = I._explore(R, self.thunk, self.watch)
        if n > I.budget:
          self.open.append(R)
        break
      except Restart:
        # a summary had to be given up: redo the shard
        self.findings, self.stats.__dict__, self.layouts_seen = saved[0], saved[1], saved[2]
        self.open = []
    self.stats.paths += I.n_paths - p0
    self.stats.tests += I.n_tests - t0
    self.narrow(self.open, 40)

  def watch(self, l):
    """keep the parts that stay open"""
    u = self.stats.undecided + self.stats.undecided_cmp
    self.leaf(l)
    if self.stats.undecided + self.stats.undecided_cmp > u and len(self.open) < 64:
      self.open.append(l.region)

  # parts left open -------------------------------------------------------------

  def late(self, *args):
    """the shard took too long as a whole"""
    for a in args:
      for name in (a if isinstance(a, tuple) else (a,)):
        if name in self.boxes:
          self.shard = name
          R = self.region(self.boxes[name])
          if R is not None:
            self.narrow([R], 60)

  def narrow(self, regions, seconds):
    """parts that could not be decided as a whole: the same comparison on slices of
    them, in which a few neighbouring columns are open and the others hold what a
    record of that part may hold"""
    if not regions:
      return
    I = self.I
    stop = time.time() + seconds
    rng = random.Random(5)
    todo = []
    for k, R in enumerate(regions):
      for j, fill in enumerate(self.fillings(R, rng)):
        free = [c for c in self.el if bin(R.mask(c)).count('1') > 1]
        for i in range(0, len(free), 2):
          todo.append((rng.random(), len(todo), R, fill, free[max(0, i - 1):i + 2]))
    todo.sort()

    def leaf(l):
      if l.kind != 'undecided':
        u = self.stats.undecided_cmp
        self.leaf(l)
        self.stats.undecided_cmp = u
    kept = list(I.undecided)
    for _, _, R, fill, window in todo:
      if time.time() > stop:
        break
      r = R.copy()
      if not all(r.restrict(c, C.BIT[ch]) for c, ch in fill.items() if c not in window):
        continue
      # what the region says with opaque tests is kept: a slice outside is dropped when it is confirmed
      self.stats.slices += 1
      try:
        I.explore(r, self.thunk, leaf, 300)
      except Undecided:
        pass
    I.undecided = kept

  def fillings(self, R, rng):
    """a few texts for all columns, inside the region"""
    from . import samples
    cs = self.el + self.pad
    out = []
    ids = [(i, s) for i, s in sorted(SPEC.LAYOUTS)]
    rng.shuffle(ids)
    n = 0
    for i, s in ids:
      line = samples.layout_line(i, s, rng)
      if line is None or n >= 6:
        continue
      asg = dict(zip(self.el, line))
      if all(R.mask(c) & C.BIT[ch] for c, ch in asg.items()) and self.inside(R, asg):
        out.append(asg)
        n += 1
    for style in ('A', ' ', '0', None):
      r = R.copy()
      asg = {}
      for c in cs:
        m = r.mask(c)
        ch = style if style and C.BIT[style] & m else C.example(m, 'A0 S' if style else ''.join(rng.sample('ABNR01 59 S', 11)))
        r2 = r.copy()
        if not r2.restrict(c, C.BIT[ch]):
          break
        r = r2
        asg[c] = ch
      else:
        out.append(asg)
    for style in ('&/<"%$', '{~\'.`,'):
      r = R.copy()
      asg = {}
      for k, c in enumerate(cs):
        m = r.mask(c)
        ch = style[k % len(style)]
        ch = ch if C.BIT[ch] & m else C.example(m, 'A0 S')
        r2 = r.copy()
        if not r2.restrict(c, C.BIT[ch]):
          break
        r = r2
        asg[c] = ch
      else:
        out.append(asg)
    for a in S.sample_assignments(R, cs, 4, rng):
      out.append({c: a[c] for c in cs})
    return out

  def inside(self, R, asg):
    r = R.copy()
    return all(r.restrict(c, C.BIT[ch]) for c, ch in asg.items())

  def stage(self, name, fn):
    """run one stage; leaves it splits off are marked with its name"""
    ctx = self.I.ctx
    n = len(ctx.side)
    self.at = name
    try:
      return fn()
    finally:
      for l in ctx.side[n:]:
        l.stage = name

  def thunk(self):
    I = self.I
    res = {}
    o = self.stage('new', lambda: I.call(self.Record, [], {}))
    res['o'] = o
    r = self.stage('read', lambda: self.truthy(self.method(o, 'read', self.line)))
    res['r'] = r
    if not r:
      return res
    res['ident'] = self.stage('ident', lambda: I.getattr(o, 'ident'))
    res['raw'] = self.stage('raw', lambda: I.getattr(o, 'raw'))
    res['primary'] = self.stage('primary', lambda: self.method(o, 'primary'))
    res['hascont'] = self.stage('primary', lambda: self.method(o, 'hasCont'))
    if 'json' in self.want:
      res['json'] = self.stage('json', lambda: self.method(o, 'json', False))
    if 'decode' in self.want:
      res['decode'] = self.stage('decode', lambda: self.method(o, 'decode', False))
    self.at = 'done'
    return res

  # each part -----------------------------------------------------------------

  def leaf(self, l):
    I = self.I
    self.stats.leaves += 1
    if l.kind == 'undecided':
      self.stats.undecided += 1
      return
    stage = getattr(l, 'stage', None) or self.at
    out = []

    def thunk():
      c = I.call(self.spec.vars['classify'], [self.line], {})
      return tuple(I.force(x) for x in I.force(c))

    def one(s):
      if s.kind != 'ok':
        self.undec()
        return
      self.compare(l, stage, s)
    I.explore(l.region, thunk, one)

  def reject_site(self, l):
    return l.site or self.where_read()

  def where_read(self):
    f, _ = self.Record.lookup('read')
    if f is not None and getattr(f, 'node', None) is not None:
      return '%s:%d' % (f.module.path, f.node.lineno)
    return 'src/arinc424/record.py'

  def confirm(self, region, asg=None):
    """a line of the region, as text"""
    a = self.full(region, asg or {}, self.el + self.pad)
    if a is None:
      self.stats.unconfirmed += 1
      return None
    return self.text(a, self.line.elems)

  def compare(self, l, stage, s):
    I = self.I
    want = s.value
    region = s.region
    if l.kind == 'exc':
      self.stats.raising += 1
      return self.compare_raise(l, stage, want, region)
    got = l.value
    if len(want) == 1:
      if got['r']:
        line = self.confirm(region)
        if line is not None:
          self.report(REASON[want[0]], 'accepts', self.where_read(),
                      'a line is accepted although %s' % WHY[want[0]], line, key=('accepts', want[0], self.shard))
      else:
        self.stats.rejected += 1
      return
    ident, number, sel = (S.norm(I, x) for x in want)
    # the reference left columns open: make them concrete texts
    ident = self.pin(region, ident)
    sel = self.pin(region, sel)
    if ident is None or sel is None:
      self.undec()
      return
    is_primary = sel.startswith('primary')
    if not got['r']:
      line = self.confirm(region)
      if line is not None:
        tags = {'C01', 'C02', 'C03' if is_primary else 'C04', 'C05' if is_primary else 'C06'}
        if ident in SPEC.CONTINUATION:
          tags.add('C03')
        if ident == 'EU':
          tags.add('C04')
        self.report(tags, 'rejects', self.where_read(), 'a well-formed %s record (%s) is refused' % (ident, sel), line,
                    key=('rejects', ident, sel))
      return
    self.stats.accepted += 1
    self.compare_record(got, ident, number, sel, is_primary, region)

  def pin(self, region, v):
    if isinstance(v, str):
      return v
    if isinstance(v, SStr) and v.fixed():
      out = ''
      for e in v.elems:
        if isinstance(e, str):
          out += e
          continue
        ch = C.single(region.mask(e)) if isinstance(e, Col) else None
        if ch is None:
          return None
        out += ch
      return out
    return None

  def compare_raise(self, l, stage, want, region):
    I = self.I
    name = exc_name(l.value)
    site = l.site
    if stage != 'decode':
      line = self.confirm(region)
      if line is not None:
        tags = {'C12'}
        if len(want) > 1:
          tags |= {'C02'}
        self.report(tags, 'raises', site, '%s raises %s' % (STAGE[stage], name), line, key=(stage, name, site))
      return
    if len(want) == 1:
      return                   # reported where read() accepted it
    if not is_value_error(l.value):
      line = self.confirm(region)
      if line is not None:
        self.report({'C12'}, 'raises', site, 'decode() raises %s, not ValueError' % name, line,
                    key=('decode', name, site))
    bad = self.not_refused(want, region)
    if bad:
      ident, sel, line = bad
      self.report({'C11', 'C12', 'C08', 'C09', 'C10', 'C05' if sel.startswith('primary') else 'C06'}, 'raises-valid',
                  site, 'decode() of a %s record (%s) raises %s although every field has a valid value'
                  % (ident, sel, name), line, key=('raises-valid', site))

  def not_refused(self, want, region):
    """None when the reference refuses a field on every line of region, else
    (section, layout, line without a refused field)"""
    I = self.I
    ident, number, sel = (self.pin(region, S.norm(I, x)) if isinstance(x, (str, SStr)) else x for x in want)
    rows = SPEC.LAYOUTS.get((ident, sel))
    if rows is None:
      return None
    # some field has to be refused by the reference on every line of this part
    exps = self.expectations(rows, ident, region)
    cand = []
    for (nm, idx, kind), e in zip(rows, exps):
      if e is None:
        self.undec()
        return None
      sts, alts = self.statuses(e, idx, kind, ident, region)
      if sts == {'refuse'}:
        self.stats.proved += 1
        return None
      if 'refuse' in sts:
        cand.append((nm, alts))

    def fine(asg):
      for nm, alts in cand:
        for d, st, _ in alts:
          if all(S.holds(x, asg) for x in d):
            if st == 'refuse':
              return False
            break
      return True
    cs = set()
    for nm, alts in cand:
      for d, _, _ in alts:
        for x in d:
          delta_cols(x, cs)
    cs |= set(self.el)
    w = self.witness(region, fine, cs, 40)
    if w is None:
      self.sampled()
      return None
    return (ident, sel, self.text(w, self.line.elems))

  def statuses(self, e, idx, kind, ident, region):
    if not any(st == 'refuse' for _, st, _ in e):
      return {'ok'}, ()
    sub = project(region, [self.el[i] for i in idx])
    key = ('statuses', kind, idx, signature(sub))
    r = self.memo.get(key)
    if r is None:
      alts = [(d, st, t) for d, st, t in e if self.assume_all(sub, d) is not None]
      r = self.memo[key] = ({st for _, st, _ in alts}, alts)
    return r

  def assume_all(self, region, ds):
    r = region
    for d in ds:
      r = r.assume(d)
      if r is None:
        return None
    return r

  def value(self, idx):
    return mkstr(tuple(self.el[i] for i in idx))

  def expectations(self, rows, ident, region):
    """expanded expectations of all rows under region"""
    I = self.I
    out = []
    for nm, idx, kind in rows:
      key = (kind, idx, ident if kind in IDENT_KINDS else None,
             tuple(region.box.get(self.el[i]) for i in idx))
      e = self.memo.get(key, 0)
      if e == 0:
        sub = Region({self.el[i]: region.mask(self.el[i]) for i in idx})
        got = []
        I.explore(sub, lambda: self.expected(kind, S.norm(I, self.value(idx)), ident),
                  lambda x: got.append(x))
        e = []
        for x in got:
          if x.kind != 'ok':
            e = None
            break
          d = x.region.delta_from(sub)
          for ds, st, t in self.expand_status(x.value):
            e.append((((d,) if any(d) else ()) + ds, st, t))
        self.memo[key] = e
      out.append(e)
    return out

  # an accepted record ----------------------------------------------------------

  def compare_record(self, got, ident, number, sel, is_primary, region):
    I = self.I
    L = 'C05' if is_primary else 'C06'
    rows = SPEC.LAYOUTS[ident, sel]
    self.layouts_seen[ident, sel] = self.layouts_seen.get((ident, sel), 0) + 1
    where = '%s record (%s)' % (ident, sel)
    # kind
    d = self.differs(region, got['ident'], ident) if strish(got['ident']) else None
    if d:
      line = self.confirm(region, d[0])
      if line is not None:
        self.report({'C01'}, 'ident', self.where_read(), 'a %s is given the section code %r' % (where, d[1]), line,
                    key=('ident', ident))
    if strish(got['raw']):
      d = self.differs(region, got['raw'], mkstr(tuple(self.el)))
      if d:
        line = self.confirm(region, d[0])
        if line is not None:
          self.report({'C02', 'C15', 'C18'}, 'raw', self.where_read(), 'the record text kept for a %s is not the trimmed line'
                      % where, line, key=('raw', ident))
    self.compare_flag(got['primary'], region, ident in SPEC.CONTINUATION and is_primary, number, where, 'primary', ident)
    hc = ident in SPEC.CONTINUATION
    if hc and is_primary:
      # '1' says that continuation records follow
      for want, ch in ((True, '1'), (False, '0')):
        sub = region.copy()
        if sub.restrict(self.el[SPEC.CONTINUATION[ident][0] - 1], C.BIT[ch]):
          self.compare_flag(got['hascont'], sub, want, number, where, 'hasCont', ident)
    else:
      self.compare_flag(got['hascont'], region, False, number, where, 'hasCont', ident)
    sites = self.field_sites(got['o'])
    if 'json' in got:
      for r, v in self.cases(got['json'], region):
        self.compare_json(v, rows, r, where, L, ident, sel, sites)
    if 'decode' in got:
      for r, v in self.cases(got['decode'], region):
        self.compare_decode(v, rows, r, where, L, ident, sel, sites)

  def cases(self, v, region):
    """[(region, value)] of a value that may be a choice"""
    while isinstance(v, SStr) and len(v.elems) == 1 and isinstance(v.elems[0], Term) and v.elems[0].fn == 'u':
      v = v.elems[0].args[0]
    if not isinstance(v, Union):
      return [(region, v)]
    out = []
    for a in v.alts:
      r = region.assume(a.delta)
      if r is not None:
        out.extend(self.cases(a.value, r))
    return out

  def compare_flag(self, v, region, want, number, where, name, ident):
    I = self.I

    def leaf(l):
      if l.kind == 'ok' and l.value is not want:
        line = self.confirm(l.region)
        if line is not None:
          self.report({'C03'}, name, self.method_site(name), '%s() says %s for a %s' % (name, l.value, where), line,
                      key=(name, ident))
    self.stats.compared += 1
    I.explore(region, lambda: self.truthy(v), leaf)

  def method_site(self, name):
    f, _ = self.Record.lookup(name)
    if f is not None and getattr(f, 'node', None) is not None:
      return '%s:%d' % (f.module.path, f.node.lineno)
    return None

  def field_sites(self, o):
    """where the fields of this record were made, by label (for reports only)"""
    out = {}
    fs = o.attrs.get('fields') if isinstance(o, AObj) else None
    if isinstance(fs, (list, tuple)):
      for f in fs:
        if isinstance(f, AObj) and isinstance(f.attrs.get('name'), str):
          out.setdefault(f.attrs['name'], f.site)
        elif isinstance(f, AObj):
          out.setdefault(None, f.site)
    return out

  def names_of(self, names):
    out = []
    for n in names:
      n = S.norm(self.I, n)
      out.append(n.strip() if isinstance(n, str) else repr(n))
    return out

  def mixed_up(self, names, ident, sel):
    """properties a wrong field list also breaks: it is the list of another layout"""
    tags = set()
    for (i, s), rows in SPEC.LAYOUTS.items():
      if (i, s) != (ident, sel) and [r[0] for r in rows] == names:
        if i == ident:
          tags.add('C04')
          if s.startswith('primary') != sel.startswith('primary'):
            tags.add('C03')
        else:
          tags.add('C01')
    return tags

  def compare_names(self, names, rows, region, where, L, ident, sel, sites, what):
    exp = [r[0] for r in rows]
    if names == exp:
      return True
    line = self.confirm(region)
    if line is None:
      return False
    tags = {L} | self.mixed_up(names, ident, sel)
    tags.add('C15' if what == 'json' else 'C14')
    if len(set(names)) != len(names):
      tags |= {'C07', 'C15'}
    missing = [n for n in exp if n not in names]
    extra = [n for n in names if n not in exp]
    site = next((sites[n] for n in extra if n in sites), None) or next(iter(sites.values()), None) or self.where_read()
    if set(names) >= {'Record Type', 'Section Code'} and 'Cycle Date' not in names:
      tags.add('C07')
    if missing and set(missing) & {'Record Type', 'Section Code', 'File Record No', 'Cycle Date', 'Continuation Record No',
                                   'Application Type'}:
      tags.add('C07')
    if missing or extra:
      msg = 'missing %s, unexpected %s' % (missing[:4], extra[:4])
    else:
      msg = 'the fields are in another order or repeated'
      tags.add('C07')
    self.report(tags, 'fields-' + what, site, '%s: %s' % (where, msg), line, key=('names', ident, sel, what))
    return False

  def compare_json(self, v, rows, region, where, L, ident, sel, sites):
    t = single_term(v, 'json')
    if t is None or not (isinstance(t.args[0], tuple) and t.args[0][0] == 'dict'):
      if isinstance(v, str) or (isinstance(v, SStr) and t is None and v.fixed()):
        line = self.confirm(region)
        if line is not None:
          self.report({'C15'}, 'json', self.method_site('json'), 'json() of a %s is not an object of its fields' % where, line)
        return
      self.undec()
      return
    items = t.args[0][1]
    names = self.names_of([k for k, _ in items])
    if not self.compare_names(names, rows, region, where, L, ident, sel, sites, 'json'):
      # still look at the fields that are there
      byname = dict(zip(names, [x for _, x in items]))
      pairs = [(r, byname[r[0]]) for r in rows if r[0] in byname]
    else:
      pairs = list(zip(rows, [x for _, x in items]))
    for (nm, idx, kind), val in pairs:
      self.stats.rows += 1
      exp = S.norm(self.I, self.value(idx))
      odd = self.not_text(region, val)
      if odd:
        line = self.confirm(odd[0])
        if line is not None:
          self.report({'C15'}, 'json', self.method_site('json'), '%s: field %r is %s in the json object, not a text' % (
              where, nm, odd[1]), line, key=('json-type', nm))
      d = self.differs(region, S.norm(self.I, val), exp)
      if d:
        line = self.confirm(region, d[0])
        if line is not None:
          self.report({L, 'C15', 'C07'} | ({'C10'} if kind_class(kind) == 'text' else set()), 'columns', sites.get(nm),
                      '%s: field %r holds %r instead of columns %s (%r)' % (where, nm, d[1], show_cols(idx), d[2]), line,
                      key=('columns', ident, sel, nm))

  def not_text(self, region, val):
    """(part of the region, what the value is there) when the value is no text"""
    if isinstance(val, (str, SStr)):
      return None
    out = []

    def leaf(l):
      v = l.value
      if not out and l.kind == 'ok' and (v is None or isinstance(v, (int, float)) or isinstance(v, Term) and v.ty in ('int', 'float', 'bool')):
        out.append((l.region, 'null' if v is None else 'a number'))
    self.I.explore(region, lambda: self.I.force(val), leaf, 400)
    return out[0] if out else None

  def compare_decode(self, v, rows, region, where, L, ident, sel, sites):
    I = self.I
    t = single_term(v, 'table')
    if t is None:
      self.undec()
      return
    names = self.names_of([r[0] for r in t.args[1] if len(r)])
    if tuple(t.args[0]) != ('Field', 'Value', 'Decoded') or any(len(r) != 3 for r in t.args[1]):
      line = self.confirm(region)
      if line is not None:
        self.report({'C14'}, 'table', self.method_site('decode'), 'the table of a %s does not have the columns Field, Value, Decoded'
                    % where, line, key='table-columns')
      return
    opts = dict(t.args[2])
    for bad in ('sortby', 'reversesort', 'start', 'end', 'fields', 'max_width', 'max_table_width', 'row_filter', 'header',
                'oldsortslice', 'sort_key', 'none_format', 'custom_format', 'float_format', 'int_format'):
      if opts.get(bad):
        line = self.confirm(region)
        if line is not None:
          self.report({'C14'}, 'table', self.method_site('decode'), 'the table is rendered with %s=%r: rows are not shown as they are'
                      % (bad, opts[bad]), line, key=('table-opt', bad))
    if not self.compare_names(names, rows, region, where, L, ident, sel, sites, 'decode'):
      byname = {n: r for n, r in zip(names, t.args[1])}
      rr = [(r, byname[r[0]]) for r in rows if r[0] in byname]
    else:
      rr = list(zip(rows, t.args[1]))
    exps = self.expectations([r for r, _ in rr], ident, region)
    for ((nm, idx, kind), row), exp in zip(rr, exps):
      self.stats.rows += 1
      val = S.norm(I, self.value(idx))
      d = self.differs(region, S.norm(I, row[1]), S.concat(I, ["'", val, "'"]))
      if d:
        line = self.confirm(region, d[0])
        if line is not None:
          self.report({L, 'C14', 'C07'}, 'columns', sites.get(nm), '%s: field %r shows %s instead of %s (columns %s)'
                      % (where, nm, d[1], d[2], show_cols(idx)), line, key=('columns', ident, sel, nm))
      if exp is None:
        self.undec()
        continue
      if len(exp) == 1 and exp[0][1] == 'text' and same(row[2], exp[0][2]):
        self.stats.compared += 1
        self.stats.proved += 1
        continue
      self.compare_meaning(row[2], exp, nm, idx, kind, ident, sel, where, L, region, sites)

  def compare_meaning(self, cell, exp, nm, idx, kind, ident, sel, where, L, region, sites):
    I = self.I
    sub = project(region, cols_of(cell) | {self.el[i] for i in idx})
    key = ('meaning', cell, kind, idx, ident if kind in IDENT_KINDS else None, signature(sub))
    hit = self.memo.get(key, 0)
    if hit == 0:
      t = time.time()
      hit = self._compare_meaning(cell, exp, sub)
      if DEBUG and time.time() - t > DEBUG:
        print('slow', where, nm, kind, '%.1f' % (time.time() - t), repr(cell)[:200], exp[:2], flush=True)
      self.memo[key] = hit
    for st, w, a, b, site in hit:
      line = self.confirm(region, w)
      if line is None:
        continue
      value = ''.join(w.get(self.el[i], '?') for i in idx)
      if '?' in value:
        value = ''.join(line[i] for i in idx) if not self.pad else value
      tags = {L, STATUS[st]}
      if st in ('refuse', 'unknown', 'blank'):
        tags |= {'C11', CLASSTAG[kind_class(kind)]}
        if st == 'blank':
          tags.add(CLASSTAG[kind_class(kind)])
      if b is None:
        what = '%s: %r value %r is shown as %r although it is not a value of the field' % (where, nm, value, a)
      else:
        what = '%s: %r value %r is shown as %r instead of %r' % (where, nm, value, a, b)
      self.report(tags, 'meaning', site or sites.get(nm), what, line, key=('meaning', kind, st, site, nm if not site else ''))

  def _compare_meaning(self, cell, exp, region):
    I = self.I
    out = []
    for ds, st, text in exp:
      r = self.assume_all(region, ds)
      if r is None:
        continue
      if st == 'refuse':
        w = self.witness(r, lambda a: True, cols_of(cell) | box_cols(ds), 10)
        if w is not None:
          try:
            a = S.render(cell, self.full(r, w, self.el) or w)
          except (S.RenderError, KeyError):
            a = '?'
          out.append((st, w, a, None, alt_site(cell, w)))
        continue
      d = self.differs(r, cell, text)
      if d:
        out.append((st, d[0], d[1], d[2], alt_site(cell, d[0])))
    return out


def box_cols(ds):
  acc = set()
  for d in ds:
    delta_cols(d, acc)
  return acc


def alt_site(v, asg):
  """the return that made the value, when the value is a choice between returns"""
  try:
    while True:
      if isinstance(v, SStr) and len(v.elems) == 1 and isinstance(v.elems[0], Term) and v.elems[0].fn == 'u':
        v = v.elems[0].args[0]
      if not isinstance(v, Union):
        return None
      for a in v.alts:
        if S.holds(a.delta, asg):
          if a.site:
            return a.site
          v = a.value
          break
      else:
        return None
  except (KeyError, S.RenderError):
    return None


def strish(v):
  return isinstance(v, (str, SStr, Union))


def show_cols(idx):
  out = []
  for i in idx:
    if out and out[-1][1] == i - 1:
      out[-1][1] = i
    else:
      out.append([i, i])
  return ','.join('%d' % (a + 1) if a == b else '%d-%d' % (a + 1, b + 1) for a, b in out)


def exc_name(e):
  return getattr(getattr(e, 'cls', None), 'name', None) or str(e)


def is_value_error(e):
  cls = getattr(e, 'cls', None)
  return cls is not None and any(c.name == 'ValueError' for c in cls.mro)


DEBUG = float(os.environ.get('VERIF_DEBUG', '0'))
IDENT_KINDS = ('007', '034')
CODE_KINDS = ('002', '003', '004', '007', '016', '017', '020', '021', '042', '049', '082', '091', '101', '102', '104',
              '106', '108', '112', '113', '117', '118', '165', '177', '178', '179', '181', '182', '196', '198', '199', '270')
NUMBER_KINDS = ('012', '026', '027', '032', '034', '039', '045', '054', '062', '065', '072', '103', '135', '147', '269',
                '029', '030', '048', '050', '053', '073', '086', '092', '123', '127', '161', '184', '209', '240')


def kind_class(kind):
  return 'code' if kind in CODE_KINDS else 'number' if kind in NUMBER_KINDS else 'text'


CLASSTAG = {'code': 'C08', 'number': 'C09', 'text': 'C10'}
STATUS = {'code': 'C08', 'number': 'C09', 'text': 'C10', 'blank': 'C11', 'unknown': 'C11', 'refuse': 'C11'}
REASON = {'form': {'C02'}, 'section': {'C01', 'C02'}, 'number': {'C02', 'C03'}, 'application': {'C02', 'C04'}}
WHY = {'form': 'it is not a 132-column standard or tailored record ending in record number and cycle date',
       'section': 'its section code is none of the supported ones',
       'number': 'its continuation number is neither a digit nor a letter',
       'application': 'its continuation application type is not supported for its section code'}
STAGE = {'new': 'Record()', 'read': 'read()', 'ident': 'the section code', 'raw': 'the raw text', 'primary': 'primary()/hasCont()',
         'json': 'json()', 'decode': 'decode()'}
