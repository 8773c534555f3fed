"""The analysed package next to the reference, on symbolic lines.

A shard is a region of 132-column lines (one section code, or the rest).  On every
part of a shard the package's own reading of the line (Record.read / json / decode,
evaluated abstractly from the sources) is compared with the reference (spec/).
Every disagreement needs a line of that part on which the two abstract values
denote different texts; without one it is only counted.
"""
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'src', 'arinc424')
if HERE not in sys.path:
  sys.path.insert(0, HERE)

from engine import chars as C
from engine import strings as S
from engine.interp import Interp, Infeasible, Leaf, Throw, Undecided, Restart
from engine.region import Region
from engine.values import (AClass, ADict, AFunc, AList, AObj, Alt, Col, SStr, Term, Union, col, cols_of, delta_cols, mkstr, same)
from spec import layouts as SPEC
from spec import record as SPECREC

sys.setrecursionlimit(20000)
N = 132
NWS = C.FULL & ~C.WS
PRINTABLE = C.PRED['isprintable']


class Broken(Exception):
  """the analysis has nothing to stand on (public names are gone, ...)"""


class Finding:
  """one disagreement"""
  __slots__ = ('tags', 'rule', 'site', 'what', 'line', 'key')

  def __init__(self, tags, rule, site, what, line=None, key=None):
    self.tags = frozenset(tags)
    self.rule = rule
    self.site = rel(site)
    self.what = what
    self.line = line
    self.key = key or (rule, self.site)

  def __getstate__(self):
    return (self.tags, self.rule, self.site, self.what, self.line, self.key)

  def __setstate__(self, s):
    self.tags, self.rule, self.site, self.what, self.line, self.key = s


def rel(site):
  if not site:
    return 'src/arinc424'
  if isinstance(site, tuple):
    site = '%s:%s' % site[:2] if len(site) > 1 else str(site)
  return str(site).replace(REPO + '/', '')


def lines(n=N, name='r'):
  return [col(name, i) for i in range(n)]


def make_line(n=N, lead=0, trail=0, name='r'):
  """(text, columns, region): white space, n columns that start and end with
  something else, white space"""
  el = lines(n, name)
  R = Region()
  if n:
    R.restrict(el[0], NWS)
    R.restrict(el[-1], NWS)
  pads = []
  for k, cnt in (('%s<' % name, lead), ('%s>' % name, trail)):
    p = [col(k, i) for i in range(cnt)]
    for c in p:
      R.restrict(c, C.WS)
    pads.append(p)
  text = mkstr(tuple(pads[0]) + tuple(el) + tuple(pads[1]))
  return text, el, R


# ------------------------------------------------------------------ shards

def shards():
  """a partition of the lines by section and subsection code"""
  ids = SPECREC.IDENTS
  out = []
  firsts = sorted({i[0] for i in ids})
  for f in firsts:
    subs = [i[1] for i in ids if i[0] == f]
    for s in subs:
      out.append((f + s, ((4, C.BIT[f]), (5, C.BIT[s]))))
    rest = C.FULL & ~C.of(subs)
    for s in subs:
      # the blank subsection, then anything else that is no subsection code
      if rest & C.BIT[' ']:
        out.append(('%s_%s' % (f, s), ((4, C.BIT[f]), (5, C.BIT[' ']), (12, C.BIT[s]))))
      out.append(('%s?%s' % (f, s), ((4, C.BIT[f]), (5, rest & ~C.BIT[' ']), (12, C.BIT[s]))))
    out.append((f + '??', ((4, C.BIT[f]), (5, rest), (12, C.FULL & ~C.of(subs)))))
  out.append(('other', ((4, C.FULL & ~C.of(firsts)),)))
  return out


# ------------------------------------------------------------------ the analysis

class Analysis:

  def __init__(self, share=None):
    if share is not None:
      for k in ('I', 'pkg', 'spec', 'mean', 'Record', 'meaning_fn'):
        setattr(self, k, getattr(share, k))
      self.rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
      self.memo = {}
      self.base_ctx = self.I.ctx
      self.reset()
      return
    if not os.path.isdir(PKG):
      raise Broken('no package at %s' % PKG)
    self.I = I = Interp({'arinc424': PKG, 'spec': os.path.join(HERE, 'spec'), 'decimal': os.path.join(HERE, 'engine', 'pylib', 'decimal')})
    try:
      self.pkg = I.load('arinc424')
      self.spec = I.load('spec.record')
      self.mean = I.load('spec.meaning')
    except (Throw, Undecided) as e:
      raise Broken('the package cannot be loaded: %s' % (getattr(e, 'exc', e),))
    self.Record = self.pkg.vars.get('Record')
    if not isinstance(self.Record, AClass):
      raise Broken('arinc424.Record is gone')
    self.rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    self.meaning_fn = {}
    self.memo = {}
    self.base_ctx = I.ctx
    self.reset()

  # one task ------------------------------------------------------------------

  def reset(self):
    self.stats = Stats()
    self.findings = {}
    self.layouts_seen = {}
    self.rules = {}
    self.I.undecided = []

  def abandon(self):
    """back to the state between tasks, also after an interruption"""
    self.I.ctx = self.base_ctx
    self.I.stdout_stack = []
    self.I.depth = 0

  def notes(self):
    return {'functions': {'%s.%s' % (m, f) for m, f, _ in self.I.funcs_seen if not m.startswith('spec')},
            'files': {rel(m.path) for m in self.I.modules.values() if m.path and m.path.startswith(REPO)}, 'layouts': set(self.layouts_seen),
            'rules': dict(self.rules)}

  def rule(self, name, n=1):
    self.rules[name] = self.rules.get(name, 0) + n

  # reports -------------------------------------------------------------------

  def report(self, tags, rule, site, what, line=None, key=None):
    f = Finding(tags, rule, site, what, line, key)
    k = (f.rule, f.key)
    if k in self.findings:
      self.findings[k].tags |= f.tags
    else:
      self.findings[k] = f

  # calls ---------------------------------------------------------------------

  def method(self, o, name, *args, **kw):
    I = self.I
    return I.call(I.getattr(o, name), list(args), dict(kw))

  def truthy(self, v):
    """force a truth value"""
    I = self.I
    v = I.force(v)
    return I.truth(v)

  # witnesses -----------------------------------------------------------------

  def witness(self, region, test, cols=(), n=60):
    """an assignment of columns inside region on which test(assignment) is true"""
    base = set(cols)
    for a in S.sample_assignments(region, base, n, self.rng):
      self.stats.samples += 1
      try:
        if test(a):
          return a
      except S.RenderError:
        self.stats.unrendered += 1
        continue
    return None

  def full(self, region, asg, el):
    """a whole line of the region that extends the assignment"""
    r = region.copy()
    for c, ch in asg.items():
      if not r.restrict(c, C.BIT[ch]):
        return None
    for a in S.sample_assignments(r, el, 1, random.Random(7)):
      return a
    return None

  def text(self, asg, el):
    return ''.join(asg.get(c, '?') for c in el)

  # comparison ----------------------------------------------------------------

  def differs(self, region, a, b):
    """None when the texts a and b are the same everywhere in region, else
    (assignment, text a, text b)"""
    self.stats.compared += 1
    if a is b or same(a, b):
      return None
    cs = cols_of(a) | cols_of(b)
    sub = project(region, cs)
    key = (a, b, signature(sub))
    if key in self.memo:
      return self.memo[key]
    r = self.by_classes(sub, a, b, cs)
    if r is False:
      r = self._differs(sub, a, b, cs)
    self.memo[key] = r
    return r

  def by_classes(self, region, a, b, cs):
    """exhaustive comparison when both values depend on the columns only through
    tests of single columns: one representative per class of characters"""
    if len(cs) > 6 or verbatim_cols(a) or verbatim_cols(b):
      return False
    masks = {c: set() for c in cs}
    if not guard_masks(a, masks) or not guard_masks(b, masks):
      return False
    pools = []
    size = 1
    cs = sorted(cs)
    for c in cs:
      classes = [region.box.get(c, C.FULL)]
      for m in masks[c]:
        classes = [x for k in classes for x in (k & m, k & ~m) if x]
      pools.append(classes)
      size *= len(classes)
      if size > 20000:
        return False
    import itertools
    self.stats.enumerated += 1
    for combo in itertools.product(*pools):
      asg = {c: C.example(m, 'A1 0S') for c, m in zip(cs, combo)}
      try:
        x, y = str(S.render(a, asg)), str(S.render(b, asg))
      except S.RenderError:
        # no alternative holds: the region does not reach here
        continue
      if x != y:
        r = region.copy()
        if not all(r.restrict(c, m) for c, m in zip(cs, combo)):
          continue
        w = self.witness(r, lambda s: True, cs, 5)
        if w is not None:
          return (w, x, y)
    return None

  def _differs(self, region, a, b, cs):
    I = self.I
    out = []
    hard = []

    def thunk():
      x = text_of(I, I.force(a))
      y = text_of(I, I.force(b))
      if same(x, y):
        return None
      x, y = S.norm(I, x), S.norm(I, y)
      if same(x, y):
        return None
      fx, fy = S.fix(I, x), S.fix(I, y)
      if fx is not None and fy is not None:
        fx, fy = S.norm(I, fx), S.norm(I, fy)
        if same(fx, fy):
          return None
        return (fx, fy)
      return (x, y)

    def leaf(l):
      if out:
        return
      if l.kind != 'ok':
        self.stats.undecided_cmp += 1
        return
      if l.value is None:
        self.stats.proved += 1
        return
      x, y = l.value
      w = self.enumerate(l.region, x, y)
      if w is True:
        self.stats.enumerated += 1
        return
      if w is False:
        # too many to enumerate: two different plain column sequences differ
        # somewhere; look for it
        w = self.witness(l.region, lambda s: S.render(x, s) != S.render(y, s), cols_of(x) | cols_of(y), 150)
        if w is None:
          self.stats.sampled += 1
          return
      # the leaf may pin columns the two texts no longer name
      w = self.full(l.region, w, sorted(cs))
      if w is None:
        self.stats.sampled += 1
        return
      out.append((w, S.render(x, w), S.render(y, w)))
    I.explore(region, thunk, leaf, 4000)
    return out[0] if out else None

  def enumerate(self, region, x, y):
    """compare on every assignment when there are few: True same, assignment where
    they differ, False when there are too many"""
    import itertools
    cs = sorted(cols_of(x) | cols_of(y))
    size = 1
    for c in cs:
      size *= bin(region.box.get(c, C.FULL)).count('1')
      if size > 20000:
        return False
    pools = [list(C.chars(region.box.get(c, C.FULL))) for c in cs]
    for combo in itertools.product(*pools):
      asg = dict(zip(cs, combo))
      try:
        if S.render(x, asg) == S.render(y, asg):
          continue
      except S.RenderError:
        self.stats.unrendered += 1
        continue
      # only inside the region
      sub = region.copy()
      if not all(sub.restrict(c, C.BIT[ch]) for c, ch in asg.items()):
        continue
      w = self.witness(sub, lambda s: True, cs, 12)
      if w is not None:
        return {c: w.get(c, asg.get(c)) for c in w}
    return True

  # expectations --------------------------------------------------------------

  def expected(self, kind, value, ident):
    """abstract (status, text) the reference gives a field"""
    I = self.I
    f = self.meaning_fn.get(kind)
    if f is None:
      f = self.meaning_fn[kind] = I.call(self.mean.vars['meaning'], [kind], {})
    if f is self.mean.vars['verbatim']:
      return ('text', value)
    return I.explore_merge(lambda: I.call(f, [value, ident], {}))

  def expand_status(self, v):
    """[(delta list, status, text)] of an expectation"""
    if isinstance(v, tuple):
      return [((), v[0], v[1])]
    out = []
    for a in v.alts:
      for d, st, t in self.expand_status(a.value):
        out.append(((a.delta,) + d, st, t))
    return out


class Stats:
  FIELDS = ('leaves', 'accepted', 'rejected', 'raising', 'undecided', 'compared', 'proved', 'enumerated', 'sampled',
            'samples', 'unrendered', 'undecided_cmp', 'rows', 'layouts', 'paths', 'tests', 'unconfirmed', 'slices')

  def __init__(self):
    for f in self.FIELDS:
      setattr(self, f, 0)

  def add(self, o):
    for f in self.FIELDS:
      setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

  def dict(self):
    return {f: getattr(self, f) for f in self.FIELDS}


def relevant(region, cs):
  cl = tuple(c for c in region.clauses if any(x in cs for x, _ in c))
  pr = tuple((k, v) for k, v in region.preds.items() if any(x in cs for x in cols_of(k)))
  return (cl, pr)


def closure(region, cs):
  """cs and the columns tied to them by clauses and opaque tests"""
  cs = set(cs)
  ties = [frozenset(c for c, _ in cl) for cl in region.clauses]
  ties += [frozenset(cols_of(k)) for k in region.preds]
  ties = [t for t in set(ties) if not t <= cs]
  grew = True
  while grew and ties:
    grew = False
    for t in ties:
      if t & cs and not t <= cs:
        cs |= t
        grew = True
    ties = [t for t in ties if not t <= cs]
  return cs


def project(region, cs):
  """what region says about the columns cs: exact on them when the region is a
  product of what it says about them and about the others, which the closure makes so"""
  cs = closure(region, cs)
  return Region({c: region.box[c] for c in cs if c in region.box},
                [cl for cl in region.clauses if cl[0][0] in cs],
                {k: v for k, v in region.preds.items() if cols_of(k) <= cs and cols_of(k)})


def signature(region):
  return (frozenset(region.box.items()), region.clauses, frozenset(region.preds.items()))


def verbatim_cols(v):
  """does a column show up in the value itself (not only in guards)"""
  if isinstance(v, SStr):
    for e in v.elems:
      if isinstance(e, str):
        continue
      if not isinstance(e, Term) or verbatim_cols(e):
        return True
    return False
  if isinstance(v, (Col,)):
    return True
  if isinstance(v, Union):
    return any(verbatim_cols(a.value) for a in v.alts)
  if isinstance(v, Term):
    return any(verbatim_cols(a) for a in v.args)
  if isinstance(v, tuple):
    return any(verbatim_cols(x) for x in v)
  return not (v is None or isinstance(v, (str, int, float, bool)))


def guard_masks(v, acc):
  if isinstance(v, SStr):
    return all(isinstance(e, str) or guard_masks(e, acc) for e in v.elems)
  if isinstance(v, Union):
    return all(delta_masks(a.delta, acc) and guard_masks(a.value, acc) for a in v.alts)
  if isinstance(v, Term):
    return all(guard_masks(a, acc) for a in v.args)
  if isinstance(v, tuple):
    return all(guard_masks(a, acc) for a in v)
  return True


def delta_masks(d, acc):
  box, clauses, preds = d
  for c, m in box:
    acc[c].add(m)
  for cl in clauses:
    for c, m in cl:
      acc[c].add(m)
  for k, _ in preds:
    if k.fn != 'delta' or not delta_masks(k.args[0], acc):
      return False
  return True


def text_of(I, v):
  if isinstance(v, (str, SStr)):
    return v
  return S.str_(I, v)


def single_term(v, fn):
  if isinstance(v, SStr) and len(v.elems) == 1 and isinstance(v.elems[0], Term) and v.elems[0].fn == fn:
    return v.elems[0]
  return None
