"""Abstract values.

Immutable host values (None, bool, int, float, str, bytes, tuple, range, slice)
stand for themselves.  Everything that depends on the columns of an input line is
one of
  SStr   a text: a sequence of characters, columns and text terms,
  Term   a number / truth value / text computed from columns, kept as an
         expression and never evaluated by running the analysed program,
  Union  guarded alternatives (what a call returned on each part of the input).
"""
import itertools

_cols = {}


class Col:
  """a column of an input line: any character the region allows"""
  __slots__ = ('line', 'idx', 'order')

  def __repr__(self):
    return '%s%d' % (self.line, self.idx + 1)

  def __lt__(self, other):
    return self.order < other.order


def col(line, idx):
  k = (line, idx)
  c = _cols.get(k)
  if c is None:
    c = Col()
    c.line, c.idx = line, idx
    c.order = len(_cols)
    _cols[k] = c
  return c


_mcols = {}


class MCol:
  """a column passed through a character map ('upper', 'lower', ...)"""
  __slots__ = ('fn', 'col')

  def image(self, ch):
    return getattr(ch, self.fn)()

  def __repr__(self):
    return '%s(%r)' % (self.fn, self.col)


def mcol(fn, c):
  k = (fn, c)
  m = _mcols.get(k)
  if m is None:
    m = MCol()
    m.fn, m.col = fn, c
    _mcols[k] = m
  return m


class SStr:
  __slots__ = ('elems', '_h')

  def __init__(self, elems):
    self.elems = elems
    self._h = None

  def __eq__(self, o):
    return isinstance(o, SStr) and self.elems == o.elems

  def __hash__(self):
    if self._h is None:
      self._h = hash(self.elems)
    return self._h

  def fixed(self):
    for e in self.elems:
      if isinstance(e, Term):
        return False
    return True

  def __repr__(self):
    out = []
    run = ''
    i = 0
    el = self.elems
    while i < len(el):
      e = el[i]
      if isinstance(e, str):
        run += e
        i += 1
        continue
      if run:
        out.append(repr(run))
        run = ''
      if isinstance(e, Col):
        j = i
        while j + 1 < len(el) and isinstance(el[j + 1], Col) and el[j + 1].line == e.line and el[j + 1].idx == el[j].idx + 1:
          j += 1
        out.append('%s[%d]' % (e.line, e.idx + 1) if j == i else '%s[%d-%d]' % (e.line, e.idx + 1, el[j].idx + 1))
        i = j + 1
      else:
        out.append(repr(e))
        i += 1
    if run:
      out.append(repr(run))
    return '+'.join(out)


def mkstr(elems):
  for e in elems:
    if not isinstance(e, str):
      return SStr(tuple(elems))
  return ''.join(elems)


def elems_of(s):
  return tuple(s) if isinstance(s, str) else s.elems


class Term:
  """an expression over columns; ty in {'str','int','float','bool','any'}"""
  __slots__ = ('ty', 'fn', 'args', '_h', '_c')

  def __init__(self, ty, fn, args):
    self.ty = ty
    self.fn = fn
    self.args = args
    self._h = None
    self._c = None

  def __eq__(self, o):
    return self is o or (isinstance(o, Term) and self.fn == o.fn and self.ty == o.ty and hash(self) == hash(o)
                         and _same(self.args, o.args))

  def __hash__(self):
    if self._h is None:
      self._h = hash((self.ty, self.fn, self.args))
    return self._h

  def __repr__(self):
    return '%s(%s)' % (self.fn, ', '.join(map(repr, self.args)))


def _same(a, b):
  """equality that keeps 1, 1.0 and True apart"""
  if type(a) is not type(b):
    return False
  if isinstance(a, tuple):
    return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
  return a == b


same = _same


class Alt:
  __slots__ = ('delta', 'value', 'site')

  def __init__(self, delta, value, site=None):
    self.delta = delta
    self.value = value
    self.site = site

  def __eq__(self, o):
    return isinstance(o, Alt) and self.delta == o.delta and _same(self.value, o.value)

  def __hash__(self):
    return hash((self.delta, self.value))


class Union:
  """guarded alternatives; the guards partition the region they were made in"""
  __slots__ = ('alts', '_h')

  def __init__(self, alts):
    self.alts = tuple(alts)
    self._h = None

  def __eq__(self, o):
    return self is o or (isinstance(o, Union) and self.alts == o.alts)

  def __hash__(self):
    if self._h is None:
      self._h = hash(self.alts)
    return self._h

  def __repr__(self):
    return 'Union<%d>(%s)' % (len(self.alts), ' | '.join(repr(a.value) for a in self.alts[:6]))


def cols_of(v, acc=None):
  """the columns a value depends on (guards included)"""
  if acc is None:
    acc = set()
  if isinstance(v, SStr):
    for e in v.elems:
      if isinstance(e, Col):
        acc.add(e)
      elif not isinstance(e, str):
        cols_of(e, acc)
  elif isinstance(v, Col):
    acc.add(v)
  elif isinstance(v, MCol):
    acc.add(v.col)
  elif isinstance(v, Term):
    if v._c is None:
      s = set()
      for a in v.args:
        cols_of(a, s)
      v._c = frozenset(s)
    acc |= v._c
  elif isinstance(v, tuple):
    for x in v:
      cols_of(x, acc)
  elif isinstance(v, Union):
    for a in v.alts:
      cols_of(a.value, acc)
      delta_cols(a.delta, acc)
  return acc


def delta_cols(delta, acc):
  box, clauses, preds = delta
  for c, _ in box:
    acc.add(c)
  for cl in clauses:
    for c, _ in cl:
      acc.add(c)
  for k, _ in preds:
    cols_of(k, acc)
  return acc


_stamp = itertools.count(1)


def stamp():
  return next(_stamp)


class AList(list):
  __slots__ = ('birth', 'site')
  __hash__ = object.__hash__

  def __init__(self, items=()):
    list.__init__(self, items)
    self.birth = next(_stamp)


class ASet:
  """set / frozenset; items are host values or symbolic texts"""
  __slots__ = ('items', 'birth', 'frozen')

  def __init__(self, items=(), frozen=False):
    self.items = dict.fromkeys(items)
    self.birth = next(_stamp)
    self.frozen = frozen


class ADict:
  __slots__ = ('d', 'birth', 'factory', 'kind', 'ro')

  def __init__(self, d=None, factory=None, kind='dict'):
    self.d = d if d is not None else {}
    self.birth = next(_stamp)
    self.factory = factory
    self.kind = kind
    self.ro = False


class AClass:
  __slots__ = ('name', 'bases', 'attrs', 'mro', 'birth', 'host', 'module', 'kind', 'site')

  def __init__(self, name, bases, attrs, host=None, module=None, kind=None):
    self.name = name
    self.bases = bases
    self.attrs = attrs
    self.host = host       # host class for builtin types / exceptions
    self.module = module
    self.kind = kind       # 'enum', 'namedtuple', 'dataclass', ...
    self.birth = next(_stamp)
    self.site = None
    self.mro = _c3(self)

  def lookup(self, name):
    for c in self.mro:
      if name in c.attrs:
        return c.attrs[name], c
    return None, None

  def __repr__(self):
    return '<class %s>' % self.name


def _c3(cls):
  seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
  out = [cls]
  while True:
    seqs = [s for s in seqs if s]
    if not seqs:
      return out
    for s in seqs:
      h = s[0]
      if not any(h in t[1:] for t in seqs):
        break
    else:
      h = seqs[0][0]
    out.append(h)
    for s in seqs:
      if h in s:
        s.remove(h)


class AObj:
  __slots__ = ('cls', 'attrs', 'birth', 'site', 'data')

  def __init__(self, cls, site=None):
    self.cls = cls
    self.attrs = {}
    self.birth = next(_stamp)
    self.site = site
    self.data = None

  def __repr__(self):
    return '<%s object>' % self.cls.name


class AFunc:
  __slots__ = ('name', 'node', 'module', 'closure', 'defaults', 'kwdefaults', 'birth', 'attrs',
               'owner', 'info', 'is_lambda', 'frame_cls')

  def __init__(self, name, node, module, closure, defaults, kwdefaults, info):
    self.name = name
    self.node = node
    self.module = module
    self.closure = closure
    self.defaults = defaults
    self.kwdefaults = kwdefaults
    self.birth = next(_stamp)
    self.attrs = {}
    self.owner = None
    self.info = info

  def __repr__(self):
    return '<function %s>' % self.name


class Bound:
  __slots__ = ('func', 'self')

  def __init__(self, func, self_):
    self.func = func
    self.self = self_

  def __eq__(self, o):
    return isinstance(o, Bound) and o.func is self.func and o.self is self.self

  def __hash__(self):
    return hash((id(self.func), id(self.self)))


class Builtin:
  """a modelled builtin / library function: fn(I, args, kwargs)"""
  __slots__ = ('name', 'fn', 'attrs')

  def __init__(self, name, fn):
    self.name = name
    self.fn = fn
    self.attrs = {}

  def __repr__(self):
    return '<builtin %s>' % self.name


class External:
  """something of a module that is not modelled"""
  __slots__ = ('name',)

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return '<external %s>' % self.name


class Lost:
  """a module-level name whose value could not be worked out"""
  __slots__ = ('why',)

  def __init__(self, why):
    self.why = why


class Prop:
  __slots__ = ('fget', 'fset', 'cached')

  def __init__(self, fget, fset=None, cached=False):
    self.fget, self.fset, self.cached = fget, fset, cached


class StaticM:
  __slots__ = ('fn',)

  def __init__(self, fn):
    self.fn = fn


class ClassM:
  __slots__ = ('fn',)

  def __init__(self, fn):
    self.fn = fn


class Module:
  __slots__ = ('name', 'vars', 'birth', 'path', 'loading', 'tree', 'external')

  def __init__(self, name, path=None):
    self.name = name
    self.vars = {}
    self.birth = next(_stamp)
    self.path = path
    self.external = False
    self.tree = None

  def __repr__(self):
    return '<module %s>' % self.name


class AIter:
  """an iterator over a host iterator"""
  __slots__ = ('it', 'birth', 'kind', 'src')

  def __init__(self, it, kind='iterator', src=None):
    self.it = it
    self.kind = kind
    self.birth = next(_stamp)
    self.src = src


class SuperObj:
  __slots__ = ('cls', 'obj')

  def __init__(self, cls, obj):
    self.cls = cls
    self.obj = obj


class Partial:
  __slots__ = ('fn', 'args', 'kwargs')

  def __init__(self, fn, args, kwargs):
    self.fn, self.args, self.kwargs = fn, args, kwargs


NotImpl = type('NotImplType', (), {'__repr__': lambda s: 'NotImplemented'})()
EllipsisV = Ellipsis
