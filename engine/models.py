"""Meaning of builtins, containers and the library modules the package may use."""
import itertools

from . import chars as C
from . import strings as S
from .region import EMPTY_DELTA
from .values import *


def U(msg):
  from .interp import Undecided
  return Undecided(msg)


class BM:
  """method of a builtin value"""
  __slots__ = ('name', 'obj')

  def __init__(self, name, obj):
    self.name = name
    self.obj = obj

  def __eq__(self, o):
    return isinstance(o, BM) and o.name == self.name and o.obj is self.obj

  def __hash__(self):
    return hash((self.name, id(self.obj)))

  def __repr__(self):
    return '<method %s>' % self.name


HOST_TYPES = [object, type, str, int, float, bool, list, dict, tuple, set, frozenset, bytes, bytearray, complex,
              slice, range, property, staticmethod, classmethod, enumerate, zip, map, filter, reversed, memoryview]


def install(I):
  import builtins as hb
  I.types = {}
  obj = AClass('object', (), {}, host=object)
  I.types['object'] = obj
  for t in HOST_TYPES[1:]:
    base = I.types['int'] if t is bool else obj
    I.types[t.__name__] = AClass(t.__name__, (base,), {}, host=t)
  for extra in ('NoneType', 'function', 'method', 'builtin_function_or_method', 'module', 'generator', 'iterator'):
    I.types[extra] = AClass(extra, (obj,), {}, host=type(None))
  for extra in ('TextIOWrapper', 'StringIO', 'PrettyTable', 'DirEntry', 'PosixPath', 'Match', 'Pattern', 'Field', 'Logger',
                'lru', 'suppress', 'genctx', 'SimpleNamespace', 'itemgetter', 'auto', 'nullcontext', 'ExitStack', 'redirect',
                'stdstream', 'itercount'):
    I.types[extra] = AClass(extra, (obj,), {})
  obj.attrs['__init__'] = None
  del obj.attrs['__init__']
  I.exc_classes = {}

  def mk_exc(h):
    if h.__name__ in I.exc_classes:
      return I.exc_classes[h.__name__]
    bases = tuple(mk_exc(b) for b in h.__bases__ if issubclass(b, BaseException)) or (obj,)
    c = AClass(h.__name__, bases, {})
    I.exc_classes[h.__name__] = c
    return c
  for k, v in vars(hb).items():
    if isinstance(v, type) and issubclass(v, BaseException):
      mk_exc(v)
      if k not in I.exc_classes:
        I.exc_classes[k] = I.exc_classes[v.__name__]

  def exc_init(I, args, kwargs):
    o = args[0]
    I.mut(o)
    o.attrs['args'] = tuple(args[1:])
    if len(args) > 1 and I.exc_classes['SystemExit'] in o.cls.mro:
      o.attrs['code'] = args[1]
  I.exc_classes['BaseException'].attrs['__init__'] = Builtin('BaseException.__init__', exc_init)
  I.exc_classes['BaseException'].attrs['with_traceback'] = Builtin('with_traceback', lambda I, a, k: a[0])
  I.exc_classes['BaseException'].attrs['add_note'] = Builtin('add_note', lambda I, a, k: None)
  b = I.builtins = {}
  for name, t in I.types.items():
    if hasattr(hb, name):
      b[name] = t
  for name in ('enumerate', 'zip', 'map', 'filter', 'reversed', 'property', 'staticmethod', 'classmethod'):
    b.pop(name, None)
  for k, v in I.exc_classes.items():
    b[k] = v
  for name, fn in BUILTINS.items():
    b[name] = Builtin(name, fn)
  b['NotImplemented'] = NotImpl
  b['Ellipsis'] = Ellipsis
  b['__debug__'] = True
  b['__name__'] = 'builtins'
  install_classes(I)
  I.mod_cache = {}


# ------------------------------------------------------------------ types

def type_of(I, v):
  t = I.types
  if v is None:
    return t['NoneType']
  if isinstance(v, bool):
    return t['bool']
  if isinstance(v, int):
    return t['int']
  if isinstance(v, float):
    return t['float']
  if isinstance(v, (str, SStr)):
    return t['str']
  if isinstance(v, Term):
    return t[v.ty]
  if isinstance(v, tuple):
    return t['tuple']
  if isinstance(v, AList):
    return t['list']
  if isinstance(v, ADict):
    if v.kind == 'defaultdict':
      return container_class(I, 'defaultdict')
    if v.kind == 'OrderedDict':
      return container_class(I, 'OrderedDict')
    return t['dict']
  if isinstance(v, ASet):
    return t['frozenset' if v.frozen else 'set']
  if isinstance(v, AObj):
    return v.cls
  if isinstance(v, AClass):
    return t['type']
  if isinstance(v, AFunc):
    return t['function']
  if isinstance(v, Bound):
    return t['method']
  if isinstance(v, (Builtin, BM)):
    return t['builtin_function_or_method']
  if isinstance(v, Module):
    return t['module']
  if isinstance(v, AIter):
    return t['generator']
  if isinstance(v, bytes):
    return t['bytes']
  if isinstance(v, range):
    return t['range']
  if isinstance(v, slice):
    return t['slice']
  raise U('type of %r' % (v,))


def container_class(I, name):
  k = '@' + name
  if k not in I.types:
    I.types[k] = AClass(name, (I.types['dict'],), {}, host=dict)
  return I.types[k]


def isinstance_(I, v, cls):
  if isinstance(v, Union):
    v = I.force(v)
  cls = I.force(cls)
  if isinstance(cls, tuple):
    return any(isinstance_(I, v, c) for c in cls)
  if isinstance(cls, AObj) and cls.cls.name == 'uniontype':
    return any(isinstance_(I, v, c) for c in cls.data)
  if cls is None:
    return v is None
  if isinstance(cls, External):
    n = cls.name.split('.')[-1]
    abc = {'Iterable': lambda x: isinstance(x, (str, SStr, tuple, AList, ADict, ASet, AIter)),
           'Sequence': lambda x: isinstance(x, (str, SStr, tuple, AList)),
           'MutableSequence': lambda x: isinstance(x, AList),
           'Collection': lambda x: isinstance(x, (str, SStr, tuple, AList, ADict, ASet)),
           'Sized': lambda x: isinstance(x, (str, SStr, tuple, AList, ADict, ASet)),
           'Container': lambda x: isinstance(x, (str, SStr, tuple, AList, ADict, ASet)),
           'Mapping': lambda x: isinstance(x, ADict), 'MutableMapping': lambda x: isinstance(x, ADict),
           'Set': lambda x: isinstance(x, ASet),
           'Callable': lambda x: isinstance(x, (AFunc, Bound, Builtin, AClass, BM)),
           'List': lambda x: isinstance(x, AList), 'Dict': lambda x: isinstance(x, ADict),
           'Hashable': lambda x: not isinstance(x, (AList, ADict, ASet)),
           'Iterator': lambda x: isinstance(x, AIter), 'Generator': lambda x: isinstance(x, AIter),
           'Number': lambda x: isinstance(x, (int, float, Term)), 'Real': lambda x: isinstance(x, (int, float, Term)),
           'Integral': lambda x: isinstance(x, int),
           'PathLike': lambda x: isinstance(x, AObj) and x.cls.name == 'PosixPath'}
    if n in abc:
      return abc[n](v)
    raise U('isinstance with ' + cls.name)
  if not isinstance(cls, AClass):
    I.throw('TypeError', 'isinstance() arg 2 must be a type')
  return cls in type_of(I, v).mro


# ------------------------------------------------------------------ containers

def hashable(I, k):
  if isinstance(k, (AList, ADict)) or (isinstance(k, ASet) and not k.frozen):
    I.throw('TypeError', "unhashable type: '%s'" % type_of(I, k).name)
  if isinstance(k, tuple):
    for x in k:
      hashable(I, x)


def symbolic(k):
  return isinstance(k, (SStr, Term)) or (isinstance(k, tuple) and any(symbolic(x) for x in k)) or isinstance(k, Union)


def dict_key(I, d, key):
  """(found, actual key); partitions the region for symbolic keys"""
  if isinstance(key, Union):
    key = I.force(key)
  key = S.norm(I, key)
  hashable(I, key)
  if isinstance(key, AObj) and key.cls.kind in ('strenum', 'intenum'):
    key = key.attrs['value'] if key not in d else key
  syms = [k for k in d if type(k) is not str and symbolic(k)]
  if not symbolic(key):
    try:
      if key in d:
        return True, key
    except TypeError:
      raise U('key')
    if isinstance(key, AObj) and I.special(key, '__eq__') is not None:
      for k in d:
        if I.truth(I.eq_op(key, k)):
          return True, k
    for k in syms:
      if I.eq(k, key):
        return True, k
    return False, key
  if isinstance(key, SStr):
    if key in d:
      return True, key
    f = key if key.fixed() else S.fix(I, key)
    if f is None:
      cands = [k for k in d if isinstance(k, str)]
      for k in cands:
        if I.eq(key, k):
          return True, k
      for k in syms:
        if isinstance(k, SStr) and I.eq(k, key):
          return True, k
      return False, key
    f = S.norm(I, f)
    if not isinstance(f, SStr):
      return dict_key(I, d, f)
    key = f
    if key in d:
      return True, key
    for k in syms:
      if isinstance(k, SStr) and I.eq(k, key):
        return True, k
    el = key.elems
    ds, ks, clauses = [], [], []
    for k in d:
      if isinstance(k, str) and len(k) == len(el):
        lits = [S.lit(e, C.BIT.get(ch, 0)) for e, ch in zip(el, k)]
        c = S.conj(lits)
        if c is None:
          continue
        ds.append(c)
        ks.append(k)
        clauses.append(S.disj([S.nlit(l) for l in lits]))
    if not ds:
      return False, key
    if all(c is not None for c in clauses):
      from .interp import join_deltas
      ds.append(join_deltas(clauses))
    i = I.choose(ds)
    if i < len(ks):
      return True, ks[i]
    return False, key
  for k in list(d):
    if type(k) is type(key) or isinstance(k, (int, float)) and isinstance(key, Term) or isinstance(k, tuple) and isinstance(key, tuple):
      if I.eq(k, key):
        return True, k
  return False, key


def dict_find(I, d, key):
  f, k = dict_key(I, d.d, key)
  return (True, d.d[k]) if f else (False, None)


def dict_set(I, d, key, v):
  if isinstance(key, Union):
    key = I.force(key)
  key = S.norm(I, key)
  I.mut(d)
  if d.ro:
    I.throw('TypeError', "'mappingproxy' object does not support item assignment")
  if not symbolic(key) and not any(type(k) is not str and symbolic(k) for k in d.d):
    hashable(I, key)
    d.d[key] = v
    return
  f, k = dict_key(I, d.d, key)
  d.d[k] = v


def dict_update(I, d, src=None, kwargs=None):
  if src is not None:
    src = I.force(src)
    if isinstance(src, ADict):
      for k, v in list(src.d.items()):
        dict_set(I, d, k, v)
    else:
      for pair in iterate(I, src):
        k, v = list(I.iterate(pair))
        dict_set(I, d, k, v)
  for k, v in (kwargs or {}).items():
    dict_set(I, d, k, v)


def dict_get(I, d, key):
  """d[key]"""
  f, k = dict_key(I, d.d, key)
  if f:
    return d.d[k]
  if d.factory is not None:
    v = I.call(d.factory, [], {})
    if d.birth < I.ctx.start and I.ctx.merge:
      I.event('default-insert', 'defaultdict', I.where())
      if not S.strlike(v) and not isinstance(v, (bool, int, float, type(None), tuple)):
        I.mut(d)
      return v
    I.mut(d)
    d.d[k] = v
    return v
  if d.kind == 'Counter':
    return 0
  I.throw('KeyError', k)


def make_set(I, items, frozen=False):
  s = ASet(frozen=frozen)
  for x in items:
    set_add(I, s, x)
  return s


def set_add(I, s, x):
  f, k = dict_key(I, s.items, x)
  if not f:
    s.items[k] = None


def contains(I, box, x):
  if isinstance(box, (str, SStr)):
    if isinstance(x, Union):
      x = I.force(x)
    return S.contains_str(I, box, x)
  if isinstance(x, Union):
    x = I.force(x)
  x = S.norm(I, x)
  if isinstance(box, (tuple, AList)) or (isinstance(box, BM) and False):
    items = list(box)
    if isinstance(x, SStr) and items and all(isinstance(i, str) for i in items):
      f = x if x.fixed() else S.fix(I, x)
      if f is not None:
        f = S.norm(I, f)
        if isinstance(f, str):
          return f in items
        return S.one_of(I, f, items)
    for i in items:
      if i is x or I.truth(I.eq_op(I.force(i), x)):
        return True
    return False
  if isinstance(box, ADict):
    f, _ = dict_key_member(I, box.d, x)
    return f
  if isinstance(box, ASet):
    f, _ = dict_key_member(I, box.items, x)
    return f
  if isinstance(box, range):
    if isinstance(x, int):
      return x in box
    return any(I.eq(i, x) for i in box)
  if isinstance(box, AObj):
    m = I.special(box, '__contains__')
    if m is not None:
      return I.truth(I.call(m, [x], {}))
  if isinstance(box, AClass) and box.kind in ENUMS:
    return any(m is x for m in enum_members(box))
  if box is None or isinstance(box, (int, float, Term)):
    I.throw('TypeError', 'argument is not iterable')
  for i in I.iterate(box):
    if I.eq(i, x):
      return True
  return False


def dict_key_member(I, d, x):
  """membership: single columns are tested as one set"""
  if isinstance(x, SStr) and len(x.elems) == 1 and x.fixed() and not any(symbolic(k) for k in d):
    ks = ''.join(k for k in d if isinstance(k, str) and len(k) == 1)
    return S.branch_all(I, [S.lit(x.elems[0], C.of(ks))]), x
  return dict_key(I, d, x)


def iterate(I, v):
  if isinstance(v, (tuple, range)):
    return iter(v)
  if isinstance(v, str):
    return iter(v)
  if isinstance(v, SStr):
    f = v if v.fixed() else S.fix(I, v)
    if f is None:
      raise U('iteration over a text of unknown length')
    return iter([S.norm(I, mkstr((e,))) for e in elems_of(f)])
  if isinstance(v, AList):
    return list_iter(v)
  if isinstance(v, ADict):
    return dict_iter(I, v, list(v.d))
  if isinstance(v, ASet):
    return iter(list(v.items))
  if isinstance(v, AIter):
    return gen_iter(I, v)
  if isinstance(v, AObj):
    m = I.special(v, '__iter__')
    if m is not None:
      return iterate(I, I.force(I.call(m, [], {})))
    if v.cls.kind == 'namedtuple':
      return iter([v.attrs[k] for k in I.class_attr(v.cls, '_fields')])
    m = I.special(v, '__next__')
    if m is not None:
      return obj_iter(I, v)
    m = I.special(v, '__getitem__')
    if m is not None:
      return seq_iter(I, v)
  if isinstance(v, AClass) and v.kind in ENUMS:
    return iter(enum_members(v))
  if isinstance(v, bytes):
    return iter(v)
  if isinstance(v, External):
    raise U('iteration over ' + v.name)
  I.throw('TypeError', "'%s' object is not iterable" % type_of(I, v).name)


def list_iter(lst):
  i = 0
  while i < len(lst):
    yield lst[i]
    i += 1


def dict_iter(I, d, keys):
  n = len(d.d)
  for k in keys:
    if len(d.d) != n:
      I.throw('RuntimeError', 'dictionary changed size during iteration')
    yield k


def gen_iter(I, v):
  while True:
    I.mut(v)
    try:
      x = next(v.it)
    except StopIteration:
      return
    yield x


def obj_iter(I, o):
  from .interp import Throw
  while True:
    m = I.special(o, '__next__')
    I.ctx.try_depth += 1
    try:
      x = I.call(m, [], {})
    except Throw as t:
      if I.exc_classes['StopIteration'] in t.exc.cls.mro:
        return
      raise
    finally:
      I.ctx.try_depth -= 1
    yield x


def seq_iter(I, o):
  from .interp import Throw
  i = 0
  while True:
    I.ctx.try_depth += 1
    try:
      x = I.call(I.special(o, '__getitem__'), [i], {})
    except Throw as t:
      if I.exc_classes['IndexError'] in t.exc.cls.mro:
        return
      raise
    finally:
      I.ctx.try_depth -= 1
    yield x
    i += 1


def getitem(I, o, k):
  if isinstance(o, (str, SStr)):
    return S.getitem_str(I, o, k)
  if isinstance(o, ADict):
    return dict_get(I, o, k)
  k = S.norm(I, k)
  if isinstance(o, (AList, tuple)):
    if isinstance(k, Term):
      v = S.enumerate_values(I, k, 300)
      if v is None:
        raise U('symbolic index')
      k = v
    if isinstance(k, slice):
      r = list.__getitem__(o, k) if isinstance(o, AList) else o[k]
      return AList(r) if isinstance(o, AList) else r
    if isinstance(k, AObj) and k.cls.kind == 'intenum':
      k = k.attrs['value']
    if not isinstance(k, int):
      I.throw('TypeError', 'list indices must be integers or slices')
    try:
      return o[k]
    except IndexError as e:
      I.host_error(e)
  if isinstance(o, AObj):
    m = I.special(o, '__getitem__')
    if m is not None:
      return I.call(m, [k], {})
    if o.cls.kind == 'namedtuple':
      return getitem(I, tuple(o.attrs[f] for f in I.class_attr(o.cls, '_fields')), k)
  if isinstance(o, AClass):
    if o.kind in ENUMS:
      for m in enum_members(o):
        if I.eq(m.attrs['name'], k):
          return m
      I.throw('KeyError', k)
    m, _ = o.lookup('__class_getitem__')
    if m is not None:
      return I.call(m.fn if isinstance(m, ClassM) else m, [o, k], {})
    return o   # list[str] and the like
  if isinstance(o, (External, Builtin)):
    return o   # typing subscripts
  if isinstance(o, (bytes, range)):
    try:
      r = o[k]
      return r
    except Exception as e:
      I.host_error(e)
  I.throw('TypeError', "'%s' object is not subscriptable" % type_of(I, o).name)


def setitem(I, o, k, v):
  if isinstance(o, ADict):
    dict_set(I, o, k, v)
    return
  k = S.norm(I, k)
  if isinstance(o, AList):
    I.mut(o)
    if isinstance(k, slice):
      list.__setitem__(o, k, list(I.iterate(v)))
      return
    if isinstance(k, Term):
      k = S.enumerate_values(I, k, 300)
    if not isinstance(k, int):
      I.throw('TypeError', 'list indices must be integers or slices')
    try:
      list.__setitem__(o, k, v)
    except IndexError as e:
      I.host_error(e)
    return
  if isinstance(o, AObj):
    m = I.special(o, '__setitem__')
    if m is not None:
      I.call(m, [k, v], {})
      return
  if isinstance(o, External):
    I.event('external', o.name + '[...]=', I.where())
    return
  I.throw('TypeError', 'object does not support item assignment')


def delitem(I, o, k):
  k = I.force(k)
  if isinstance(o, ADict):
    f, kk = dict_key(I, o.d, k)
    if not f:
      I.throw('KeyError', k)
    I.mut(o)
    del o.d[kk]
    return
  if isinstance(o, AList):
    I.mut(o)
    try:
      list.__delitem__(o, k)
    except IndexError as e:
      I.host_error(e)
    return
  if isinstance(o, AObj):
    m = I.special(o, '__delitem__')
    if m is not None:
      I.call(m, [k], {})
      return
  I.throw('TypeError', 'object does not support item deletion')


# ------------------------------------------------------------------ operators

def binop(I, name, a, b):
  a, b = S.norm(I, a), S.norm(I, b)
  if isinstance(a, AObj) or isinstance(b, AObj):
    if isinstance(a, AObj):
      m = I.special(a, '__%s__' % name)
      if m is not None:
        r = I.call(m, [b], {})
        if r is not NotImpl:
          return r
    if isinstance(b, AObj):
      m = I.special(b, '__r%s__' % name)
      if m is not None:
        r = I.call(m, [a], {})
        if r is not NotImpl:
          return r
    for x, y in ((a, b), (b, a)):
      if isinstance(x, AObj) and x.cls.kind in ('strenum', 'intenum'):
        return I.binop(OPNODE[name], *( (x.attrs['value'], b) if x is a else (a, x.attrs['value'])))
    if isinstance(a, AObj) and a.cls.kind == 'namedtuple':
      return binop(I, name, tuple(iterate(I, a)), b)
    I.throw('TypeError', 'unsupported operand type(s)')
  sa, sb = isinstance(a, (str, SStr)), isinstance(b, (str, SStr))
  if name == 'mul' and (sa or sb):
    s, n = (a, b) if sa else (b, a)
    if isinstance(n, int):
      return mkstr(elems_of(s) * n)
    if isinstance(n, Term):
      v = S.enumerate_values(I, n, 300)
      if v is not None:
        return mkstr(elems_of(s) * v)
      raise U('text repeated a symbolic number of times')
    I.throw('TypeError', "can't multiply sequence by non-int")
  if sa or sb:
    I.throw('TypeError', 'unsupported operand type(s) for %s' % name)
  if isinstance(a, AList) or isinstance(b, AList):
    if name == 'add' and isinstance(a, AList) and isinstance(b, AList):
      return AList(list(a) + list(b))
    if name == 'mul':
      l, n = (a, b) if isinstance(a, AList) else (b, a)
      if isinstance(n, int):
        return AList(list(l) * n)
    I.throw('TypeError', 'unsupported operand type(s)')
  if isinstance(a, tuple) or isinstance(b, tuple):
    if name == 'add' and isinstance(a, tuple) and isinstance(b, tuple):
      return a + b
    if name == 'mul':
      l, n = (a, b) if isinstance(a, tuple) else (b, a)
      if isinstance(n, int):
        return l * n
    I.throw('TypeError', 'unsupported operand type(s)')
  if isinstance(a, ASet) or isinstance(b, ASet):
    a = keyset(I, a)
    b = keyset(I, b)
    if isinstance(a, ASet) and isinstance(b, ASet):
      if name == 'or':
        return make_set(I, list(a.items) + list(b.items), a.frozen)
      if name == 'and':
        return make_set(I, [x for x in a.items if contains(I, b, x)], a.frozen)
      if name == 'sub':
        return make_set(I, [x for x in a.items if not contains(I, b, x)], a.frozen)
      if name == 'xor':
        return make_set(I, [x for x in a.items if not contains(I, b, x)] + [x for x in b.items if not contains(I, a, x)], a.frozen)
    I.throw('TypeError', 'unsupported operand type(s)')
  if isinstance(a, ADict) and isinstance(b, ADict) and name == 'or':
    d = ADict(dict(a.d), a.factory, a.kind)
    dict_update(I, d, b)
    return d
  if name == 'or' and (isinstance(a, (AClass, External)) or isinstance(b, (AClass, External))):
    o = AObj(I.types['uniontype'])
    o.data = [x for y in (a, b) for x in (y.data if isinstance(y, AObj) else [y])]
    return o
  if isinstance(a, Term) or isinstance(b, Term):
    for x in (a, b):
      if not isinstance(x, (int, float, Term)):
        I.throw('TypeError', 'unsupported operand type(s)')
    if name in ('truediv', 'floordiv', 'mod'):
      if isinstance(b, Term):
        if not S.truth_term(I, b):
          I.throw('ZeroDivisionError', 'division by zero')
        b = S.norm(I, b)
      elif b == 0:
        I.throw('ZeroDivisionError', 'division by zero')
    if name == 'pow' and isinstance(b, Term):
      raise U('power')
    tys = [x.ty if isinstance(x, Term) else type(x).__name__ for x in (a, b)]
    ty = 'float' if name == 'truediv' or 'float' in tys else 'int'
    return Term(ty, name, (a, b))
  try:
    return S.FN[name](a, b) if name in S.FN else HOSTOP[name](a, b)
  except (TypeError, ZeroDivisionError, OverflowError, ValueError) as e:
    I.host_error(e)


HOSTOP = {'matmul': lambda a, b: a @ b}


class _OpNode(dict):
  pass


import ast as _ast
OPNODE = {'add': _ast.Add(), 'sub': _ast.Sub(), 'mul': _ast.Mult(), 'truediv': _ast.Div(), 'floordiv': _ast.FloorDiv(),
          'mod': _ast.Mod(), 'pow': _ast.Pow(), 'and': _ast.BitAnd(), 'or': _ast.BitOr(), 'xor': _ast.BitXor(),
          'lshift': _ast.LShift(), 'rshift': _ast.RShift()}


def keyset(I, x):
  if isinstance(x, BM):
    return x
  return x


# ------------------------------------------------------------------ attributes

DUNDER_OBJ = ('__class__', '__dict__', '__doc__', '__module__')


def getattr_(I, o, name):
  r = getattr_opt(I, o, name)
  if r is MISSING:
    nm = o.name if isinstance(o, (Module, AClass)) else type_of(I, o).name
    I.throw('AttributeError', "'%s' object has no attribute '%s'" % (nm, name))
  return r


MISSING = object()


def bind_attr(I, v, o, cls):
  if isinstance(v, (AFunc, Builtin)):
    return Bound(v, o)
  if isinstance(v, StaticM):
    return v.fn
  if isinstance(v, ClassM):
    return Bound(v.fn, o.cls if isinstance(o, AObj) else o)
  if isinstance(v, Prop):
    r = I.call(v.fget, [o], {})
    if v.cached:
      pass
    return r
  if isinstance(v, AObj) and v.cls.name in ('lru',):
    return Bound(v, o)
  if isinstance(v, AObj):
    g, _ = v.cls.lookup('__get__')
    if isinstance(g, AFunc):
      return I.call(Bound(g, v), [o, o.cls], {})
  return v


def getattr_opt(I, o, name):
  if isinstance(o, AObj):
    if name in o.attrs:
      c, _ = o.cls.lookup(name)
      if not isinstance(c, Prop) or c.cached:
        return o.attrs[name]
    v, c = o.cls.lookup(name)
    if c is not None:
      return bind_attr(I, v, o, c)
    if name == '__class__':
      return o.cls
    if name == '__dict__':
      d = ADict(o.attrs)
      d.birth = o.birth
      return d
    if name == '__doc__':
      return None
    g, _ = o.cls.lookup('__getattr__')
    if g is not None:
      return I.call(Bound(g, o), [name], {})
    if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__'):
      return Builtin(name, lambda I, a, k: {'__eq__': lambda: a[0] is o, '__ne__': lambda: a[0] is not o,
                                            '__hash__': lambda: id(o), '__repr__': lambda: S.repr_(I, o),
                                            '__str__': lambda: S.str_(I, o)}[name]())
    if name == '__setattr__':
      return Builtin(name, lambda I, a, k: setattr_(I, o, a[0], a[1]))
    return model_attr(I, o, name)
  if isinstance(o, Module):
    if name in o.vars:
      v = o.vars[name]
      if type(v) is Lost:
        raise U(v.why)
      return v
    if o.external:
      return external_attr(I, o, name)
    if name == '__dict__':
      d = ADict(o.vars)
      d.birth = o.birth
      return d
    g = o.vars.get('__getattr__')
    if g is not None:
      return I.call(g, [name], {})
    return MISSING
  if isinstance(o, AClass):
    v, c = o.lookup(name)
    if c is not None:
      if isinstance(v, StaticM):
        return v.fn
      if isinstance(v, ClassM):
        return Bound(v.fn, o)
      return v
    if name == '__name__' or name == '__qualname__':
      return o.name
    if name == '__mro__':
      return tuple(o.mro)
    if name == '__dict__':
      return ADict(dict(o.attrs))
    if name == '__module__':
      return o.module.name if o.module else 'builtins'
    if name == '__doc__':
      return None
    if name == '__bases__':
      return o.bases
    if name == '__class__':
      return I.types['type']
    if name == '__members__' and o.kind in ENUMS:
      return ADict({m.attrs['name']: m for m in enum_members(o)})
    if name in ('__init__', '__new__', '__setattr__', '__eq__', '__repr__', '__str__', '__init_subclass__', '__getattribute__') and \
        (o.host is None or o.host is object):
      return object_method(I, name)
    if o.host is not None:
      if o.host is str and name == 'maketrans':
        return Builtin('maketrans', lambda I, a, k: ('maketrans',) + tuple(a))
      if o.host is dict and name == 'fromkeys':
        def fromkeys(I, a, k):
          d = ADict()
          for x in I.iterate(a[0]):
            dict_set(I, d, x, a[1] if len(a) > 1 else None)
          return d
        return Builtin('fromkeys', fromkeys)
      if hasattr(o.host, name):
        return Builtin('%s.%s' % (o.name, name), lambda I, a, k: call_method(I, BM(name, a[0]), a[1:], k))
    return MISSING
  if isinstance(o, SuperObj):
    obj_cls = o.obj.cls if isinstance(o.obj, AObj) else o.obj
    mro = obj_cls.mro
    i = mro.index(o.cls)
    for c in mro[i + 1:]:
      if name in c.attrs:
        v = c.attrs[name]
        if isinstance(v, (AFunc, Builtin)):
          return Bound(v, o.obj)
        if isinstance(v, StaticM):
          return v.fn
        if isinstance(v, ClassM):
          return Bound(v.fn, obj_cls)
        if isinstance(v, Prop):
          return I.call(v.fget, [o.obj], {})
        return v
    if name == '__init__' and isinstance(o.obj, AObj):
      return Builtin('object.__init__', lambda I, a, k: None)
    if name in ('__init_subclass__',):
      return Builtin('object.' + name, lambda I, a, k: None)
    if name == '__new__':
      return Builtin('object.__new__', lambda I, a, k: alloc(I, a[0]))
    if name == '__setattr__':
      return Builtin('object.__setattr__', lambda I, a, k: setattr_raw(I, o.obj, a[0], a[1]))
    if name in ('__repr__', '__str__'):
      return Builtin(name, lambda I, a, k: '<%s object>' % obj_cls.name)
    if isinstance(o.obj, ADict) or isinstance(o.obj, AList):
      return BM(name, o.obj)
    return MISSING
  if isinstance(o, (AFunc, Builtin)):
    if name in o.attrs:
      return o.attrs[name]
    if name in ('__name__', '__qualname__'):
      return o.name
    if name == '__doc__':
      if isinstance(o, AFunc) and not isinstance(o.node, _ast.Lambda):
        return _ast.get_docstring(o.node)
      return None
    if name == '__module__':
      return o.module.name if isinstance(o, AFunc) else 'builtins'
    if name == '__dict__':
      return ADict(dict(o.attrs))
    if name == '__wrapped__':
      return MISSING
    if name == '__call__':
      return o
    if isinstance(o, AFunc) and name == '__get__':
      return Builtin('__get__', lambda I, a, k: Bound(o, a[0]) if a[0] is not None else o)
    if isinstance(o, Builtin) and o.name in ('chain',) and name == 'from_iterable':
      return Builtin('from_iterable', lambda I, a, k: AIter(x for s in I.iterate(a[0]) for x in I.iterate(s)))
    return MISSING
  if isinstance(o, Bound):
    if name == '__self__':
      return o.self
    if name == '__func__':
      return o.func
    return getattr_opt(I, o.func, name)
  if isinstance(o, External):
    return External(o.name + '.' + name)
  if isinstance(o, Prop):
    if name == 'setter':
      return Builtin('setter', lambda I, a, k: Prop(o.fget, a[0]))
    if name == 'getter':
      return Builtin('getter', lambda I, a, k: Prop(a[0], o.fset))
    if name == 'deleter':
      return Builtin('deleter', lambda I, a, k: o)
    return MISSING
  if isinstance(o, Partial):
    return {'func': o.fn, 'args': tuple(o.args), 'keywords': ADict(dict(o.kwargs))}.get(name, MISSING)
  if isinstance(o, slice):
    return getattr(o, name)
  if name == '__class__':
    return type_of(I, o)
  if name == '__doc__':
    return None
  if isinstance(o, ADict):
    if o.kind == 'defaultdict' and name == 'default_factory':
      return o.factory
    if name in DICT_METHODS or hasattr(dict, name):
      return BM(name, o)
    return MISSING
  if isinstance(o, AList):
    if name in ('appendleft', 'popleft', 'extendleft', 'rotate'):
      return BM(name, o)
    return BM(name, o) if hasattr(list, name) else MISSING
  if isinstance(o, ASet):
    return BM(name, o) if hasattr(set, name) else MISSING
  if isinstance(o, (str, SStr)):
    return BM(name, o) if hasattr(str, name) else MISSING
  if isinstance(o, Union):
    return BM(name, o)
  if isinstance(o, tuple):
    return BM(name, o) if hasattr(tuple, name) else MISSING
  if isinstance(o, AIter):
    return BM(name, o) if name in ('send', 'close', 'throw', '__next__', '__iter__') else MISSING
  if isinstance(o, Term):
    return BM(name, o) if hasattr(float if o.ty == 'float' else int, name) else MISSING
  if isinstance(o, (bool, int, float, bytes, range)):
    h = getattr(o, name, MISSING)
    if h is MISSING:
      return MISSING
    if callable(h):
      return BM(name, o)
    return h
  if o is None:
    return MISSING if not hasattr(None, name) else BM(name, o)
  if isinstance(o, BM):
    if name == '__name__':
      return o.name
    if name == '__self__':
      return o.obj
    return MISSING
  raise U('attribute %s of %r' % (name, o))


def object_method(I, name):
  if name == '__init__':
    return Builtin('object.__init__', lambda I, a, k: None)
  if name == '__new__':
    return Builtin('object.__new__', lambda I, a, k: alloc(I, a[0]))
  if name == '__setattr__':
    return Builtin('object.__setattr__', lambda I, a, k: setattr_raw(I, a[0], a[1], a[2]))
  if name == '__eq__':
    return Builtin('object.__eq__', lambda I, a, k: a[0] is a[1])
  if name == '__getattribute__':
    return Builtin('object.__getattribute__', lambda I, a, k: getattr_(I, a[0], a[1]))
  if name == '__init_subclass__':
    return Builtin('x', lambda I, a, k: None)
  return Builtin('object.' + name, lambda I, a, k: '<%s object>' % a[0].cls.name)


def hasattr_(I, o, name):
  from .interp import Throw
  if isinstance(o, Union):
    o = I.force(o)
  I.ctx.try_depth += 1
  try:
    return getattr_opt(I, o, name) is not MISSING
  except Throw as t:
    if I.exc_classes['AttributeError'] in t.exc.cls.mro:
      return False
    raise
  finally:
    I.ctx.try_depth -= 1


def setattr_raw(I, o, name, v):
  I.mut(o)
  o.attrs[name] = v


def setattr_(I, o, name, v):
  if isinstance(o, AObj):
    c, owner = o.cls.lookup(name)
    if isinstance(c, Prop) and not c.cached:
      if c.fset is None:
        I.throw('AttributeError', "can't set attribute '%s'" % name)
      I.call(c.fset, [o, v], {})
      return
    sa, _ = o.cls.lookup('__setattr__')
    if isinstance(sa, AFunc):
      I.call(Bound(sa, o), [name, v], {})
      return
    if o.cls.lookup('__frozen__')[0] or o.cls.kind in ('namedtuple',):
      I.throw('AttributeError', "cannot assign to field '%s'" % name)
    slots, _ = o.cls.lookup('__slots__')
    if slots is not None and not o.cls.name == 'PrettyTable':
      names = set()
      restricted = True
      for k in o.cls.mro:
        s = k.attrs.get('__slots__')
        if s is not None:
          names |= {s} if isinstance(s, str) else set(s)
        elif k.name != 'object':
          restricted = False
      if restricted and name not in names:
        I.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
    I.mut(o)
    model_setattr(I, o, name, v)
    o.attrs[name] = v
    return
  if isinstance(o, (AClass, AFunc)):
    I.mut(o)
    o.attrs[name] = v
    return
  if isinstance(o, Module):
    I.mut(o)
    if o.external:
      I.event('external', '%s.%s = ...' % (o.name, name), I.where())
    o.vars[name] = v
    return
  if isinstance(o, External):
    I.event('external', '%s.%s = ...' % (o.name, name), I.where())
    return
  if isinstance(o, ADict) and o.kind == 'defaultdict' and name == 'default_factory':
    I.mut(o)
    o.factory = v
    return
  if isinstance(o, Builtin):
    o.attrs[name] = v
    return
  I.throw('AttributeError', "'%s' object has no attribute '%s'" % (type_of(I, o).name, name))


def delattr_(I, o, name):
  if isinstance(o, (AObj, AClass)):
    if name not in o.attrs:
      I.throw('AttributeError', name)
    I.mut(o)
    del o.attrs[name]
    return
  raise U('delattr')


# ------------------------------------------------------------------ construction

def alloc(I, cls):
  o = AObj(cls)
  o.site = I.where()
  for c in cls.mro:
    if c.host is dict and c.host is not object:
      raise U('subclass of dict')
  if I.exc_classes['BaseException'] in cls.mro:
    o.attrs['args'] = ()
  ini = MODEL_ALLOC.get(cls.name)
  if ini is not None:
    ini(I, o)
  else:
    for c in cls.mro[1:]:
      if c.name in MODEL_ALLOC and c.module is None:
        MODEL_ALLOC[c.name](I, o)
        break
  return o


def default_init(I, o, args, kwargs):
  cls = o.cls
  I.throw('TypeError', '%s() takes no arguments' % cls.name)


def construct(I, cls, args, kwargs):
  """call of a builtin type"""
  h = cls.host
  name = cls.name
  if cls.module is not None:      # subclass of a builtin type defined in the package
    raise U('subclass of builtin type ' + name)
  a0 = args[0] if args else None
  if h is str:
    if not args:
      return ''
    if len(args) > 1 or kwargs:
      a = I.force(a0)
      if isinstance(a, bytes):
        return a.decode(*[x for x in args[1:]])
      raise U('str() with encoding')
    return S.str_(I, a0)
  if h is int:
    if not args:
      return 0
    base = args[1] if len(args) > 1 else kwargs.get('base')
    return S.to_number(I, a0, 'int', base)
  if h is float:
    if not args:
      return 0.0
    return S.to_number(I, a0, 'float')
  if h is bool:
    if not args:
      return False
    return I.lift(I.truth, a0) if isinstance(a0, Union) else I.truth(a0)
  if h is list:
    return AList(list(I.iterate(a0)) if args else [])
  if h is tuple:
    return tuple(I.iterate(a0)) if args else ()
  if h is dict:
    d = ADict(kind='OrderedDict' if name == 'OrderedDict' else 'dict')
    dict_update(I, d, a0 if args else None, kwargs)
    return d
  if h is set or h is frozenset:
    return make_set(I, list(I.iterate(a0)) if args else [], h is frozenset)
  if h is range:
    vals = []
    for a in args:
      a = S.norm(I, I.force(a))
      if isinstance(a, Term):
        v = S.enumerate_values(I, a, 300)
        if v is None:
          raise U('symbolic range')
        a = v
      if not isinstance(a, int):
        I.throw('TypeError', 'range() needs integers')
      vals.append(a)
    try:
      return range(*vals)
    except (ValueError, TypeError) as e:
      I.host_error(e)
  if h is type:
    if len(args) == 1:
      v = I.force(a0)
      return type_of(I, v)
    nm, bases, ns = args
    c = AClass(nm, tuple(bases) or (I.types['object'],), dict(ns.d), module=I.mod)
    return c
  if h is object:
    return AObj(cls)
  if h is slice:
    return slice(*args)
  if h is bytes:
    try:
      return bytes(*[tuple(a) if isinstance(a, AList) else a for a in args], **kwargs)
    except Exception as e:
      I.host_error(e)
  if name in BUILTINS:
    return BUILTINS[name](I, args, kwargs)
  raise U('construction of ' + name)


def base_class(I, v):
  if isinstance(v, External):
    n = v.name.split('.')[-1]
    if n in I.types:
      return I.types[n]
    return None
  if isinstance(v, Builtin) and v.name in I.types:
    return I.types[v.name]
  return None


ENUMS = ('enum', 'strenum', 'intenum')


def enum_members(cls):
  return cls.attrs['@members']


def enum_lookup(I, cls, v):
  v = I.force(v)
  if isinstance(v, AObj) and v.cls is cls:
    return v
  for m in enum_members(cls):
    if I.eq(m.attrs['value'], v):
      return m
  missing, _ = cls.lookup('_missing_')
  if missing is not None:
    r = I.call(missing.fn if isinstance(missing, ClassM) else missing, [cls, v], {})
    if r is not None:
      return r
  I.throw('ValueError', S.concat(I, [S.repr_(I, v), ' is not a valid %s' % cls.name]))


def finish_class(I, cls, node, keywords):
  for b in cls.bases:
    if b.kind in ENUMS:
      cls.kind = b.kind
    elif b.kind == 'namedtuple_base':
      make_namedtuple_class(I, cls, [k for k in cls.attrs['__annotations__']],
                            {k: cls.attrs[k] for k in cls.attrs['__annotations__'] if k in cls.attrs})
      cls.bases = (I.types['object'],)
      cls.mro = [cls, I.types['object']]
    elif b.kind == 'namedtuple':
      cls.kind = 'namedtuple'
    elif b.kind == 'dataclass':
      cls.kind = 'dataclass'
  if cls.kind in ENUMS:
    if any(b.host is str for b in cls.mro):
      cls.kind = 'strenum'
    elif any(b.host is int for b in cls.mro):
      cls.kind = 'intenum'
    members = []
    n = 0
    for k, v in list(cls.attrs.items()):
      if k.startswith('_') or isinstance(v, (AFunc, Prop, StaticM, ClassM, Builtin)) or k == '@members':
        continue
      if isinstance(v, AObj) and v.cls.name == 'auto':
        n += 1
        v = k.lower() if cls.kind == 'strenum' else n
      elif isinstance(v, int):
        n = v
      dup = [m for m in members if m.attrs['value'] == v]
      if dup:
        cls.attrs[k] = dup[0]
        continue
      m = AObj(cls)
      m.attrs.update({'name': k, 'value': v, '_name_': k, '_value_': v})
      members.append(m)
      cls.attrs[k] = m
      init, owner = cls.lookup('__init__')
      if isinstance(init, AFunc):
        I.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v], {})
    cls.attrs['@members'] = members
  sub, owner = None, None
  for c in cls.mro[1:]:
    if '__init_subclass__' in c.attrs:
      sub = c.attrs['__init_subclass__']
      break
  if sub is not None:
    fn = sub.fn if isinstance(sub, ClassM) else sub
    I.call(fn, [cls], keywords)
  for k, v in list(cls.attrs.items()):
    if isinstance(v, AObj):
      g, _ = v.cls.lookup('__set_name__')
      if g is not None:
        I.call(Bound(g, v), [cls, k], {})


def make_namedtuple_class(I, cls, fields, defaults):
  cls.kind = 'namedtuple'
  cls.attrs['_fields'] = tuple(fields)
  cls.attrs['__match_args__'] = tuple(fields)
  for k in fields:
    cls.attrs.pop(k, None)

  def new(I, args, kwargs):
    c = args[0]
    vals = args[1:]
    o = AObj(c)
    o.site = I.where()
    if len(vals) > len(fields):
      I.throw('TypeError', 'too many arguments')
    for i, f in enumerate(fields):
      if i < len(vals):
        o.attrs[f] = vals[i]
      elif f in kwargs:
        o.attrs[f] = kwargs[f]
      elif f in defaults:
        o.attrs[f] = defaults[f]
      else:
        I.throw('TypeError', "missing argument '%s'" % f)
    for k in kwargs:
      if k not in fields:
        I.throw('TypeError', "unexpected keyword argument '%s'" % k)
    return o
  cls.attrs['__new__'] = StaticM(Builtin('__new__', new))
  cls.attrs['__init__'] = Builtin('__init__', lambda I, a, k: None)
  cls.attrs['_asdict'] = Builtin('_asdict', lambda I, a, k: ADict({f: a[0].attrs[f] for f in fields}))
  cls.attrs['__len__'] = Builtin('__len__', lambda I, a, k: len(fields))

  def repl(I, a, k):
    return I.call(a[0].cls, [k.get(f, a[0].attrs[f]) for f in fields], {})
  cls.attrs['_replace'] = Builtin('_replace', repl)
  cls.attrs['_make'] = ClassM(Builtin('_make', lambda I, a, k: I.call(a[0], list(I.iterate(a[1])), {})))


def obj_equal(I, a, b):
  if a.cls.kind == 'namedtuple' and b.cls.kind == 'namedtuple':
    return S.equal(I, tuple(iterate(I, a)), tuple(iterate(I, b)))
  if a.cls.name == 'PosixPath' and b.cls.name == 'PosixPath':
    return S.equal(I, a.data, b.data)
  return False


def obj_str(I, v):
  c = v.cls
  m, owner = c.lookup('__str__')
  if isinstance(m, (AFunc, Builtin)):
    return I.call(Bound(m, v), [], {})
  if c.kind == 'strenum':
    return v.attrs['value'] if any(k.name == 'StrEnum' for k in c.mro) else '%s.%s' % (c.name, v.attrs['name'])
  if c.kind == 'intenum':
    return str(v.attrs['value'])
  if c.kind == 'enum':
    return '%s.%s' % (c.name, v.attrs['name'])
  if I.exc_classes['BaseException'] in c.mro:
    a = v.attrs.get('args', ())
    if not a:
      return ''
    if len(a) == 1:
      return S.repr_(I, a[0]) if I.exc_classes['KeyError'] in c.mro else S.str_(I, a[0])
    return S.repr_(I, a)
  f = MODEL_STR.get(c.name)
  if f is None:
    for k in c.mro:
      if k.name in MODEL_STR and k.module is None:
        f = MODEL_STR[k.name]
        break
  if f is not None:
    return f(I, v)
  return None


def obj_repr(I, v):
  m, owner = v.cls.lookup('__repr__')
  if isinstance(m, (AFunc, Builtin)):
    return I.call(Bound(m, v), [], {})
  c = v.cls
  if c.kind == 'namedtuple':
    out = [c.name + '(']
    for i, f in enumerate(I.class_attr(c, '_fields')):
      out += [', ' if i else '', f + '=', S.repr_(I, v.attrs[f])]
    return S.concat(I, out + [')'])
  if c.kind in ENUMS:
    return S.concat(I, ['<%s.%s: ' % (c.name, v.attrs['name']), S.repr_(I, v.attrs['value']), '>'])
  if I.exc_classes['BaseException'] in c.mro:
    a = v.attrs.get('args', ())
    if len(a) == 1:
      return S.concat(I, [c.name + '(', S.repr_(I, a[0]), ')'])
    return S.concat(I, [c.name, S.repr_(I, tuple(a))])
  if c.name in MODEL_STR:
    return MODEL_STR[c.name](I, v)
  return None


# ------------------------------------------------------------------ methods of builtin values

def call_method(I, bm, args, kwargs):
  o, name = bm.obj, bm.name
  if isinstance(o, Union):
    if any(isinstance(a, (AIter,)) for a in args):
      return call_method(I, BM(name, I.force(o)), args, kwargs)
    keys = list(kwargs)

    def go(x, *rest):
      return call_method(I, BM(name, x), list(rest[:len(args)]), dict(zip(keys, rest[len(args):])))
    return I.lift(go, o, *(list(args) + [kwargs[k] for k in keys]))
  if isinstance(o, (str, SStr)):
    if name not in ('join', 'format', 'format_map'):
      if any(isinstance(a, Union) for a in args):
        return I.lift(lambda *a: S.method(I, o, name, list(a), kwargs), *args)
    return S.method(I, o, name, list(args), kwargs)
  if isinstance(o, ADict):
    return dict_method(I, o, name, list(args), kwargs)
  if isinstance(o, AList):
    return list_method(I, o, name, list(args), kwargs)
  if isinstance(o, ASet):
    return set_method(I, o, name, list(args), kwargs)
  if isinstance(o, tuple):
    if name == 'index':
      for i, x in enumerate(o):
        if I.eq(x, args[0]):
          return i
      I.throw('ValueError', 'tuple.index(x): x not in tuple')
    if name == 'count':
      return sum(1 for x in o if I.eq(x, args[0]))
    if name == '__contains__':
      return contains(I, o, args[0])
    if name == '__getitem__':
      return getitem(I, o, args[0])
    if name == '__len__':
      return len(o)
    if name == '__iter__':
      return AIter(iter(o))
    if name == '__add__':
      return o + args[0]
  if isinstance(o, AIter):
    return iter_method(I, o, name, args)
  if isinstance(o, Term):
    if name == 'is_integer':
      return S.decide_term(I, Term('bool', 'eq', (Term('float', 'mod', (o, 1)), 0)))
    if name in ('__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__', '__mod__'):
      return binop(I, name.strip('_'), o, args[0])
    if name == '__format__':
      return S.format_(I, o, args[0])
    if name in ('__str__', '__repr__'):
      return S.str_(I, o)
    raise U('method %s of a symbolic number' % name)
  if o is None or isinstance(o, (bool, int, float, bytes, range)):
    args = [S.norm(I, I.force(a)) for a in args]
    if any(isinstance(a, (Term, SStr)) for a in args):
      if name.startswith('__') and name.strip('_') in S.FN:
        nm = name.strip('_')
        if nm in ('lt', 'le', 'gt', 'ge'):
          return S.order(I, nm, o, args[0])
        if nm == 'eq':
          return I.eq(o, args[0])
        return binop(I, nm, o, args[0])
      raise U('method %s with a symbolic argument' % name)
    try:
      r = getattr(o, name)(*args, **kwargs)
    except Exception as e:
      I.host_error(e)
    if r is NotImplemented:
      return NotImpl
    return r
  raise U('method %s' % name)


DICT_METHODS = ('get', 'keys', 'values', 'items', 'pop', 'update', 'setdefault', 'copy', 'clear', 'popitem', 'move_to_end',
                'most_common', '__contains__', '__getitem__', '__setitem__', '__len__', '__iter__', 'elements')


def dict_method(I, d, name, args, kwargs):
  args = [I.force(a) if i == 0 else a for i, a in enumerate(args)]
  if name in ('get', '__getitem__', 'setdefault', 'pop'):
    if name == '__getitem__':
      return dict_get(I, d, args[0])
    f, k = dict_key(I, d.d, args[0])
    default = args[1] if len(args) > 1 else kwargs.get('default')
    if name == 'get':
      return d.d[k] if f else default
    if name == 'setdefault':
      if f:
        return d.d[k]
      I.mut(d)
      d.d[k] = default
      return default
    if f:
      I.mut(d)
      return d.d.pop(k)
    if len(args) > 1:
      return default
    I.throw('KeyError', k)
  if name == 'keys':
    return AList(d.d) if not d.d else make_view(d, 'keys')
  if name == 'values':
    return make_view(d, 'values')
  if name == 'items':
    return make_view(d, 'items')
  if name == 'update':
    dict_update(I, d, args[0] if args else None, kwargs)
    return None
  if name == 'copy' or name == '__copy__':
    r = ADict(dict(d.d), d.factory, d.kind)
    return r
  if name == 'clear':
    I.mut(d)
    d.d.clear()
    return None
  if name == 'popitem':
    if not d.d:
      I.throw('KeyError', 'popitem(): dictionary is empty')
    I.mut(d)
    last = kwargs.get('last', args[0] if args else True)
    k = list(d.d)[-1 if last else 0]
    return (k, d.d.pop(k))
  if name == '__contains__':
    return contains(I, d, args[0])
  if name == '__setitem__':
    dict_set(I, d, args[0], args[1])
    return None
  if name == '__delitem__':
    delitem(I, d, args[0])
    return None
  if name == '__len__':
    return len(d.d)
  if name == '__iter__':
    return AIter(iter(list(d.d)))
  if name == '__eq__':
    return S.equal(I, d, args[0])
  if name == 'most_common':
    items = sorted(d.d.items(), key=lambda kv: -kv[1])
    return AList(items[:args[0]] if args else items)
  if name == 'move_to_end':
    I.mut(d)
    v = d.d.pop(args[0])
    d.d[args[0]] = v
    return None
  raise U('dict.' + name)


def make_view(d, kind):
  v = AList(d.d if kind == 'keys' else d.d.values() if kind == 'values' else list(d.d.items()))
  return v


def list_method(I, l, name, args, kwargs):
  if name == 'append':
    I.mut(l)
    list.append(l, args[0])
    return None
  if name == 'extend' or name == '__iadd__':
    items = list(I.iterate(args[0]))
    I.mut(l)
    list.extend(l, items)
    return None if name == 'extend' else l
  if name == 'insert':
    I.mut(l)
    list.insert(l, I.force(args[0]), args[1])
    return None
  if name in ('pop', 'popleft'):
    I.mut(l)
    i = 0 if name == 'popleft' else I.force(args[0]) if args else -1
    try:
      return list.pop(l, i)
    except IndexError as e:
      I.host_error(e)
  if name == 'appendleft':
    I.mut(l)
    list.insert(l, 0, args[0])
    return None
  if name == 'remove':
    for i, x in enumerate(l):
      if I.eq(x, args[0]):
        I.mut(l)
        list.pop(l, i)
        return None
    I.throw('ValueError', 'list.remove(x): x not in list')
  if name == 'clear':
    I.mut(l)
    list.clear(l)
    return None
  if name == 'copy':
    return AList(l)
  if name == 'reverse':
    I.mut(l)
    list.reverse(l)
    return None
  if name == 'sort':
    r = sort_items(I, list(l), kwargs.get('key'), kwargs.get('reverse', False))
    I.mut(l)
    list.__setitem__(l, slice(None), r)
    return None
  if name == 'index':
    for i, x in enumerate(l):
      if I.eq(x, args[0]):
        return i
    I.throw('ValueError', 'is not in list')
  if name == 'count':
    return sum(1 for x in l if I.eq(x, args[0]))
  if name == '__contains__':
    return contains(I, l, args[0])
  if name == '__getitem__':
    return getitem(I, l, I.force(args[0]))
  if name == '__setitem__':
    setitem(I, l, I.force(args[0]), args[1])
    return None
  if name == '__len__':
    return len(l)
  if name == '__iter__':
    return AIter(list_iter(l))
  if name == '__add__':
    return AList(list(l) + list(args[0]))
  if name == '__eq__':
    return S.equal(I, l, args[0])
  if name == 'rotate':
    I.mut(l)
    n = args[0] if args else 1
    if l:
      n %= len(l)
      list.__setitem__(l, slice(None), list(l[-n:]) + list(l[:-n]))
    return None
  raise U('list.' + name)


def set_method(I, s, name, args, kwargs):
  if name == 'add':
    f, k = dict_key(I, s.items, args[0])
    if not f:
      I.mut(s)
      s.items[k] = None
    return None
  if name in ('discard', 'remove'):
    f, k = dict_key(I, s.items, args[0])
    if f:
      I.mut(s)
      del s.items[k]
    elif name == 'remove':
      I.throw('KeyError', args[0])
    return None
  if name == 'clear':
    I.mut(s)
    s.items.clear()
    return None
  if name == 'copy':
    return ASet(s.items, s.frozen)
  if name == 'update':
    I.mut(s)
    for a in args:
      for x in I.iterate(a):
        set_add(I, s, x)
    return None
  if name == 'pop':
    if not s.items:
      I.throw('KeyError', 'pop from an empty set')
    I.mut(s)
    k = next(iter(s.items))
    del s.items[k]
    return k
  if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
    op = {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'symmetric_difference': 'xor'}[name]
    r = s
    for a in args:
      r = binop(I, op, r, a if isinstance(a, ASet) else make_set(I, list(I.iterate(a))))
    return r
  if name in ('issubset', 'issuperset', 'isdisjoint'):
    o = args[0] if isinstance(args[0], ASet) else make_set(I, list(I.iterate(args[0])))
    if name == 'issubset':
      return all(contains(I, o, x) for x in s.items)
    if name == 'issuperset':
      return all(contains(I, s, x) for x in o.items)
    return not any(contains(I, o, x) for x in s.items)
  if name == '__contains__':
    return contains(I, s, args[0])
  if name == '__len__':
    return len(s.items)
  if name == '__iter__':
    return AIter(iter(list(s.items)))
  raise U('set.' + name)


def iter_method(I, it, name, args):
  if name == '__iter__':
    return it
  if name == '__next__':
    return BUILTINS['next'](I, [it], {})
  if name == 'close':
    I.mut(it)
    it.it.close()
    return None
  if name == 'send':
    I.mut(it)
    try:
      return it.it.send(args[0])
    except StopIteration:
      I.throw('StopIteration')
  raise U('generator.' + name)


def sort_items(I, items, key, reverse):
  import functools
  keys = [I.call(key, [x], {}) if key is not None else x for x in items]
  keys = [S.norm(I, I.force(k)) for k in keys]
  if I.truth(I.force(reverse)):
    rev = True
  else:
    rev = False
  if any(has_tok(k) for k in keys):
    return items      # names are arbitrary: any order may come out

  def cmp(i, j):
    if I.truth(S.order(I, 'lt', keys[i], keys[j])):
      return -1
    if I.truth(S.order(I, 'lt', keys[j], keys[i])):
      return 1
    return 0
  idx = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=rev)
  return [items[i] for i in idx]


def has_tok(v):
  if isinstance(v, SStr):
    return any(isinstance(e, Term) and has_tok(e) for e in v.elems)
  if isinstance(v, Term):
    return v.fn == 'tok' or any(has_tok(a) for a in v.args)
  if isinstance(v, tuple):
    return any(has_tok(x) for x in v)
  if isinstance(v, AObj):
    return True
  return False


# ------------------------------------------------------------------ builtins

def b_print(I, args, kwargs):
  sep = kwargs.get('sep', ' ')
  end = kwargs.get('end', '\n')
  sep = ' ' if sep is None else I.force(sep)
  end = '\n' if end is None else I.force(end)
  f = kwargs.get('file')
  parts = []
  for i, a in enumerate(args):
    if i:
      parts.append(sep)
    parts.append(S.str_(I, a))
  text = S.concat(I, parts)
  emit(I, f, text, end)


def emit(I, f, text, end):
  f = I.force(f)
  if f is None:
    if I.stdout_stack:
      f = I.stdout_stack[-1]
    else:
      I.event('print', text, end, I.where())
      return
  if isinstance(f, AObj) and f.cls.name == 'stdstream':
    if f.data == 'stdout' and I.stdout_stack:
      f = I.stdout_stack[-1]
    else:
      I.event('print' if f.data == 'stdout' else 'stderr', text, end, I.where())
      return
  w = getattr_(I, f, 'write')
  I.call(w, [S.concat(I, [text, end])], {})


def b_len(I, args, kwargs):
  v = args[0]

  def one(v):
    if isinstance(v, (str, SStr)):
      return S.length(I, v)
    if isinstance(v, (tuple, AList, range, bytes)):
      return len(v)
    if isinstance(v, ADict):
      return len(v.d)
    if isinstance(v, ASet):
      return len(v.items)
    if isinstance(v, AObj):
      m = I.special(v, '__len__')
      if m is not None:
        return I.call(m, [], {})
    if isinstance(v, AClass) and v.kind in ENUMS:
      return len(enum_members(v))
    I.throw('TypeError', "object of type '%s' has no len()" % type_of(I, v).name)
  return I.lift(one, v)


def b_enumerate(I, args, kwargs):
  start = args[1] if len(args) > 1 else kwargs.get('start', 0)
  it = I.iterate(args[0])

  def g():
    i = start
    for x in it:
      yield (i, x)
      i = i + 1 if isinstance(i, int) else binop(I, 'add', i, 1)
  return AIter(g())


def b_zip(I, args, kwargs):
  its = [I.iterate(a) for a in args]
  strict = I.truth(kwargs.get('strict', False))

  def g():
    while its:
      row = []
      for n, it in enumerate(its):
        try:
          row.append(next(it))
        except StopIteration:
          if strict:
            if n > 0 or any(_has(i) for i in its[1:]):
              I.throw('ValueError', 'zip() argument lengths differ')
          return
      yield tuple(row)
  return AIter(g())


def _has(it):
  try:
    next(it)
    return True
  except StopIteration:
    return False


def b_map(I, args, kwargs):
  its = [I.iterate(a) for a in args[1:]]

  def g():
    if len(its) == 1:
      for x in its[0]:
        yield I.call(args[0], [x], {})
    else:
      for xs in zip(*its):
        yield I.call(args[0], list(xs), {})
  return AIter(g())


def b_filter(I, args, kwargs):
  it = I.iterate(args[1])

  def g():
    for x in it:
      if I.truth(I.call(args[0], [x], {}) if args[0] is not None else x):
        yield x
  return AIter(g())


def b_sorted(I, args, kwargs):
  return AList(sort_items(I, list(I.iterate(args[0])), kwargs.get('key'), kwargs.get('reverse', False)))


def b_reversed(I, args, kwargs):
  v = I.force(args[0])
  if isinstance(v, AObj):
    m = I.special(v, '__reversed__')
    if m is not None:
      return I.call(m, [], {})
  return AIter(iter(list(I.iterate(v))[::-1]))


def b_any(I, args, kwargs):
  for x in I.iterate(args[0]):
    if I.truth(x):
      return True
  return False


def b_all(I, args, kwargs):
  for x in I.iterate(args[0]):
    if not I.truth(x):
      return False
  return True


def b_sum(I, args, kwargs):
  acc = args[1] if len(args) > 1 else kwargs.get('start', 0)
  for x in I.iterate(args[0]):
    acc = I.binop(OPNODE['add'], acc, x)
  return acc


def b_minmax(name):
  def h(I, args, kwargs):
    items = list(I.iterate(args[0])) if len(args) == 1 else list(args)
    key = kwargs.get('key')
    if not items:
      if 'default' in kwargs:
        return kwargs['default']
      I.throw('ValueError', '%s() arg is an empty sequence' % name)
    best = I.force(items[0])
    bk = I.force(I.call(key, [best], {})) if key is not None else best
    for x in items[1:]:
      x = I.force(x)
      k = I.force(I.call(key, [x], {})) if key is not None else x
      if I.truth(S.order(I, 'lt' if name == 'min' else 'gt', k, bk)):
        best, bk = x, k
    return best
  return h


def b_num(name):
  def h(I, args, kwargs):
    def one(*a):
      a = [S.norm(I, x) for x in a]
      if any(isinstance(x, Term) for x in a):
        ty = a[0].ty if isinstance(a[0], Term) else 'int'
        if name == 'round' and len(a) == 1:
          ty = 'int'
        return Term(ty, name, tuple(a))
      try:
        import builtins
        return getattr(builtins, name)(*a)
      except Exception as e:
        I.host_error(e)
    return I.lift(one, *(list(args) + ([kwargs['ndigits']] if 'ndigits' in kwargs else [])))
  return h


def b_divmod(I, args, kwargs):
  return (I.binop(OPNODE['floordiv'], args[0], args[1]), I.binop(OPNODE['mod'], args[0], args[1]))


def b_isinstance(I, args, kwargs):
  if isinstance(args[0], Union):
    return I.lift(lambda v: isinstance_(I, v, args[1]), args[0])
  return isinstance_(I, args[0], args[1])


def b_issubclass(I, args, kwargs):
  a, b = I.force(args[0]), I.force(args[1])
  bs = b if isinstance(b, tuple) else (b,)
  return any(x in a.mro for x in bs)


def b_hasattr(I, args, kwargs):
  return hasattr_(I, args[0], I.force(args[1]))


def b_getattr(I, args, kwargs):
  from .interp import Throw
  name = S.norm(I, I.force(args[1]))
  if not isinstance(name, str):
    f = S.fix(I, name) if isinstance(name, SStr) else None
    raise U('getattr with a symbolic name')
  if len(args) < 3:
    return I.getattr(args[0], name)
  o = I.force(args[0])
  I.ctx.try_depth += 1
  try:
    r = getattr_opt(I, o, name)
  except Throw as t:
    if I.exc_classes['AttributeError'] in t.exc.cls.mro:
      return args[2]
    raise
  finally:
    I.ctx.try_depth -= 1
  return args[2] if r is MISSING else r


def b_setattr(I, args, kwargs):
  I.setattr(I.force(args[0]), S.norm(I, I.force(args[1])), args[2])


def b_delattr(I, args, kwargs):
  I.delattr(I.force(args[0]), S.norm(I, I.force(args[1])))


def b_callable(I, args, kwargs):
  v = I.force(args[0])
  return isinstance(v, (AFunc, Bound, Builtin, AClass, BM, Partial, External)) or \
      (isinstance(v, AObj) and I.special(v, '__call__') is not None)


def b_iter(I, args, kwargs):
  v = I.force(args[0])
  if len(args) == 2:
    def g():
      while True:
        x = I.call(v, [], {})
        if I.eq(x, args[1]):
          return
        yield x
    return AIter(g())
  if isinstance(v, AIter):
    return v
  if isinstance(v, AObj):
    m = I.special(v, '__iter__')
    if m is not None:
      return I.call(m, [], {})
  return AIter(I.iterate(v))


def b_next(I, args, kwargs):
  v = I.force(args[0])
  if isinstance(v, AIter):
    I.mut(v)
    try:
      return next(v.it)
    except StopIteration as s:
      if len(args) > 1:
        return args[1]
      I.throw('StopIteration')
  m = I.special(v, '__next__')
  if m is None:
    I.throw('TypeError', 'object is not an iterator')
  if len(args) > 1:
    from .interp import Throw
    I.ctx.try_depth += 1
    try:
      return I.call(m, [], {})
    except Throw as t:
      if I.exc_classes['StopIteration'] in t.exc.cls.mro:
        return args[1]
      raise
    finally:
      I.ctx.try_depth -= 1
  return I.call(m, [], {})


def b_ord(I, args, kwargs):
  def one(s):
    s = S.norm(I, s)
    if isinstance(s, str):
      try:
        return ord(s)
      except TypeError as e:
        I.host_error(e)
    f = s if isinstance(s, SStr) and s.fixed() else S.fix(I, s) if isinstance(s, SStr) else None
    if f is None or len(elems_of(f)) != 1:
      I.throw('TypeError', 'ord() expected a character')
    return Term('int', 'ord', (f,)) if isinstance(f, SStr) else ord(f)
  return I.lift(one, args[0])


def b_chr(I, args, kwargs):
  def one(n):
    n = S.norm(I, n)
    if isinstance(n, Term):
      v = S.enumerate_values(I, n, 200)
      if v is None:
        raise U('chr of a symbolic number')
      n = v
    try:
      return chr(n)
    except Exception as e:
      I.host_error(e)
  return I.lift(one, args[0])


def b_repr(I, args, kwargs):
  return S.repr_(I, args[0])


def b_format(I, args, kwargs):
  return S.format_(I, args[0], I.force(args[1]) if len(args) > 1 else '')


def b_property(I, args, kwargs):
  return Prop(args[0] if args else kwargs.get('fget'), args[1] if len(args) > 1 else kwargs.get('fset'))


def b_exit(I, args, kwargs):
  I.throw('SystemExit', *args)


def b_vars(I, args, kwargs):
  return getattr_(I, I.force(args[0]), '__dict__')


def b_open(I, args, kwargs):
  names = ('file', 'mode', 'buffering', 'encoding', 'errors', 'newline')
  p = dict(zip(names, args))
  p.update(kwargs)
  mode = I.force(p.get('mode', 'r'))
  return open_file(I, I.force(p['file']), mode, p)


def b_input(I, args, kwargs):
  I.event('external', 'input', I.where())
  raise U('input()')


def b_undecided(I, args, kwargs):
  raise U('a library function that is only partly modelled')


def b_import(I, args, kwargs):
  return I.load(args[0])


def unsupported(name):
  def h(I, args, kwargs):
    I.event('external', name, I.where())
    raise U(name + '()')
  return h


def b_hash(I, args, kwargs):
  v = I.force(args[0])
  if isinstance(v, SStr):
    return Term('int', 'hash', (v,))
  return hash(v) if not isinstance(v, AObj) else id(v)


def b_super(I, args, kwargs):
  return SuperObj(args[0], args[1])


def b_dir(I, args, kwargs):
  o = I.force(args[0])
  names = set(getattr(o, 'attrs', {}) or getattr(o, 'vars', {}))
  if isinstance(o, AObj):
    for c in o.cls.mro:
      names |= set(c.attrs)
  return AList(sorted(names))


BUILTINS = {
    'print': b_print, 'len': b_len, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'filter': b_filter,
    'sorted': b_sorted, 'reversed': b_reversed, 'any': b_any, 'all': b_all, 'sum': b_sum,
    'min': b_minmax('min'), 'max': b_minmax('max'), 'abs': b_num('abs'), 'round': b_num('round'), 'pow': b_num('pow'),
    'divmod': b_divmod, 'isinstance': b_isinstance, 'issubclass': b_issubclass, 'hasattr': b_hasattr,
    'getattr': b_getattr, 'setattr': b_setattr, 'delattr': b_delattr, 'callable': b_callable, 'iter': b_iter, 'next': b_next,
    'ord': b_ord, 'chr': b_chr, 'repr': b_repr, 'ascii': b_repr, 'format': b_format, 'property': b_property,
    'staticmethod': lambda I, a, k: StaticM(a[0]), 'classmethod': lambda I, a, k: ClassM(a[0]),
    'exit': b_exit, 'quit': b_exit, 'vars': b_vars, 'locals': b_vars, 'globals': b_vars, 'open': b_open, 'input': b_input,
    '_undecided': b_undecided, '__import__': b_import, 'eval': unsupported('eval'), 'exec': unsupported('exec'), 'compile': unsupported('compile'),
    'id': lambda I, a, k: id(a[0]), 'hash': b_hash, 'super': b_super, 'dir': b_dir, 'bin': b_num('bin'), 'hex': b_num('hex'),
    'oct': b_num('oct'), 'breakpoint': unsupported('breakpoint'),
}


from .libs import (install_classes, MODEL_ALLOC, MODEL_STR, model_attr, model_setattr, external_module, external_attr,  # noqa: E402
                   call_external, open_file)
