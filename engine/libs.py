"""Meaning of the library modules the package uses or may come to use.

A library function that is not modelled here is never run: its call is recorded
as an 'external' event and the path is left undecided.
"""
import fnmatch
import re as _re
import zlib

from . import chars as C
from . import strings as S
from .values import *

PURE_HOST = ('math', 'string', 'textwrap', 'unicodedata', 'datetime', 'decimal', 'fractions', 'statistics', 'html',
             'numbers', 'keyword', 'calendar', 'bisect', 'heapq', 'difflib')


def U(msg):
  from .interp import Undecided
  return Undecided(msg)


def B(name, fn):
  return Builtin(name, fn)


def arg(args, kwargs, i, name, default=None):
  if len(args) > i:
    return args[i]
  return kwargs.get(name, default)


# ------------------------------------------------------------------ model classes

def install_classes(I):
  I.stdout_stack = []
  obj = I.types['object']
  I.types['uniontype'] = AClass('uniontype', (obj,), {})
  T = I.types
  for cname, table in METHODS.items():
    for k, fn in table.items():
      T[cname].attrs[k] = B('%s.%s' % (cname, k), fn)


MODEL_ALLOC = {}
MODEL_STR = {}
METHODS = {}


def model_attr(I, o, name):
  from .models import MISSING
  f = MODEL_ATTR.get(o.cls.name)
  if f is None:
    for c in o.cls.mro[1:]:
      if c.module is None and c.name in MODEL_ATTR:
        f = MODEL_ATTR[c.name]
        break
  if f is None:
    return MISSING
  return f(I, o, name)


def model_setattr(I, o, name, v):
  f = MODEL_SETATTR.get(o.cls.name)
  if f is None:
    for c in o.cls.mro[1:]:
      if c.module is None and c.name in MODEL_SETATTR:
        f = MODEL_SETATTR[c.name]
        break
  if f is not None:
    f(I, o, name, v)


MODEL_ATTR = {}
MODEL_SETATTR = {}


# ------------------------------------------------------------------ PrettyTable

def pt_alloc(I, o):
  o.data = ((), (), ())       # names, rows, options


MODEL_ALLOC['PrettyTable'] = pt_alloc


def pt_names(I, names):
  names = tuple(S.norm(I, I.force(x)) for x in I.iterate(names))
  if len(set(names)) != len(names):
    I.throw('ValueError', 'Field names must be unique')
  return names


def pt_init(I, args, kwargs):
  o = args[0]
  I.mut(o)
  fn = arg(args, kwargs, 1, 'field_names')
  names = pt_names(I, fn) if fn is not None else ()
  opts = tuple((k, freeze(I, v)) for k, v in kwargs.items() if k != 'field_names')
  o.data = (names, (), opts)


def pt_row(I, o, row):
  row = tuple(I.iterate(row))
  names, rows, opts = o.data
  if names and len(row) != len(names):
    I.throw('ValueError', 'Row has incorrect number of values')
  if not names:
    names = tuple('Field %d' % (i + 1) for i in range(len(row)))
  return names, row


def pt_add_row(I, args, kwargs):
  o = args[0]
  I.mut(o)
  row = arg(args, kwargs, 1, 'row')
  names, row = pt_row(I, o, row)
  o.data = (names, o.data[1] + (row,), o.data[2])


def pt_add_rows(I, args, kwargs):
  for r in I.iterate(arg(args, kwargs, 1, 'rows')):
    pt_add_row(I, [args[0], r], {})


def pt_clear(all_):
  def h(I, args, kwargs):
    o = args[0]
    I.mut(o)
    o.data = (() if all_ else o.data[0], (), o.data[2])
  return h


def pt_del_row(I, args, kwargs):
  o = args[0]
  I.mut(o)
  rows = list(o.data[1])
  try:
    del rows[I.force(args[1])]
  except IndexError:
    I.throw('IndexError', "Can't delete row")
  o.data = (o.data[0], tuple(rows), o.data[2])


def pt_add_column(I, args, kwargs):
  o = args[0]
  I.mut(o)
  name, colv = args[1], tuple(I.iterate(args[2]))
  names, rows, opts = o.data
  if rows and len(rows) != len(colv):
    I.throw('ValueError', 'Column length does not match number of rows')
  if not rows:
    rows = tuple(() for _ in colv)
  o.data = (names + (I.force(name),), tuple(r + (x,) for r, x in zip(rows, colv)), opts)


COSMETIC = {'align', 'valign', 'border', 'hrules', 'vrules', 'padding_width', 'left_padding_width', 'right_padding_width',
            'vertical_char', 'horizontal_char', 'junction_char', 'title', 'header_style', 'min_width', 'min_table_width',
            'int_format', 'float_format', 'custom_format', 'format', 'style', 'horizontal_align_char', 'header',
            'preserve_internal_border', 'use_header_width'}


def pt_string(I, o, kwargs):
  names, rows, opts = o.data
  opts = dict(opts)
  opts.update((k, freeze(I, v)) for k, v in kwargs.items())
  fields = opts.pop('fields', None)
  if fields:
    fields = thaw_plain(fields)
    idx = [names.index(f) for f in fields if f in names]
    names, rows = tuple(names[i] for i in idx), tuple(tuple(r[i] for i in idx) for r in rows)
  start, end = opts.pop('start', None) or 0, opts.pop('end', None)
  if isinstance(start, int) and (end is None or isinstance(end, int)):
    rows = rows[start:end]
  opts = tuple(sorted((k, v) for k, v in opts.items() if k not in COSMETIC and v is not None and v is not False))
  return SStr((Term('str', 'table', (names, tuple(tuple(freeze(I, S.str_(I, c)) for c in r) for r in rows), opts)),))


def thaw_plain(v):
  return [x for x in v[1]] if isinstance(v, tuple) and v and v[0] == 'list' else v


def pt_copy(I, args, kwargs):
  o = args[0]
  n = AObj(o.cls)
  n.data = o.data
  n.attrs.update(o.attrs)
  return n


METHODS['PrettyTable'] = {
    '__init__': pt_init, 'add_row': pt_add_row, 'add_rows': pt_add_rows, 'clear_rows': pt_clear(False), 'clear': pt_clear(True),
    'del_row': pt_del_row, 'add_column': pt_add_column, 'copy': pt_copy,
    'get_string': lambda I, a, k: pt_string(I, a[0], k), '__str__': lambda I, a, k: pt_string(I, a[0], {}),
    'set_style': lambda I, a, k: None, '__len__': None,
    'get_html_string': lambda I, a, k: SStr((Term('str', 'html', pt_string(I, a[0], k).elems[0].args),)),
    'get_csv_string': lambda I, a, k: SStr((Term('str', 'html', pt_string(I, a[0], k).elems[0].args),)),
    'get_json_string': lambda I, a, k: SStr((Term('str', 'html', pt_string(I, a[0], k).elems[0].args),)),
}
del METHODS['PrettyTable']['__len__']


def pt_attr(I, o, name):
  from .models import MISSING
  if name == 'field_names':
    return AList(o.data[0])
  if name in ('rows', '_rows'):
    return AList([AList(r) for r in o.data[1]])
  if name == 'rowcount':
    return len(o.data[1])
  if name == 'colcount':
    return len(o.data[0])
  if name in ('align', 'valign', 'min_width', 'max_width', 'custom_format'):
    d = ADict()
    d.birth = o.birth
    o.attrs[name] = d
    return d
  for k, v in o.data[2]:
    if k == name:
      return v
  return None if name in COSMETIC else MISSING


def pt_set(I, o, name, v):
  if name == 'field_names':
    names = pt_names(I, v)
    if o.data[0] and len(o.data[0]) != len(names):
      I.throw('ValueError', 'Field name list has incorrect number of values')
    o.data = (names, o.data[1], o.data[2])
  else:
    o.data = (o.data[0], o.data[1], tuple(x for x in o.data[2] if x[0] != name) + ((name, freeze(I, v)),))


MODEL_ATTR['PrettyTable'] = pt_attr
MODEL_SETATTR['PrettyTable'] = pt_set


def freeze(I, v):
  """immutable form of a value for use inside a term"""
  if isinstance(v, ADict):
    return ('dict', tuple((k, freeze(I, x)) for k, x in v.d.items()))
  if isinstance(v, (AList, tuple)):
    return ('list', tuple(freeze(I, x) for x in v))
  if isinstance(v, Union) and not all(a.value is None or isinstance(a.value, (str, SStr, int, float, Term)) for a in v.alts):
    return freeze(I, I.force(v))
  if v is None or isinstance(v, (bool, int, float, str, SStr, Term, Union)):
    return v
  if isinstance(v, AObj) and v.cls.kind in ('strenum', 'intenum'):
    return v.attrs['value']
  return ('obj', repr(type(v)))


# ------------------------------------------------------------------ json

def json_dumps(I, args, kwargs):
  v = I.force(arg(args, kwargs, 0, 'obj'))
  kw = {k: I.force(x) for k, x in kwargs.items() if k != 'obj'}
  default = kw.pop('default', None)
  cls = kw.pop('cls', None)
  if cls is not None:
    raise U('json.dumps with an encoder class')

  def fz(x):
    if isinstance(x, Union) and not all(a.value is None or isinstance(a.value, (bool, str, SStr, int, float, Term)) for a in x.alts):
      x = I.force(x)
    if isinstance(x, AObj) and x.cls.kind == 'namedtuple':
      return ('list', tuple(fz(y) for y in I.iterate(x)))
    if isinstance(x, AObj) and x.cls.kind in ('strenum', 'intenum'):
      return x.attrs['value']
    if isinstance(x, ADict):
      out = []
      for k, y in x.d.items():
        if isinstance(k, (AObj, tuple)):
          if isinstance(k, AObj) and k.cls.kind in ('strenum', 'intenum'):
            k = k.attrs['value']
          else:
            I.throw('TypeError', 'keys must be str, int, float, bool or None')
        out.append((k, fz(y)))
      return ('dict', tuple(out))
    if isinstance(x, (AList, tuple)):
      return ('list', tuple(fz(y) for y in x))
    if x is None or isinstance(x, (bool, int, float, str, SStr, Term, Union)):
      return x
    if default is not None:
      return fz(I.force(I.call(default, [x], {})))
    I.throw('TypeError', 'Object is not JSON serializable')
  fr = fz(v)
  if I.truth(kw.get('sort_keys', False)):
    pass
  kwt = tuple(sorted((k, tuple(x) if isinstance(x, (AList, tuple)) else x) for k, x in kw.items()))
  if not symbolic_any(fr):
    return S.FN['json'](fr, kwt)
  return SStr((Term('str', 'json', (fr, kwt)),))


def symbolic_any(v):
  if isinstance(v, tuple):
    return any(symbolic_any(x) for x in v)
  return isinstance(v, (SStr, Term, Union))


def json_loads(I, args, kwargs):
  v = S.norm(I, I.force(args[0]))
  if isinstance(v, str):
    import json
    try:
      return host_to_abs(I, json.loads(v))
    except ValueError as e:
      I.host_error(e)
  if isinstance(v, SStr) and len(v.elems) == 1 and isinstance(v.elems[0], Term) and v.elems[0].fn == 'json':
    def th(x):
      if isinstance(x, tuple):
        if x[0] == 'dict':
          return ADict({k: th(y) for k, y in x[1]})
        return AList([th(y) for y in x[1]])
      return x
    return th(v.elems[0].args[0])
  raise U('json.loads of a symbolic text')


def json_dump(I, args, kwargs):
  s = json_dumps(I, args[:1], kwargs)
  I.call(I.getattr(I.force(args[1]), 'write'), [s], {})


def host_to_abs(I, v):
  if isinstance(v, dict):
    return ADict({k: host_to_abs(I, x) for k, x in v.items()})
  if isinstance(v, list):
    return AList([host_to_abs(I, x) for x in v])
  if isinstance(v, tuple):
    return tuple(host_to_abs(I, x) for x in v)
  if isinstance(v, (set, frozenset)):
    return ASet(v, isinstance(v, frozenset))
  if v is None or isinstance(v, (bool, int, float, str, bytes)):
    return v
  raise U('library value of type ' + type(v).__name__)


# ------------------------------------------------------------------ termcolor

def t_colored(I, args, kwargs):
  text = S.str_(I, arg(args, kwargs, 0, 'text'))
  color = arg(args, kwargs, 1, 'color')
  rest = [I.force(x) for x in [color, arg(args, kwargs, 2, 'on_color')]]
  attrs = I.force(arg(args, kwargs, 3, 'attrs'))
  rest.append(tuple(attrs) if attrs is not None else None)
  if isinstance(text, Union):
    text = S.concat(I, [text])
  return SStr((Term('str', 'colored', (text,) + tuple(rest)),))


def t_cprint(I, args, kwargs):
  names = ('text', 'color', 'on_color', 'attrs')
  kw = {k: v for k, v in kwargs.items() if k in names}
  rest = {k: v for k, v in kwargs.items() if k in ('sep', 'end', 'file', 'flush')}
  from .models import b_print
  b_print(I, [t_colored(I, args, kw)], rest)


# ------------------------------------------------------------------ files

def path_value(I, p):
  p = I.force(p)
  if isinstance(p, AObj):
    if p.cls.name == 'PosixPath':
      return p.data
    if p.cls.name == 'DirEntry':
      return p.attrs['path']
    m = I.special(p, '__fspath__')
    if m is not None:
      return I.force(I.call(m, [], {}))
    I.throw('TypeError', 'expected str, bytes or os.PathLike object')
  if p is None or isinstance(p, (AList, ADict, tuple, float)):
    I.throw('TypeError', 'expected str, bytes or os.PathLike object')
  return p


def open_file(I, path, mode, params):
  path = path_value(I, path)
  mode = S.norm(I, mode)
  I.event('open', path, mode if isinstance(mode, str) else '?', I.where())
  o = AObj(I.types['TextIOWrapper'], I.where())
  lines = None
  if I.fs is not None:
    lines = I.fs(I, path)
    if lines is None:
      I.throw('FileNotFoundError', 2, 'No such file or directory')
  o.attrs['name'] = path
  o.attrs['mode'] = mode
  o.attrs['closed'] = False
  o.attrs['encoding'] = 'UTF-8'
  nl = I.force(params.get('newline'))
  enc, errors = I.force(params.get('encoding')), I.force(params.get('errors'))
  if enc is not None or errors is not None:
    if not isinstance(enc or '', str) or not isinstance(errors or '', str):
      raise U('encoding of a file')
    if lines:
      lines = recode(I, lines, enc or 'utf-8', errors or 'strict')
  o.data = ('file', path, mode, tuple(lines or ()), 0, 'b' in mode if isinstance(mode, str) else False, nl)
  return o


def recode(I, lines, enc, errors):
  """the lines of a UTF-8 file as another encoding reads them"""
  out = []
  for t in lines:
    n = S.norm(I, t)
    if isinstance(n, str) and not n.isascii():
      try:
        n = n.encode('utf-8').decode(enc, errors)
      except UnicodeDecodeError:
        # met when the block that holds the line is read
        n = UNREADABLE
      except LookupError:
        I.throw('LookupError', 'unknown encoding: ' + enc)
      out.append(n)
    else:
      out.append(t)
  return out


UNREADABLE = object()


def f_check(I, o):
  if o.attrs.get('closed') is True:
    I.throw('ValueError', 'I/O operation on closed file.')
  if o.data[5]:
    raise U('binary file contents')


def f_next(I, o):
  f_check(I, o)
  k, path, mode, lines, pos, b, nl = o.data
  if pos >= len(lines):
    return None
  I.mut(o)
  if pos == 0 and UNREADABLE in lines:
    I.throw('UnicodeDecodeError', 'invalid byte')
  o.data = (k, path, mode, lines, pos + 1, b, nl)
  return lines[pos]


def f_read(I, args, kwargs):
  o = args[0]
  if len(args) > 1 and I.force(args[1]) not in (None, -1):
    return f_read_some(I, o, I.force(args[1]))
  parts = []
  while True:
    x = f_next(I, o)
    if x is None:
      break
    parts.append(x)
  return S.concat(I, parts)


def f_read_some(I, o, n):
  """the next n characters"""
  if not isinstance(n, int) or isinstance(n, bool):
    raise U('read of a size')
  got, parts = 0, []
  while got < n:
    x = f_next(I, o)
    if x is None:
      break
    x = S.norm(I, x)
    el = elems_of(x)
    if got + len(el) > n:
      cut = n - got
      rest = x[cut:] if isinstance(x, str) else mkstr(tuple(el[cut:]))
      x = x[:cut] if isinstance(x, str) else mkstr(tuple(el[:cut]))
      k, path, mode, lines, pos, b, nl = o.data
      o.data = (k, path, mode, lines[:pos - 1] + (rest,) + lines[pos:], pos - 1, b, nl)
      el = el[:cut]
    parts.append(x)
    got += len(el)
  return S.concat(I, parts)


def f_readline(I, args, kwargs):
  x = f_next(I, args[0])
  return '' if x is None else x


def f_readlines(I, args, kwargs):
  if len(args) > 1 and I.force(args[1]) not in (None, -1):
    hint = I.force(args[1])
    out, n = [], 0
    while hint > 0:
      x = f_next(I, args[0])
      if x is None:
        return AList(out)
      out.append(x)
      n += len(elems_of(x))
      if n >= hint:
        return AList(out)
  out = []
  while True:
    x = f_next(I, args[0])
    if x is None:
      return AList(out)
    out.append(x)


def f_write(I, args, kwargs):
  o = args[0]
  I.event('write', o.data[1], args[1], I.where())
  t = S.str_(I, args[1])
  return S.length(I, I.force(t))


def f_close(I, args, kwargs):
  o = args[0]
  if o.attrs.get('closed') is not True:
    I.mut(o)
    o.attrs['closed'] = True
    I.event('close', o.data[1], I.where())


def f_exit(I, args, kwargs):
  f_close(I, args, kwargs)
  return None


def f_iter(I, args, kwargs):
  o = args[0]

  def g():
    while True:
      x = f_next(I, o)
      if x is None:
        return
      yield x
  it = AIter(g())
  return it


def f_dunder_next(I, args, kwargs):
  x = f_next(I, args[0])
  if x is None:
    I.throw('StopIteration')
  return x


def f_seek(I, args, kwargs):
  o = args[0]
  p = I.force(args[1])
  if p != 0:
    raise U('seek')
  I.mut(o)
  d = list(o.data)
  d[4] = 0
  o.data = tuple(d)
  return 0


METHODS['TextIOWrapper'] = {
    'read': f_read, 'readline': f_readline, 'readlines': f_readlines, 'write': f_write, 'close': f_close,
    '__enter__': lambda I, a, k: (f_check_open(I, a[0]), a[0])[1], '__exit__': f_exit, '__iter__': f_iter,
    '__next__': f_dunder_next, 'seek': f_seek,
    'writelines': lambda I, a, k: [f_write(I, [a[0], x], {}) for x in I.iterate(a[1])] and None, 'flush': lambda I, a, k: None,
    'readable': lambda I, a, k: True, 'fileno': lambda I, a, k: 3,
}


def f_check_open(I, o):
  if o.attrs.get('closed') is True:
    I.throw('ValueError', 'I/O operation on closed file.')


# StringIO: data = the text written so far (and read position)

def sio_alloc(I, o):
  o.data = ('', 0)


MODEL_ALLOC['StringIO'] = sio_alloc


def sio_init(I, args, kwargs):
  I.mut(args[0])
  v = arg(args, kwargs, 1, 'initial_value', '')
  args[0].data = (v if v is not None else '', 0)


def sio_write(I, args, kwargs):
  o = args[0]
  I.mut(o)
  o.data = (S.concat(I, [o.data[0], args[1]]), 0)
  return None


def sio_lines(I, args, kwargs):
  return AList(S.method(I, I.force(args[0].data[0]), 'splitlines', [True], {}))


METHODS['StringIO'] = {
    '__init__': sio_init, 'write': sio_write, 'getvalue': lambda I, a, k: a[0].data[0], 'read': lambda I, a, k: a[0].data[0],
    '__enter__': lambda I, a, k: a[0], '__exit__': lambda I, a, k: None, 'close': lambda I, a, k: None, 'flush': lambda I, a, k: None,
    'seek': lambda I, a, k: None, 'readlines': sio_lines, '__iter__': lambda I, a, k: AIter(iter(list(sio_lines(I, a, k)))),
    'truncate': lambda I, a, k: setattr(a[0], 'data', ('', 0)),
}


# std streams

def std_write(I, args, kwargs):
  from .models import emit
  emit(I, args[0], S.str_(I, args[1]), '')
  return 0


METHODS['stdstream'] = {'write': std_write, 'flush': lambda I, a, k: None, 'isatty': lambda I, a, k: False,
                        'writelines': lambda I, a, k: [std_write(I, [a[0], x], {}) for x in I.iterate(a[1])] and None}


# directories

def dir_entry(I, base, name):
  o = AObj(I.types['DirEntry'])
  o.attrs['name'] = name
  o.attrs['path'] = path_join(I, [base, name])
  return o


def list_dir(I, path):
  names = I.dirs(I, path) if getattr(I, 'dirs', None) is not None else None
  if names is None:
    raise U('listing of an unknown folder')
  return names


def os_scandir(I, args, kwargs):
  p = path_value(I, arg(args, kwargs, 0, 'path', '.'))
  I.event('listdir', p, I.where())
  ents = AList([dir_entry(I, p, n) for n in list_dir(I, p)])
  o = AObj(I.types['suppress'])
  o.data = ('scandir', ents)
  return o


def os_listdir(I, args, kwargs):
  p = path_value(I, arg(args, kwargs, 0, 'path', '.'))
  I.event('listdir', p, I.where())
  return AList(list_dir(I, p))


def os_walk(I, args, kwargs):
  p = path_value(I, arg(args, kwargs, 0, 'top'))
  I.event('listdir', p, I.where())
  names = list_dir(I, p)
  return AIter(iter([(p, AList(), AList(names))]))


METHODS['DirEntry'] = {
    'is_file': lambda I, a, k: True, 'is_dir': lambda I, a, k: False, 'is_symlink': lambda I, a, k: False,
    '__fspath__': lambda I, a, k: a[0].attrs['path'], 'stat': lambda I, a, k: stat_of(I, a[0].attrs['path']),
    'inode': lambda I, a, k: stat_of(I, a[0].attrs['path']).attrs['st_ino'],
}


def path_join(I, parts):
  if all(isinstance(p, str) for p in parts):
    import os.path
    return os.path.join(*parts)
  out = []
  for i, p in enumerate(parts):
    if i:
      out.append('/')
    out.append(p)
  return S.concat(I, out)


def split_path(I, p):
  """(head, tail) of a joined path"""
  p = I.force(p)
  if isinstance(p, str):
    import os.path
    return os.path.split(p)
  el = list(p.elems)
  for i in range(len(el) - 1, -1, -1):
    if el[i] == '/':
      return mkstr(el[:i]), mkstr(el[i + 1:])
  return '', p


def splitext_tok(I, p):
  """name and extension of an arbitrary file name: opaque"""
  p = I.force(p)
  if isinstance(p, str):
    import os.path
    return os.path.splitext(p)
  return (SStr((Term('str', 'tok', ('stem(%r)' % (p,),)),)), SStr((Term('str', 'tok', ('ext(%r)' % (p,),)),)))


def os_path_fn(name):
  def h(I, args, kwargs):
    vals = [path_value(I, a) for a in args]
    if name == 'join':
      return path_join(I, vals)
    if all(isinstance(v, (str, bytes)) for v in vals) and name in ('basename', 'dirname', 'split', 'splitext', 'normpath', 'isabs'):
      import os.path
      return getattr(os.path, name)(*vals)
    if any(isinstance(v, SStr) and any(not isinstance(e, (str, Term)) for e in v.elems) for v in vals):
      raise U('os.path.%s of a symbolic text' % name)
    if name == 'basename':
      return split_path(I, vals[0])[1]
    if name == 'dirname':
      return split_path(I, vals[0])[0]
    if name == 'split':
      return split_path(I, vals[0])
    if name == 'splitext':
      return splitext_tok(I, vals[0])
    if name in ('normpath', 'abspath', 'realpath', 'expanduser', 'expandvars', 'normcase', 'fspath'):
      return vals[0]
    if name in ('isfile', 'exists', 'lexists'):
      I.event('stat', vals[0], I.where())
      if I.fs is not None:
        return I.fs(I, vals[0]) is not None
      return True
    if name in ('isdir',):
      I.event('stat', vals[0], I.where())
      return getattr(I, 'dirs', None) is not None and I.dirs(I, vals[0]) is not None
    if name in ('islink', 'ismount'):
      return False
    if name == 'getsize':
      return stat_of(I, vals[0]).attrs['st_size']
    raise U('os.path.' + name)
  return h


def os_fspath(I, args, kwargs):
  return path_value(I, args[0])


# pathlib

def mk_path(I, v):
  o = AObj(I.types['PosixPath'])
  o.data = v
  return o


def path_new(I, args, kwargs):
  vals = [path_value(I, a) for a in args] or ['.']
  return mk_path(I, vals[0] if len(vals) == 1 else path_join(I, vals))


def p_open(I, args, kwargs):
  from .models import b_open
  return b_open(I, [args[0].data] + list(args[1:]), kwargs)


def p_read_text(I, args, kwargs):
  f = open_file(I, args[0].data, 'r', {})
  t = f_read(I, [f], {})
  f_close(I, [f], {})
  return t


def p_write_text(I, args, kwargs):
  I.event('open', args[0].data, 'w', I.where())
  I.event('write', args[0].data, args[1], I.where())
  I.event('close', args[0].data, I.where())
  return None


def p_iterdir(I, args, kwargs):
  p = args[0].data
  I.event('listdir', p, I.where())
  return AIter(iter([mk_path(I, path_join(I, [p, n])) for n in list_dir(I, p)]))


def p_glob(I, args, kwargs):
  pat = I.force(args[1])
  if not isinstance(pat, str):
    raise U('glob of an arbitrary name')
  if pat in ('*', '**/*'):
    return p_iterdir(I, args[:1], {})
  p = args[0].data
  I.event('listdir', p, I.where())
  names = list_dir(I, p)
  last = pat.split('/')[-1]
  if any(x != '**' for x in pat.split('/')[:-1]) or last == '**' or not all(isinstance(n, str) for n in names):
    raise U('glob of an arbitrary name')
  return AIter(iter([mk_path(I, path_join(I, [p, n])) for n in names if fnmatch.fnmatchcase(n, last)]))


def g_glob(I, args, kwargs):
  """glob.glob: names with a leading dot only when the pattern has one"""
  pat = path_value(I, args[0])
  root = kwargs.get('root_dir')
  if not isinstance(pat, str):
    raise U('glob of an arbitrary name')
  head, tail = split_path(I, pat)
  tail = S.norm(I, tail)
  deep = False
  while isinstance(head, str) and head.split('/')[-1] == '**':
    deep = True
    head = split_path(I, head)[0]
  if root is not None:
    root = path_value(I, root)
    if head:
      raise U('glob below a folder')
    base = root
  else:
    base = head or '.'
  if any(ch in base for ch in '*?['):
    raise U('glob of folders')
  if not any(ch in tail for ch in '*?['):
    if I.fs is not None and I.fs(I, pat) is not None:
      return AList([pat])
    raise U('glob of a name')
  I.event('listdir', base, I.where())
  names = list_dir(I, base)
  if not all(isinstance(n, str) for n in names):
    raise U('glob of an arbitrary name')
  hidden = I.truth(kwargs.get('include_hidden', False))
  if tail == '**':
    if I.truth(kwargs.get('recursive', False)):
      raise U('recursive glob')
    tail = '*'
  if deep and not I.truth(kwargs.get('recursive', False)):
    raise U('recursive glob')
  got = [n for n in names if fnmatch.fnmatch(n, tail) and (hidden or tail.startswith('.') or not n.startswith('.'))]
  return AList([n if root is not None or not head else path_join(I, [head, n]) for n in got])


def glob_module(I, B):
  return {'glob': B('glob.glob', g_glob), 'iglob': B('glob.iglob', lambda I, a, k: AIter(iter(g_glob(I, a, k)))),
          'escape': B('glob.escape', lambda I, a, k: glob_escape(I, a[0]))}


def glob_escape(I, p):
  p = path_value(I, p)
  if not isinstance(p, str):
    raise U('glob of an arbitrary name')
  import glob
  return glob.escape(p)


def fn_match(fn):
  def h(I, args, kwargs):
    name, pat = (S.norm(I, I.force(x)) if isinstance(I.force(x), (str, SStr)) else path_value(I, x) for x in args[:2])
    if not isinstance(name, str) or not isinstance(pat, str):
      raise U('fnmatch of an arbitrary name')
    return fn(name, pat)
  return h


def fn_filter(I, args, kwargs):
  return AList([x for x in I.iterate(args[0]) if fn_match(fnmatch.fnmatch)(I, [x, args[1]], {})])


def stat_of(I, p):
  """what a look at a file shows: its size, and that it is a file"""
  I.event('stat', p, I.where())
  lines = I.fs(I, p) if I.fs is not None else None
  if lines is None:
    raise U('stat of an unknown file')
  o = AObj(I.types['suppress'])
  o.data = ('stat',)
  n = 0
  for l in lines:
    l = S.norm(I, l)
    if isinstance(l, SStr) and not l.fixed():
      raise U('size of a file of arbitrary lines')
    n += len(l) if isinstance(l, str) else len(l.elems)
  ino = zlib.crc32(repr(p).encode())
  o.attrs.update({'st_size': n, 'st_mode': 0o100644, 'st_ino': ino, 'st_dev': 1, 'st_nlink': 1, 'st_uid': 0, 'st_gid': 0})
  return o


METHODS['PosixPath'] = {
    'open': p_open, 'read_text': p_read_text, 'write_text': p_write_text, 'iterdir': p_iterdir, 'glob': p_glob, 'rglob': p_glob,
    '__truediv__': lambda I, a, k: mk_path(I, path_join(I, [a[0].data, path_value(I, a[1])])),
    'joinpath': lambda I, a, k: mk_path(I, path_join(I, [a[0].data] + [path_value(I, x) for x in a[1:]])),
    '__fspath__': lambda I, a, k: a[0].data, '__str__': lambda I, a, k: a[0].data, 'as_posix': lambda I, a, k: a[0].data,
    'exists': lambda I, a, k: os_path_fn('exists')(I, [a[0].data], {}), 'is_file': lambda I, a, k: os_path_fn('isfile')(I, [a[0].data], {}),
    'is_dir': lambda I, a, k: os_path_fn('isdir')(I, [a[0].data], {}), 'resolve': lambda I, a, k: a[0], 'absolute': lambda I, a, k: a[0],
    'expanduser': lambda I, a, k: a[0], 'is_symlink': lambda I, a, k: False, 'stat': lambda I, a, k: stat_of(I, a[0].data),
    'match': lambda I, a, k: fn_match(fnmatch.fnmatchcase)(I, [split_path(I, a[0].data)[1], a[1]], {}),
}


def p_attr(I, o, name):
  from .models import MISSING
  if name == 'name':
    return split_path(I, o.data)[1]
  if name == 'parent':
    return mk_path(I, split_path(I, o.data)[0])
  if name == 'suffix':
    return splitext_tok(I, split_path(I, o.data)[1])[1]
  if name == 'stem':
    return splitext_tok(I, split_path(I, o.data)[1])[0]
  return MISSING


MODEL_ATTR['PosixPath'] = p_attr


# ------------------------------------------------------------------ collections

def c_defaultdict(I, args, kwargs):
  d = ADict(kind='defaultdict')
  d.factory = args[0] if args else None
  from .models import dict_update
  dict_update(I, d, args[1] if len(args) > 1 else None, kwargs)
  return d


def c_ordered(I, args, kwargs):
  from .models import dict_update
  d = ADict(kind='OrderedDict')
  dict_update(I, d, args[0] if args else None, kwargs)
  return d


def c_counter(I, args, kwargs):
  from .models import dict_get, dict_set
  d = ADict(kind='Counter')
  if args:
    src = I.force(args[0])
    if isinstance(src, ADict):
      d.d.update(src.d)
    else:
      for x in I.iterate(src):
        dict_set(I, d, x, I.binop(OPN('add'), dict_get(I, d, x), 1))
  return d


def OPN(name):
  from .models import OPNODE
  return OPNODE[name]


def c_deque(I, args, kwargs):
  l = AList(list(I.iterate(args[0])) if args else [])
  if kwargs.get('maxlen') is not None or len(args) > 1:
    raise U('bounded deque')
  return l


def c_chainmap(I, args, kwargs):
  from .models import dict_update
  d = ADict()
  for m in reversed(args):
    dict_update(I, d, m)
  return d


def c_namedtuple(I, args, kwargs):
  from .models import make_namedtuple_class
  name = I.force(args[0])
  f = I.force(args[1]) if len(args) > 1 else kwargs['field_names']
  fields = f.replace(',', ' ').split() if isinstance(f, str) else [I.force(x) for x in I.iterate(f)]
  dv = I.force(kwargs.get('defaults'))
  defaults = dict(zip(fields[::-1], list(dv)[::-1])) if dv is not None else {}
  cls = AClass(name, (I.types['object'],), {}, module=I.mod)
  make_namedtuple_class(I, cls, fields, defaults)
  return cls


# ------------------------------------------------------------------ functools / itertools / operator

def ft_lru(I, args, kwargs):
  """a cache in front of a function: the function itself (the history check
  looks for caches whose result depends on more than the key)"""
  if args and isinstance(args[0], (AFunc, Builtin, Bound)):
    return memo(I, args[0])

  def deco(I, a, k):
    return memo(I, a[0])
  return B('lru_cache', deco)


def memo(I, f):
  I.caches.append((f, I.where()))
  if isinstance(f, AFunc):
    I.memos[f] = []
  return f


def ft_reduce(I, args, kwargs):
  it = I.iterate(args[1])
  if len(args) > 2:
    acc = args[2]
  else:
    try:
      acc = next(it)
    except StopIteration:
      I.throw('TypeError', 'reduce() of empty iterable with no initial value')
  for x in it:
    acc = I.call(args[0], [acc, x], {})
  return acc


def ft_wraps(I, args, kwargs):
  src = args[0]

  def deco(I, a, k):
    f = a[0]
    if isinstance(f, AFunc):
      f.attrs['__wrapped__'] = src
      f.name = getattr(src, 'name', f.name)
    return f
  return B('wraps', deco)


def ft_cmp_to_key(I, args, kwargs):
  raise U('cmp_to_key')


def ft_singledispatch(I, args, kwargs):
  raise U('singledispatch')


def it_chain(I, args, kwargs):
  def g():
    for a in args:
      for x in I.iterate(a):
        yield x
  return AIter(g())


def it_islice(I, args, kwargs):
  import itertools
  vals = [I.force(a) for a in args[1:]]
  return AIter(itertools.islice(I.iterate(args[0]), *vals))


def it_product(I, args, kwargs):
  import itertools
  rep = I.force(kwargs.get('repeat', 1))
  return AIter(itertools.product(*[list(I.iterate(a)) for a in args], repeat=rep))


def it_groupby(I, args, kwargs):
  key = arg(args, kwargs, 1, 'key')

  def g():
    cur, grp, have = None, [], False
    for x in I.iterate(args[0]):
      k = I.call(key, [x], {}) if key is not None else x
      if have and I.eq(k, cur):
        grp.append(x)
      else:
        if have:
          yield (cur, AList(grp))
        cur, grp, have = k, [x], True
    if have:
      yield (cur, AList(grp))
  return AIter(g())


def it_takewhile(I, args, kwargs):
  def g():
    for x in I.iterate(args[1]):
      if not I.truth(I.call(args[0], [x], {})):
        return
      yield x
  return AIter(g())


def it_dropwhile(I, args, kwargs):
  def g():
    drop = True
    for x in I.iterate(args[1]):
      if drop and I.truth(I.call(args[0], [x], {})):
        continue
      drop = False
      yield x
  return AIter(g())


def it_filterfalse(I, args, kwargs):
  def g():
    for x in I.iterate(args[1]):
      if not I.truth(I.call(args[0], [x], {}) if args[0] is not None else x):
        yield x
  return AIter(g())


def it_starmap(I, args, kwargs):
  def g():
    for x in I.iterate(args[1]):
      yield I.call(args[0], list(I.iterate(x)), {})
  return AIter(g())


def it_accumulate(I, args, kwargs):
  fn = arg(args, kwargs, 1, 'func')
  init = kwargs.get('initial')

  def g():
    have = init is not None
    acc = init
    if have:
      yield acc
    for x in I.iterate(args[0]):
      acc = x if not have else (I.call(fn, [acc, x], {}) if fn is not None else I.binop(OPN('add'), acc, x))
      have = True
      yield acc
  return AIter(g())


def it_zip_longest(I, args, kwargs):
  import itertools
  return AIter(itertools.zip_longest(*[I.iterate(a) for a in args], fillvalue=kwargs.get('fillvalue')))


def it_pairwise(I, args, kwargs):
  import itertools
  return AIter(itertools.pairwise(I.iterate(args[0])))


def it_count(I, args, kwargs):
  import itertools
  return AIter(itertools.count(*[I.force(a) for a in args]))


def it_repeat(I, args, kwargs):
  import itertools
  return AIter(itertools.repeat(*args))


def it_cycle(I, args, kwargs):
  import itertools
  return AIter(itertools.cycle(list(I.iterate(args[0]))))


def it_tee(I, args, kwargs):
  items = list(I.iterate(args[0]))
  return tuple(AIter(iter(items)) for _ in range(args[1] if len(args) > 1 else 2))


def op_itemgetter(I, args, kwargs):
  keys = list(args)

  def h(I, a, k):
    r = tuple(I.getitem(a[0], x) for x in keys)
    return r[0] if len(r) == 1 else r
  return B('itemgetter', h)


def op_attrgetter(I, args, kwargs):
  def h(I, a, k):
    out = []
    for nm in args:
      v = a[0]
      for part in nm.split('.'):
        v = I.getattr(v, part)
      out.append(v)
    return out[0] if len(out) == 1 else tuple(out)
  return B('attrgetter', h)


def op_methodcaller(I, args, kwargs):
  return B('methodcaller', lambda I, a, k: I.call(I.getattr(a[0], args[0]), list(args[1:]), dict(kwargs)))


def op_bin(name):
  return lambda I, a, k: I.binop(OPN(name), a[0], a[1])


def op_cmp(name):
  import ast
  node = {'eq': ast.Eq(), 'ne': ast.NotEq(), 'lt': ast.Lt(), 'le': ast.LtE(), 'gt': ast.Gt(), 'ge': ast.GtE()}[name]
  return lambda I, a, k: I.compare(node, a[0], a[1])


# ------------------------------------------------------------------ contextlib

def cl_contextmanager(I, args, kwargs):
  fn = args[0]

  def make(I, a, k):
    o = AObj(I.types['genctx'])
    o.data = I.call(fn, a, k)
    return o
  b = B('contextmanager', make)
  return b


def genctx_enter(I, args, kwargs):
  o = args[0]
  try:
    return next(o.data.it)
  except StopIteration:
    I.throw('RuntimeError', "generator didn't yield")


def genctx_exit(I, args, kwargs):
  from .interp import Throw
  o = args[0]
  exc = args[2]
  if exc is None:
    try:
      next(o.data.it)
    except StopIteration:
      return False
    I.throw('RuntimeError', "generator didn't stop")
  try:
    o.data.it.throw(Throw(exc))
  except StopIteration:
    return True
  except Throw as t:
    if t.exc is exc:
      return False
    raise
  I.throw('RuntimeError', "generator didn't stop after throw()")


METHODS['genctx'] = {'__enter__': genctx_enter, '__exit__': genctx_exit}


def cl_suppress(I, args, kwargs):
  o = AObj(I.types['suppress'])
  o.data = ('suppress', tuple(args))
  return o


def cl_closing(I, args, kwargs):
  o = AObj(I.types['suppress'])
  o.data = ('closing', args[0])
  return o


def cl_nullcontext(I, args, kwargs):
  o = AObj(I.types['suppress'])
  o.data = ('null', args[0] if args else None)
  return o


def cl_redirect(which):
  def h(I, args, kwargs):
    o = AObj(I.types['suppress'])
    o.data = ('redirect', args[0])
    return o
  return h


def cl_exitstack(I, args, kwargs):
  o = AObj(I.types['ExitStack'])
  o.data = ()
  return o


def sup_enter(I, args, kwargs):
  o = args[0]
  k, v = o.data
  if k == 'redirect':
    I.stdout_stack.append(v)
    return v
  if k == 'scandir':
    return o
  return v if k in ('closing', 'null') else None


def sup_exit(I, args, kwargs):
  o = args[0]
  k, v = o.data
  if k == 'suppress':
    exc = args[2]
    return exc is not None and any(t in exc.cls.mro for t in v)
  if k == 'closing':
    I.call(I.getattr(v, 'close'), [], {})
  if k == 'redirect' and I.stdout_stack:
    I.stdout_stack.pop()
  return False


def sup_iter(I, args, kwargs):
  o = args[0]
  if o.data[0] != 'scandir':
    I.throw('TypeError', 'not iterable')
  return AIter(iter(list(o.data[1])))


METHODS['suppress'] = {'__enter__': sup_enter, '__exit__': sup_exit, '__iter__': sup_iter, 'close': lambda I, a, k: None}


def es_enter_context(I, args, kwargs):
  o, cm = args[0], I.force(args[1])
  v = I.call(I.special(cm, '__enter__'), [], {})
  I.mut(o)
  o.data = o.data + (('cm', cm),)
  return v


def es_callback(I, args, kwargs):
  I.mut(args[0])
  args[0].data = args[0].data + (('cb', args[1], tuple(args[2:]), tuple(kwargs.items())),)
  return args[1]


def es_exit(I, args, kwargs):
  o = args[0]
  exc = args[2] if len(args) > 2 else None
  swallowed = False
  for d in reversed(o.data):
    if d[0] == 'cb':
      I.call(d[1], list(d[2]), dict(d[3]))
    else:
      r = I.call(I.special(d[1], '__exit__'), [exc.cls if exc else None, exc, None], {})
      if exc is not None and I.truth(r):
        exc = None
        swallowed = True
  return swallowed


METHODS['ExitStack'] = {'__enter__': lambda I, a, k: a[0], '__exit__': es_exit, 'enter_context': es_enter_context,
                        'callback': es_callback, 'close': lambda I, a, k: es_exit(I, [a[0], None, None, None], {})}


# ------------------------------------------------------------------ logging / warnings

def log_call(level):
  def h(I, args, kwargs):
    I.event('log', level, I.where())
  return h


LOG = {k: log_call(k) for k in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn')}
METHODS['Logger'] = dict((k, v) for k, v in LOG.items())
METHODS['Logger'].update({'setLevel': lambda I, a, k: None, 'addHandler': lambda I, a, k: None,
                          'isEnabledFor': lambda I, a, k: False, 'getChild': lambda I, a, k: a[0]})


def get_logger(I, args, kwargs):
  return AObj(I.types['Logger'])


# ------------------------------------------------------------------ regular expressions

def re_pattern(I, p, flags):
  p = S.norm(I, I.force(p))
  if isinstance(p, AObj) and p.cls.name == 'Pattern':
    return p
  if not isinstance(p, str):
    raise U('symbolic regular expression')
  f = I.force(flags)
  f = int(f) if f is not None else 0
  try:
    _re.compile(p, f)
  except _re.error as e:
    I.throw('ValueError', str(e))
  o = AObj(I.types['Pattern'])
  o.data = (p, f)
  o.attrs['pattern'] = p
  return o


class TooMany(Exception):
  pass


def re_tree(p, f):
  try:
    import re._parser as sre
  except ImportError:
    import sre_parse as sre
  return sre.parse(p, f)


def both_cases(m):
  for ch in list(C.chars(m)):
    m |= C.BIT.get(ch.lower(), 0) | C.BIT.get(ch.upper(), 0)
  return m


def set_of(op, av, flags=0):
  name = str(op)
  m = None
  if name == 'LITERAL':
    m = 1 << av if av < 128 else 0
    return both_cases(m) if flags & _re.IGNORECASE else m
  if name == 'NOT_LITERAL':
    m = 1 << av if av < 128 else 0
    return C.FULL & ~(both_cases(m) if flags & _re.IGNORECASE else m)
  if name == 'ANY':
    return C.FULL if flags & _re.DOTALL else C.FULL & ~C.of('\n')
  if name == 'IN':
    m = 0
    neg = False
    for o, a in av:
      n = str(o)
      if n == 'NEGATE':
        neg = True
      elif n == 'LITERAL':
        m |= 1 << a if a < 128 else 0
      elif n == 'RANGE':
        for i in range(a[0], min(a[1], 127) + 1):
          m |= 1 << i
      elif n == 'CATEGORY':
        c = cat_mask(str(a))
        if c is None:
          return None
        m |= c
      else:
        return None
    if flags & _re.IGNORECASE:
      m = both_cases(m)
    return C.FULL & ~m if neg else m
  if name == 'CATEGORY':
    return cat_mask(str(av))
  return None


def re_paths(tree, flags, n, mask, pos, full, limit=400):
  """ways the expression can match n characters (mask(i): what character i can be) from
  pos on, in the order the matcher tries them: [(index -> set), groups, end]"""
  steps = [0]

  def seq(items, k, i, req, groups, cont):
    steps[0] += 1
    if steps[0] > 20000:
      raise TooMany()
    if k == len(items):
      yield from cont(i, req, groups)
      return
    op, av = items[k]
    name = str(op)
    if name == 'AT':
      a = str(av)
      if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
        if i != 0:
          if a == 'AT_BEGINNING' and flags & _re.MULTILINE:
            raise U('multi-line anchors')
          return
      elif a == 'AT_END_STRING':
        if i != n:
          return
      elif a == 'AT_END':
        if flags & _re.MULTILINE:
          raise U('multi-line anchors')
        if i == n - 1:
          m = mask(i) & req.get(i, C.FULL) & C.of('\n')
          if not m:
            return
          req = dict(req)
          req[i] = m
        elif i != n:
          return
      else:
        raise U('anchor ' + a)
      yield from seq(items, k + 1, i, req, groups, cont)
      return
    if name == 'SUBPATTERN':
      g, add, rem, sub = av
      if add or rem:
        raise U('inline flags')

      def after(j, r, gs):
        if g is not None:
          gs = dict(gs)
          gs[g] = (i, j)
        yield from seq(items, k + 1, j, r, gs, cont)
      yield from seq(list(sub), 0, i, req, groups, after)
      return
    if name == 'BRANCH':
      for alt in av[1]:
        yield from seq(list(alt), 0, i, req, groups, lambda j, r, gs: seq(items, k + 1, j, r, gs, cont))
      return
    if name in ('MAX_REPEAT', 'MIN_REPEAT'):
      lo, hi, sub = av
      sub = list(sub)

      def rep(count, start, r, gs):
        steps[0] += 1
        if steps[0] > 20000:
          raise TooMany()

        def more():
          if count < hi:
            def nxt(j, r2, gs2):
              if j == start and count >= lo:
                return
              yield from rep(count + 1, j, r2, gs2)
            yield from seq(sub, 0, start, r, gs, nxt)
        if count < lo:
          yield from more()
        elif name == 'MAX_REPEAT':
          yield from more()
          yield from seq(items, k + 1, start, r, gs, cont)
        else:
          yield from seq(items, k + 1, start, r, gs, cont)
          yield from more()
      yield from rep(0, i, req, groups)
      return
    if name == 'ASSERT' or name == 'ASSERT_NOT':
      direction, sub = av
      if direction != 1:
        raise U('look-behind')
      if name == 'ASSERT_NOT':
        m = set_of(*list(sub)[0], flags) if len(sub) == 1 else None
        if m is None:
          raise U('negative look-ahead')
        if i < n:
          x = mask(i) & req.get(i, C.FULL) & ~m
          if not x:
            return
          req = dict(req)
          req[i] = x
        yield from seq(items, k + 1, i, req, groups, cont)
        return
      yield from seq(list(sub), 0, i, req, groups, lambda j, r, gs: seq(items, k + 1, i, r, gs, cont))
      return
    m = set_of(op, av, flags)
    if m is None:
      raise U('regular expression construct ' + name)
    if i >= n:
      return
    m &= mask(i) & req.get(i, C.FULL)
    if not m:
      return
    req = dict(req)
    req[i] = m
    yield from seq(items, k + 1, i + 1, req, groups, cont)

  def done(i, req, groups):
    if full and i != n:
      return
    yield req, groups, i
  out = []
  for req, groups, end in seq(list(tree), 0, pos, {}, {}, done):
    # a set that leaves nothing out is no requirement
    box = {i: m for i, m in req.items() if mask(i) & ~m}
    if any(all(mask(i) & box.get(i, C.FULL) & ~m == 0 for i, m in b.items()) for b, _, _ in out):
      continue
    out.append((box, groups, end))
    if len(out) > limit:
      raise TooMany()
    if not box:
      break
  return out


def re_find(I, p, f, mode, el, pos=0):
  """the match of p in the characters el: None, or group -> span; partitions.
  False when that is out of reach"""
  tree = re_tree(p, f)
  f = int(f) | int(tree.state.flags)
  if f & ~int(_re.ASCII | _re.UNICODE | _re.DOTALL | _re.IGNORECASE | _re.VERBOSE):
    return False
  masks = [S.emask(I, e) for e in el]
  ways = []
  try:
    starts = [pos] if mode != 'search' else range(pos, len(el) + 1)
    for st in starts:
      for box, groups, end in re_paths(tree, f, len(el), masks.__getitem__, st, mode == 'fullmatch'):
        if any(all(masks[i] & box.get(i, C.FULL) & ~m == 0 for i, m in b.items()) for b, _ in ways):
          continue
        g = dict(groups)
        g[0] = (st, end)
        ways.append((box, g))
        if not box:
          break
      if ways and not ways[-1][0]:
        break
      if len(ways) > 400:
        return False
  except (TooMany, RecursionError):
    return False
  deltas = []
  spans = []
  no = []
  for box, g in ways:
    lits = [S.lit(el[i], m) for i, m in box.items()]
    d = S.conj(lits)
    if d is not None:
      cl, dead = clauses_of(no, d)
      if not dead:
        deltas.append((d[0], cl, ()))
        spans.append(g)
    neg = S.disj([S.nlit(l) for l in lits])
    if neg is None:
      no = None
      break
    if neg != S.EMPTY_DELTA:
      no.append(neg)
  if no is not None:
    box, cl = {}, []
    for d in no:
      for c, m in d[0]:
        box[c] = box.get(c, C.FULL) & m
      cl.extend(d[1])
    if all(box.values()):
      deltas.append((tuple(box.items()), tuple(cl), ()))
      spans.append(None)
  if not deltas:
    return None
  if len(deltas) > 1 and sum(len(d[1]) for d in deltas) > 4000:
    return False
  return spans[I.choose(deltas) if len(deltas) > 1 or any(deltas[0]) else 0]


def clauses_of(no, d):
  """what is left of 'none of the earlier ways' inside the box of d"""
  box = dict(d[0])
  out = []
  for n in no:
    lits = list(n[0]) if n[0] else list(n[1][0])
    live = []
    sat = False
    for c, m in lits:
      b = box.get(c, C.FULL)
      if b & ~m == 0:
        sat = True
        break
      if b & m:
        live.append((c, m))
    if sat:
      continue
    if not live:
      return (), True
    out.append(tuple(live))
  return tuple(out), False


def cat_mask(a):
  word = C.PRED['isalnum'] | C.of('_')
  t = {'CATEGORY_DIGIT': C.DIGITS, 'CATEGORY_NOT_DIGIT': C.FULL & ~C.DIGITS, 'CATEGORY_SPACE': C.WS & ~C.of('\x1c\x1d\x1e\x1f') | C.of('\x1c\x1d\x1e\x1f'),
       'CATEGORY_NOT_SPACE': C.FULL & ~C.WS, 'CATEGORY_WORD': word, 'CATEGORY_NOT_WORD': C.FULL & ~word}
  return t.get(a)


def re_match_obj(I, pat, mode, s, pos=0):
  p, f = pat.data
  s = S.norm(I, I.force(s))
  pos = I.force(pos)
  if isinstance(s, str):
    m = getattr(_re.compile(p, f), mode)(s, pos)
    if m is None:
      return None
    o = AObj(I.types['Match'])
    o.data = (pat.data, s, {i: m.span(i) for i in range(m.re.groups + 1) if m.start(i) >= 0}, mode)
    return o
  if not isinstance(s, SStr):
    I.throw('TypeError', 'expected string or bytes-like object')
  fixed = s if s.fixed() else S.fix(I, s)
  spans = False
  if fixed is not None:
    fixed = S.norm(I, fixed)
    if isinstance(fixed, str):
      return re_match_obj(I, pat, mode, fixed, pos)
    spans = re_find(I, p, f, mode, elems_of(fixed), pos)
    s = fixed
  if spans is None:
    return None
  if spans is False:
    if pos:
      raise U('regular expression on a symbolic text')
    if not S.decide_term(I, Term('bool', 're', (p, f, mode, s))):
      return None
  o = AObj(I.types['Match'])
  o.data = (pat.data, s, spans, mode)
  return o


def span_of(I, o, i):
  (p, f), s, spans, mode = o.data
  i = I.force(i)
  names = _re.compile(p, f).groupindex
  if i in names:
    i = names[i]
  if not isinstance(i, int) or i > _re.compile(p, f).groups:
    I.throw('IndexError', 'no such group')
  if spans is False:
    raise U('group of a regular expression match on a symbolic text')
  return spans.get(i)


def group_text(I, o, i):
  sp = span_of(I, o, i)
  if sp is None:
    return None
  s = o.data[1]
  return s[sp[0]:sp[1]] if isinstance(s, str) else S.norm(I, mkstr(elems_of(s)[sp[0]:sp[1]]))


def m_group(I, args, kwargs):
  idx = args[1:] or [0]
  out = [group_text(I, args[0], i) for i in idx]
  return out[0] if len(out) == 1 else tuple(out)


def m_groups(I, args, kwargs):
  o = args[0]
  n = _re.compile(*o.data[0]).groups
  d = arg(args, kwargs, 1, 'default', None)
  return tuple(d if t is None else t for t in (group_text(I, o, i) for i in range(1, n + 1)))


def m_groupdict(I, args, kwargs):
  o = args[0]
  return ADict({k: group_text(I, o, i) for k, i in _re.compile(*o.data[0]).groupindex.items()})


def _span(I, a):
  return span_of(I, a[0], a[1] if len(a) > 1 else 0) or (-1, -1)


METHODS['Match'] = {'group': m_group, 'groups': m_groups, 'groupdict': m_groupdict, '__getitem__': m_group,
                    'span': lambda I, a, k: _span(I, a), 'start': lambda I, a, k: _span(I, a)[0], 'end': lambda I, a, k: _span(I, a)[1]}


def re_all(I, pat, s):
  """all matches in a text, as match objects; None when that is out of reach"""
  s = S.norm(I, I.force(s))
  if not isinstance(s, str):
    if not isinstance(s, SStr):
      I.throw('TypeError', 'expected string or bytes-like object')
    s = s if s.fixed() else S.fix(I, s)
    if s is None:
      return None, None
    s = S.norm(I, s)
  out = []
  pos, n = 0, len(s) if isinstance(s, str) else len(elems_of(s))
  if not isinstance(s, str) and n > 45:
    return None, None
  last = None
  while pos <= n:
    m = re_match_obj(I, pat, 'search', s, pos)
    if m is None:
      break
    sp = m.data[2]
    if sp is False:
      return None, None
    a, b = sp[0]
    if a == b:
      if last == a:
        pos = a + 1
        raise U('empty matches')
      out.append(m)
      pos = b + 1
      last = b
      continue
    out.append(m)
    pos = last = b
  return out, s


def re_piece(s, a, b):
  return s[a:b] if isinstance(s, str) else mkstr(elems_of(s)[a:b])


def re_sub(I, pat, rep, s, count=0):
  p, f = pat.data
  rep = I.force(rep)
  if isinstance(rep, SStr):
    rep = S.norm(I, rep)
  s = S.norm(I, I.force(s))
  count = I.force(count)
  if isinstance(rep, str) and isinstance(s, str):
    return _re.compile(p, f).sub(rep, s, count=count)
  if isinstance(rep, str) and '\\' not in rep or callable_value(rep):
    ms, t = re_all(I, pat, s)
    if ms is not None:
      if any(a == b for a, b in (m.data[2][0] for m in ms)):
        raise U('empty matches')
      out, at = [], 0
      for m in ms[:count] if count else ms:
        a, b = m.data[2][0]
        out.append(re_piece(t, at, a))
        out.append(rep if isinstance(rep, str) else I.force(I.call(rep, [m], {})))
        at = b
      out.append(re_piece(t, at, None))
      return S.norm(I, S.concat(I, out))
  if isinstance(rep, str) and isinstance(s, SStr):
    return S.sstr(Term('str', 'resub', (p, f, rep, count, s)))
  raise U('re.sub')


def callable_value(v):
  return not isinstance(v, (str, SStr, int, float, tuple, AList, ADict, Union, type(None)))


def re_split(I, pat, s, maxsplit=0):
  s = S.norm(I, I.force(s))
  maxsplit = I.force(maxsplit)
  if isinstance(s, str):
    return AList(_re.compile(*pat.data).split(s, maxsplit))
  ms, t = re_all(I, pat, s)
  if ms is None or _re.compile(*pat.data).groups or any(a == b for a, b in (m.data[2][0] for m in ms)):
    raise U('re.split of a symbolic text')
  out, at = [], 0
  for m in ms[:maxsplit] if maxsplit else ms:
    a, b = m.data[2][0]
    out.append(S.norm(I, re_piece(t, at, a)))
    at = b
  out.append(S.norm(I, re_piece(t, at, None)))
  return AList(out)


def re_findall(I, pat, s):
  s = S.norm(I, I.force(s))
  if isinstance(s, str):
    return AList(_re.compile(*pat.data).findall(s))
  ms, t = re_all(I, pat, s)
  if ms is None:
    raise U('re.findall of a symbolic text')
  n = _re.compile(*pat.data).groups
  if n == 0:
    return AList([group_text(I, m, 0) for m in ms])

  def text(m, i):
    g = group_text(I, m, i)
    return '' if g is None else g
  if n == 1:
    return AList([text(m, 1) for m in ms])
  return AList([tuple(text(m, i) for i in range(1, n + 1)) for m in ms])


def re_finditer(I, pat, s):
  ms, t = re_all(I, pat, s)
  if ms is None:
    raise U('re.finditer of a symbolic text')
  return AList(ms)


METHODS['Pattern'] = {
    'match': lambda I, a, k: re_match_obj(I, a[0], 'match', a[1]), 'search': lambda I, a, k: re_match_obj(I, a[0], 'search', a[1]),
    'fullmatch': lambda I, a, k: re_match_obj(I, a[0], 'fullmatch', a[1]),
    'sub': lambda I, a, k: re_sub(I, a[0], a[1], a[2], arg(a, k, 3, 'count', 0)),
    'split': lambda I, a, k: re_split(I, a[0], a[1], arg(a, k, 2, 'maxsplit', 0)), 'findall': lambda I, a, k: re_findall(I, a[0], a[1]),
    'finditer': lambda I, a, k: re_finditer(I, a[0], a[1]),
}


def re_fn(mode):
  def h(I, a, k):
    return re_match_obj(I, re_pattern(I, a[0], arg(a, k, 2, 'flags', 0)), mode, a[1])
  return h


# ------------------------------------------------------------------ dataclasses / enum

def dc_field(I, args, kwargs):
  o = AObj(I.types['Field'])
  o.data = (kwargs.get('default', _NO), kwargs.get('default_factory', _NO), kwargs.get('init', True), kwargs.get('compare', True))
  return o


_NO = object()


def dc_dataclass(I, args, kwargs):
  if args and isinstance(args[0], AClass):
    return make_dataclass(I, args[0], {})
  kw = {k: I.force(v) for k, v in kwargs.items()}
  return B('dataclass', lambda I, a, k: make_dataclass(I, a[0], kw))


def make_dataclass(I, cls, kw):
  fields = {}
  for c in reversed(cls.mro):
    for k, d in c.attrs.get('@dcfields', {}).items():
      fields[k] = d
  own = {}
  for k in cls.attrs.get('__annotations__', {}):
    d = cls.attrs.get(k, _NO)
    if isinstance(d, AObj) and d.cls.name == 'Field' and d.cls.module is None:
      own[k] = d.data
      cls.attrs.pop(k)
      if d.data[0] is not _NO:
        cls.attrs[k] = d.data[0]
    else:
      own[k] = (d, _NO, True, True)
  fields.update(own)
  cls.attrs['@dcfields'] = own
  cls.kind = 'dataclass'
  names = list(fields)
  init_names = [n for n in names if fields[n][2]]
  cls.attrs['__match_args__'] = tuple(init_names)
  if kw.get('frozen'):
    cls.attrs['__frozen__'] = True
  if kw.get('init', True) and not isinstance(cls.attrs.get('__init__'), AFunc):
    def init(I, a, k):
      o = a[0]
      vals = list(a[1:])
      k = dict(k)
      if len(vals) > len(init_names):
        I.throw('TypeError', '__init__() takes too many arguments')
      I.mut(o)
      for n in names:
        d, fac, ini, _ = fields[n]
        if ini and vals:
          o.attrs[n] = vals.pop(0)
        elif ini and n in k:
          o.attrs[n] = k.pop(n)
        elif d is not _NO:
          o.attrs[n] = d
        elif fac is not _NO:
          o.attrs[n] = I.call(fac, [], {})
        elif not ini:
          continue
        else:
          I.throw('TypeError', "__init__() missing required argument: '%s'" % n)
      if k:
        I.throw('TypeError', "__init__() got an unexpected keyword argument '%s'" % next(iter(k)))
      post, _ = o.cls.lookup('__post_init__')
      if post is not None:
        I.call(Bound(post, o), [], {})
    cls.attrs['__init__'] = B('__init__', init)
  if kw.get('eq', True) and not isinstance(cls.attrs.get('__eq__'), AFunc):
    def eq(I, a, k):
      x, y = a[0], I.force(a[1])
      if not isinstance(y, AObj) or y.cls is not x.cls:
        return NotImpl
      return all(I.eq(x.attrs.get(n), y.attrs.get(n)) for n in names if fields[n][3])
    cls.attrs['__eq__'] = B('__eq__', eq)
  if kw.get('repr', True) and not isinstance(cls.attrs.get('__repr__'), AFunc):
    def rep(I, a, k):
      out = [cls.name + '(']
      for i, n in enumerate(names):
        out += [', ' if i else '', n + '=', S.repr_(I, a[0].attrs.get(n))]
      return S.concat(I, out + [')'])
    cls.attrs['__repr__'] = B('__repr__', rep)
  return cls


def dc_asdict(I, args, kwargs):
  o = I.force(args[0])
  return ADict({n: v for n, v in o.attrs.items()})


def dc_fields(I, args, kwargs):
  o = I.force(args[0])
  cls = o if isinstance(o, AClass) else o.cls
  out = []
  for c in reversed(cls.mro):
    for k in c.attrs.get('@dcfields', {}):
      f = AObj(I.types['Field'])
      f.attrs['name'] = k
      out.append(f)
  return tuple(out)


def dc_replace(I, args, kwargs):
  o = I.force(args[0])
  kw = dict(o.attrs)
  kw.update(kwargs)
  return I.call(o.cls, [], kw)


# ------------------------------------------------------------------ copy

def cp_copy(I, args, kwargs):
  v = I.force(args[0])
  if isinstance(v, AList):
    return AList(v)
  if isinstance(v, ADict):
    return ADict(dict(v.d), v.factory, v.kind)
  if isinstance(v, ASet):
    return ASet(v.items, v.frozen)
  if isinstance(v, AObj):
    m = I.special(v, '__copy__')
    if m is not None:
      return I.call(m, [], {})
    o = AObj(v.cls, v.site)
    o.attrs = dict(v.attrs)
    o.data = v.data
    return o
  return v


def cp_deepcopy(I, args, kwargs):
  memo = {}

  def go(v):
    if id(v) in memo:
      return memo[id(v)]
    if isinstance(v, AList):
      r = memo[id(v)] = AList()
      list.extend(r, [go(x) for x in v])
      return r
    if isinstance(v, ADict):
      r = memo[id(v)] = ADict({}, v.factory, v.kind)
      r.d.update({k: go(x) for k, x in v.d.items()})
      return r
    if isinstance(v, ASet):
      return ASet(v.items, v.frozen)
    if isinstance(v, tuple):
      return tuple(go(x) for x in v)
    if isinstance(v, AObj):
      if v.cls.kind in ('enum', 'strenum', 'intenum'):
        return v
      r = memo[id(v)] = AObj(v.cls, v.site)
      r.attrs = {k: go(x) for k, x in v.attrs.items()}
      r.data = v.data
      return r
    if isinstance(v, Bound):
      return Bound(v.func, go(v.self))
    return v
  return go(I.force(args[0]))


# ------------------------------------------------------------------ modules

def math_fn(name):
  def h(I, args, kwargs):
    def one(*a):
      a = [S.norm(I, x) for x in a]
      if any(isinstance(x, Term) for x in a):
        ty = 'int' if name in ('floor', 'ceil', 'trunc', 'gcd') else 'bool' if name.startswith('is') else 'float'
        if ty == 'bool':
          return S.decide_term(I, Term('bool', 'math', (name,) + tuple(a)))
        return Term(ty, 'math', (name,) + tuple(a))
      if any(isinstance(x, (SStr,)) for x in a):
        I.throw('TypeError', 'must be real number, not str')
      try:
        import math
        return getattr(math, name)(*a)
      except Exception as e:
        I.host_error(e)
    return I.lift(one, *args)
  return h


def build(I, name):
  """variables of a modelled module, or None"""
  import math
  T = I.types
  if name == 'collections':
    return {'defaultdict': B('defaultdict', c_defaultdict), 'OrderedDict': B('OrderedDict', c_ordered),
            'namedtuple': B('namedtuple', c_namedtuple), 'Counter': B('Counter', c_counter), 'deque': B('deque', c_deque),
            'ChainMap': B('ChainMap', c_chainmap), 'abc': I.load('collections.abc'),
            'UserDict': T['dict']}
  if name == 'json':
    return {'dumps': B('json.dumps', json_dumps), 'loads': B('json.loads', json_loads), 'dump': B('json.dump', json_dump),
            'JSONDecodeError': I.exc_classes['ValueError']}
  if name == 'prettytable':
    d = {'PrettyTable': T['PrettyTable']}
    for i, k in enumerate(('DEFAULT', 'FRAME', 'ALL', 'NONE', 'HEADER', 'MARKDOWN', 'PLAIN_COLUMNS', 'ORGMODE', 'MSWORD_FRIENDLY',
                           'DOUBLE_BORDER', 'SINGLE_BORDER', 'RANDOM')):
      d[k] = 10 + i
    return d
  if name == 'termcolor':
    return {'colored': B('colored', t_colored), 'cprint': B('cprint', t_cprint)}
  if name == 'os.path' or name == 'posixpath':
    names = ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath', 'isfile', 'exists', 'lexists', 'isdir', 'islink',
             'ismount', 'abspath', 'realpath', 'expanduser', 'expandvars', 'normcase', 'isabs', 'getsize')
    d = {n: B('os.path.' + n, os_path_fn(n)) for n in names}
    d['sep'] = '/'
    return d
  if name == 'os':
    return {'path': I.load('os.path'), 'scandir': B('os.scandir', os_scandir), 'listdir': B('os.listdir', os_listdir),
            'walk': B('os.walk', os_walk), 'fspath': B('os.fspath', os_fspath), 'sep': '/', 'linesep': '\n', 'name': 'posix',
            'curdir': '.', 'pardir': '..', 'extsep': '.', 'altsep': None,
            'access': B('os.access', lambda I, a, k: os_path_fn('exists')(I, [a[0]], {})), 'F_OK': 0, 'R_OK': 4, 'W_OK': 2, 'X_OK': 1,
            'stat': B('os.stat', lambda I, a, k: stat_of(I, path_value(I, a[0]))), 'cpu_count': B('os.cpu_count', lambda I, a, k: 8),
            'PathLike': External('os.PathLike'), 'DirEntry': T['DirEntry'], 'environ': External('os.environ')}
  if name == 'glob':
    return glob_module(I, B)
  if name == 'fnmatch':
    return {'fnmatch': B('fnmatch', fn_match(fnmatch.fnmatch)), 'fnmatchcase': B('fnmatchcase', fn_match(fnmatch.fnmatchcase)),
            'filter': B('fnmatch.filter', fn_filter)}
  if name == 'pathlib':
    d = {}
    T['PosixPath'].attrs['__new__'] = StaticM(B('Path', lambda I, a, k: path_new(I, a[1:], k)))
    T['PosixPath'].attrs['__init__'] = B('Path.__init__', lambda I, a, k: None)
    for n in ('Path', 'PurePath', 'PosixPath', 'PurePosixPath'):
      d[n] = T['PosixPath']
    return d
  if name == 'io':
    from .models import b_open
    return {'StringIO': T['StringIO'], 'open': B('open', b_open), 'TextIOWrapper': T['TextIOWrapper'],
            'TextIOBase': T['TextIOWrapper'], 'IOBase': T['TextIOWrapper']}
  if name == 'functools':
    return {'partial': B('partial', lambda I, a, k: Partial(a[0], list(a[1:]), dict(k))), 'reduce': B('reduce', ft_reduce),
            'lru_cache': B('lru_cache', ft_lru), 'cache': B('cache', ft_lru), 'wraps': B('wraps', ft_wraps),
            'cached_property': B('cached_property', lambda I, a, k: Prop(a[0], None, False)),
            'total_ordering': B('total_ordering', lambda I, a, k: a[0]), 'cmp_to_key': B('cmp_to_key', ft_cmp_to_key),
            'singledispatch': B('singledispatch', ft_singledispatch), 'partialmethod': External('functools.partialmethod')}
  if name == 'itertools':
    fns = {'chain': it_chain, 'islice': it_islice, 'product': it_product, 'groupby': it_groupby, 'takewhile': it_takewhile,
           'dropwhile': it_dropwhile, 'filterfalse': it_filterfalse, 'starmap': it_starmap, 'accumulate': it_accumulate,
           'zip_longest': it_zip_longest, 'pairwise': it_pairwise, 'count': it_count, 'repeat': it_repeat, 'cycle': it_cycle,
           'tee': it_tee}
    return {k: B(k, v) for k, v in fns.items()}
  if name == 'operator':
    d = {'itemgetter': B('itemgetter', op_itemgetter), 'attrgetter': B('attrgetter', op_attrgetter),
         'methodcaller': B('methodcaller', op_methodcaller), 'getitem': B('getitem', lambda I, a, k: I.getitem(a[0], a[1])),
         'contains': B('contains', lambda I, a, k: I.contains(a[0], a[1])),
         'not_': B('not_', lambda I, a, k: not I.truth(a[0])), 'truth': B('truth', lambda I, a, k: I.truth(a[0])),
         'is_': B('is_', lambda I, a, k: I.is_(I.force(a[0]), I.force(a[1]))),
         'is_not': B('is_not', lambda I, a, k: not I.is_(I.force(a[0]), I.force(a[1])))}
    for k in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
      d[k] = B(k, op_bin(k))
    d['concat'] = d['add']
    d['or_'], d['and_'], d['xor'] = B('or_', op_bin('or')), B('and_', op_bin('and')), B('xor', op_bin('xor'))
    for k in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
      d[k] = B(k, op_cmp(k))
    return d
  if name in ('typing', 'typing_extensions'):
    d = {'cast': B('cast', lambda I, a, k: a[1]), 'overload': B('overload', lambda I, a, k: a[0]), 'final': B('final', lambda I, a, k: a[0]),
         'TYPE_CHECKING': False, 'no_type_check': B('ntc', lambda I, a, k: a[0]), 'runtime_checkable': B('rc', lambda I, a, k: a[0]),
         'override': B('override', lambda I, a, k: a[0]),
         'TypeVar': B('TypeVar', lambda I, a, k: External('typing.' + a[0])), 'NewType': B('NewType', lambda I, a, k: B('newtype', lambda I, a2, k2: a2[0])),
         'get_type_hints': External('typing.get_type_hints')}
    nt = AClass('NamedTuple', (T['object'],), {}, kind='namedtuple_base')
    d['NamedTuple'] = nt
    d['Protocol'] = AClass('Protocol', (T['object'],), {})
    d['Generic'] = AClass('Generic', (T['object'],), {})
    d['TypedDict'] = T['dict']
    return d
  if name == 're':
    d = {'compile': B('re.compile', lambda I, a, k: re_pattern(I, a[0], arg(a, k, 1, 'flags', 0))),
         'match': B('re.match', re_fn('match')), 'search': B('re.search', re_fn('search')), 'fullmatch': B('re.fullmatch', re_fn('fullmatch')),
         'sub': B('re.sub', lambda I, a, k: re_sub(I, re_pattern(I, a[0], arg(a, k, 4, 'flags', 0)), a[1], a[2], arg(a, k, 3, 'count', 0))),
         'split': B('re.split', lambda I, a, k: re_split(I, re_pattern(I, a[0], 0), a[1])),
         'finditer': B('re.finditer', lambda I, a, k: re_finditer(I, re_pattern(I, a[0], 0), a[1])),
         'findall': B('re.findall', lambda I, a, k: re_findall(I, re_pattern(I, a[0], 0), a[1])),
         'escape': B('re.escape', lambda I, a, k: _re.escape(S.norm(I, I.force(a[0])))),
         'Pattern': T['Pattern'], 'Match': T['Match'], 'error': I.exc_classes['ValueError']}
    for k in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE'):
      d[k] = int(getattr(_re, k))
    return d
  if name == 'importlib':
    def imp(I, a, k):
      n = S.norm(I, I.force(a[0]))
      pkg = S.norm(I, I.force(a[1] if len(a) > 1 else k.get('package', ''))) or ''
      if not isinstance(n, str) or not isinstance(pkg, str):
        raise U('import of a module with a symbolic name')
      dots = len(n) - len(n.lstrip('.'))
      if dots:
        base = pkg.split('.')
        base = base[:len(base) - (dots - 1)]
        n = '.'.join(base + [n[dots:]] if n[dots:] else base)
      I.load(n)
      return I.modules[n]
    return {'import_module': B('import_module', imp)}
  if name == 'pkgutil':
    def iter_modules(I, a, k):
      path = I.force(a[0] if a else k.get('path'))
      prefix = a[1] if len(a) > 1 else k.get('prefix', '')
      out = []
      for p in I.iterate(path):
        p = S.norm(I, p)
        if not isinstance(p, str) or not any(p.startswith(r) for r in I.roots.values() if r):
          raise U('pkgutil.iter_modules')
        import os as _os
        for f in sorted(_os.listdir(p)):
          if f.endswith('.py') and f != '__init__.py':
            out.append((None, prefix + f[:-3], False))
          elif _os.path.isdir(_os.path.join(p, f)) and _os.path.exists(_os.path.join(p, f, '__init__.py')):
            out.append((None, prefix + f, True))
      cls = c_namedtuple(I, ['ModuleInfo', 'module_finder name ispkg'], {})
      return AIter(iter([I.call(cls, list(x), {}) for x in out]))
    return {'iter_modules': B('iter_modules', iter_modules)}
  if name == 'sys':
    out, err, inp = (AObj(T['stdstream']) for _ in range(3))
    out.data, err.data, inp.data = 'stdout', 'stderr', 'stdin'

    def sysexit(I, a, k):
      I.event('external', 'sys.exit', I.where())
      I.throw('SystemExit', *a)
    return {'exit': B('sys.exit', sysexit), 'stdout': out, 'stderr': err, 'stdin': inp, '__stdout__': out, '__stderr__': err,
            'maxsize': 2 ** 63 - 1, 'version_info': (3, 12, 3, 'final', 0), 'platform': 'linux', 'byteorder': 'little',
            'intern': B('intern', lambda I, a, k: a[0]), 'argv': AList(['prog'])}
  if name == 'dataclasses':
    return {'dataclass': B('dataclass', dc_dataclass), 'field': B('field', dc_field), 'asdict': B('asdict', dc_asdict),
            'astuple': B('astuple', lambda I, a, k: tuple(I.force(a[0]).attrs.values())), 'fields': B('fields', dc_fields),
            'replace': B('replace', dc_replace), 'is_dataclass': B('is_dataclass', lambda I, a, k: isinstance(a[0], (AObj, AClass)) and
                                                                   (a[0].cls if isinstance(a[0], AObj) else a[0]).kind == 'dataclass')}
  if name == 'enum':
    e = AClass('Enum', (T['object'],), {'@members': []}, kind='enum')
    ie = AClass('IntEnum', (T['int'], e) if False else (e,), {'@members': []}, kind='intenum')
    se = AClass('StrEnum', (e,), {'@members': []}, kind='strenum')
    return {'Enum': e, 'IntEnum': ie, 'StrEnum': se, 'auto': T['auto'], 'unique': B('unique', lambda I, a, k: a[0]),
            'Flag': External('enum.Flag')}
  if name == 'abc':
    return {'ABC': AClass('ABC', (T['object'],), {}), 'ABCMeta': T['type'], 'abstractmethod': B('abstractmethod', lambda I, a, k: a[0]),
            'abstractproperty': B('ap', lambda I, a, k: Prop(a[0]))}
  if name == 'contextlib':
    return {'contextmanager': B('contextmanager', cl_contextmanager), 'suppress': B('suppress', cl_suppress), 'closing': B('closing', cl_closing),
            'nullcontext': B('nullcontext', cl_nullcontext), 'redirect_stdout': B('redirect_stdout', cl_redirect('out')),
            'ExitStack': B('ExitStack', cl_exitstack)}
  if name == 'logging':
    d = {k: B('logging.' + k, v) for k, v in LOG.items()}
    d.update({'getLogger': B('getLogger', get_logger), 'basicConfig': B('basicConfig', lambda I, a, k: None),
              'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50, 'Logger': T['Logger'],
              'NullHandler': B('NullHandler', lambda I, a, k: None), 'StreamHandler': B('StreamHandler', lambda I, a, k: None)})
    return d
  if name == 'warnings':
    return {'warn': B('warnings.warn', lambda I, a, k: I.event('log', 'warning', I.where())),
            'simplefilter': B('sf', lambda I, a, k: None), 'filterwarnings': B('fw', lambda I, a, k: None)}
  if name == 'types':
    def ns(I, a, k):
      o = AObj(T['SimpleNamespace'])
      o.attrs.update(k)
      return o

    def mp(I, a, k):
      d = ADict(dict(I.force(a[0]).d))
      d.ro = True
      return d
    return {'SimpleNamespace': B('SimpleNamespace', ns), 'MappingProxyType': B('MappingProxyType', mp),
            'FunctionType': T['function'], 'MethodType': T['method'], 'NoneType': T['NoneType'], 'ModuleType': T['module'],
            'GeneratorType': T['generator'], 'LambdaType': T['function'],
            'BuiltinFunctionType': T['builtin_function_or_method']}
  if name == 'copy':
    return {'copy': B('copy', cp_copy), 'deepcopy': B('deepcopy', cp_deepcopy)}
  if name == 'math':
    d = {k: B('math.' + k, math_fn(k)) for k in dir(math) if callable(getattr(math, k)) and not k.startswith('_')}
    d.update({k: getattr(math, k) for k in ('pi', 'e', 'inf', 'nan', 'tau')})
    return d
  if name == 'string':
    import string
    return {k: getattr(string, k) for k in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits',
                                            'printable', 'punctuation', 'whitespace')}
  if name == 'collections.abc':
    return {k: External('collections.abc.' + k) for k in ('Iterable', 'Sequence', 'Mapping', 'Callable', 'Iterator', 'Generator',
                                                          'MutableMapping', 'Collection', 'Set', 'Hashable', 'Sized', 'Container',
                                                          'MutableSequence')}
  if name == 'textwrap':
    def host(fn):
      def h(I, a, k):
        v = [S.norm(I, I.force(x)) for x in a]
        if all(isinstance(x, (str, int)) for x in v):
          import textwrap
          return host_to_abs(I, getattr(textwrap, fn)(*v, **k))
        raise U('textwrap.' + fn)
      return h
    return {k: B(k, host(k)) for k in ('dedent', 'indent', 'wrap', 'fill', 'shorten')}
  if name == 'inspect':
    return {}
  if name == 'builtins':
    return dict(I.builtins)
  return None


def external_module(I, name):
  m = Module(name)
  m.external = True
  I.modules[name] = m


  v = build(I, name)
  if v is not None:
    m.vars.update(v)
  else:
    I.unknown_modules.add(name)
  m.vars['__name__'] = name
  m.birth = 0 if v is None else m.birth
  return m


def external_attr(I, m, name):
  if name in m.vars:
    return m.vars[name]
  if m.name == 'sys' and name == 'modules':
    return External('sys.modules')
  return External(m.name + '.' + name)


def call_external(I, f, args, kwargs):
  name = f.name
  head = name.split('.')[0]
  if head in PURE_HOST:
    vals = [S.norm(I, I.force(a)) for a in args]
    kw = {k: S.norm(I, I.force(a)) for k, a in kwargs.items()}
    if all(x is None or isinstance(x, (bool, int, float, str, bytes)) for x in list(vals) + list(kw.values())):
      import importlib
      try:
        o = importlib.import_module(head)
        for p in name.split('.')[1:]:
          o = getattr(o, p)
      except (ImportError, AttributeError):
        raise U('call of ' + name)
      try:
        return host_to_abs(I, o(*vals, **kw))
      except ValueError as e:
        I.host_error(e)
    raise U('call of %s with symbolic arguments' % name)
  if head == 'typing':
    return f
  I.event('external', name, I.where())
  if name in ('os._exit', 'os.abort', 'os.kill', 'os.killpg'):
    I.throw('SystemExit', 'process terminated by ' + name)
  raise U('call of ' + name)
