"""Text and numbers that depend on input columns."""
import itertools
import random
import re
import string as _string

from . import chars as C
from .region import EMPTY_DELTA
from .values import *

TABLE_LIMIT = 20000


def _U():
  from .interp import Undecided
  return Undecided


# ------------------------------------------------------------------ rendering

class RenderError(Exception):
  pass


def holds(delta, asg):
  box, clauses, preds = delta
  for c, m in box:
    if not m & C.BIT[asg[c]]:
      return False
  for cl in clauses:
    if not any(m & C.BIT[asg[c]] for c, m in cl):
      return False
  for k, v in preds:
    if bool(render(k, asg)) != v:
      return False
  return True


def region_holds(region, asg):
  for c, m in region.box.items():
    if c in asg and not m & C.BIT[asg[c]]:
      return False
  for cl in region.clauses:
    if not any(c not in asg or m & C.BIT[asg[c]] for c, m in cl):
      return False
  for k, v in region.preds.items():
    if all(c in asg for c in cols_of(k)):
      try:
        if bool(render(k, asg)) != v:
          return False
      except RenderError:
        return False
  return True


def render(v, asg):
  """the host value an abstract value denotes for one assignment of columns"""
  if isinstance(v, SStr):
    out = []
    for e in v.elems:
      if isinstance(e, str):
        out.append(e)
      elif isinstance(e, Col):
        out.append(asg[e])
      elif isinstance(e, MCol):
        out.append(e.image(asg[e.col]))
      else:
        r = render(e, asg)
        out.append(r if isinstance(r, str) else str(r))
    return ''.join(out)
  if isinstance(v, Term):
    if v.fn == 'u':
      return render(v.args[0], asg)
    if v.fn == 'delta':
      return holds(v.args[0], asg)
    f = FN.get(v.fn)
    if f is None:
      raise RenderError(v.fn)
    try:
      return f(*[render(a, asg) for a in v.args])
    except RenderError:
      raise
    except Exception as e:
      raise RenderError(repr(e))
  if isinstance(v, Union):
    for a in v.alts:
      if holds(a.delta, asg):
        return render(a.value, asg)
    raise RenderError('no alternative')
  if isinstance(v, tuple):
    return tuple(render(x, asg) for x in v)
  return v


def _strip(s, ch, side):
  return s.strip(ch) if side == 'both' else s.lstrip(ch) if side == 'l' else s.rstrip(ch)


def _ok(f, *a):
  try:
    f(*a)
    return True
  except ValueError:
    return False


def thaw(v):
  if isinstance(v, tuple):
    if v[0] == 'dict':
      return {k: thaw(x) for k, x in v[1]}
    return [thaw(x) for x in v[1]]
  return v


def _json(v, kw):
  import json
  return json.dumps(thaw(v), **dict(kw))


FN = {
    'strip': _strip,
    'm': lambda name, s, *a: getattr(s, name)(*a),
    'int': int, 'float': float, 'fmt': format, 'fmts': format, 'str': str, 'repr': repr, 'ord': ord, 'chr': chr,
    'int_ok': lambda *a: _ok(int, *a), 'float_ok': lambda s: _ok(float, s),
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'truediv': lambda a, b: a / b, 'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    'pow': lambda a, b: a ** b, 'neg': lambda a: -a, 'round': round, 'abs': abs, 'len': len,
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'in': lambda a, b: a in b,
    'truth': bool, 'slice': lambda s, i: s[i], 'slc': lambda s, a, b, c: s[a:b:c],
    'json': _json, 'tok': lambda n: '<%s>' % n, 'min': min, 'max': max, 'bool': bool,
    'trunc': int, 'tofloat': float, 'divmod0': lambda a, b: divmod(a, b)[0],
    're': lambda pat, flags, mode, s: getattr(re.compile(pat, flags), mode)(s) is not None,
    'resub': lambda pat, flags, rep, n, s: re.compile(pat, flags).sub(rep, s, count=n),
    'table': lambda names, rows, opts: '+--+\n|TABLE' + repr((names, rows, opts)) + '|\n+--+',
    'html': lambda *a: 'HTML' + repr(a),
    'colored': lambda text, *a: text if not any(a) else '\x1b[%r]%s\x1b[0m' % (a, text),
    'sorted': lambda s: ''.join(sorted(s)),
    'hash': hash, 'math': lambda name, *a: getattr(__import__('math'), name)(*a),
    'dec': lambda s: str(s),
}


# ------------------------------------------------------------------ basics

def strlike(v):
  return isinstance(v, (str, SStr)) or (isinstance(v, Union) and union_str(v))


def union_str(v):
  return isinstance(v, Union) and all(strlike(a.value) for a in v.alts)


def norm(I, v):
  """replace columns the region has pinned to one character"""
  if isinstance(v, SStr):
    box = I.ctx.region.box
    out = []
    changed = False
    for e in v.elems:
      if isinstance(e, Col):
        m = box.get(e)
        if m is not None and not m & (m - 1):
          out.append(chr(m.bit_length() - 1))
          changed = True
          continue
      elif isinstance(e, MCol):
        m = box.get(e.col)
        if m is not None and not m & (m - 1):
          out.append(e.image(chr(m.bit_length() - 1)))
          changed = True
          continue
      elif isinstance(e, Term):
        r = norm_term(I, e)
        if r is not e:
          changed = True
          if isinstance(r, str):
            out.extend(r)
          elif isinstance(r, SStr):
            out.extend(r.elems)
          elif isinstance(r, Term):
            out.append(r)
          elif isinstance(r, Union):
            out.append(Term('str', 'u', (r,)))
          else:
            out.extend(str(r))
          continue
      out.append(e)
    if changed:
      return mkstr(out)
    return v
  if isinstance(v, Term):
    return norm_term(I, v)
  return v


def norm_term(I, t):
  box = I.ctx.region.box
  cs = cols_of(t)
  if t.fn in ('table', 'json', 'tok', 'html', 'colored', 'delta'):
    return t
  for c in cs:
    m = box.get(c)
    if m is None or m & (m - 1):
      break
  else:
    if cs:
      try:
        return render(t, {c: C.single(box[c]) for c in cs})
      except RenderError:
        return t
  if t.fn == 'strip':
    r = strip_now(I, t.args[0], t.args[1], t.args[2])
    if r is not None:
      return r
  elif t.fn == 'u':
    u = t.args[0]
    live = [a for a in u.alts if I.ctx.region.assume(a.delta) is not None]
    if len(live) == 1:
      return norm(I, live[0].value)
  return t


def emask(I, e):
  """the characters an element can be"""
  if isinstance(e, str):
    return C.BIT.get(e, 0)
  if isinstance(e, Col):
    return I.ctx.region.box.get(e, C.FULL)
  m = 0
  for ch in C.chars(I.ctx.region.box.get(e.col, C.FULL)):
    m |= C.BIT.get(e.image(ch), 0)
  return m


def lit(e, m):
  """e's character is in m: True, False or a literal (column, mask)"""
  if isinstance(e, str):
    return bool(C.BIT.get(e, 0) & m)
  if isinstance(e, Col):
    return (e, m)
  pm = 0
  for i in range(C.N):
    if C.BIT.get(e.image(chr(i)), 0) & m:
      pm |= 1 << i
  return (e.col, pm)


def conj(lits):
  """delta for a conjunction of literals, or None when false"""
  box = {}
  for l in lits:
    if l is True:
      continue
    if l is False:
      return None
    c, m = l
    box[c] = box.get(c, C.FULL) & m
    if not box[c]:
      return None
  return (tuple(box.items()), (), ())


def disj(lits):
  """delta for a disjunction of literals, or None when false"""
  out = {}
  for l in lits:
    if l is True:
      return EMPTY_DELTA
    if l is False:
      continue
    c, m = l
    out[c] = out.get(c, 0) | m
  items = [(c, m) for c, m in out.items() if m]
  if not items:
    return None
  for c, m in items:
    if m == C.FULL:
      return EMPTY_DELTA
  if len(items) == 1:
    return (tuple(items), (), ())
  return ((), (tuple(items),), ())


def nlit(l):
  if l is True or l is False:
    return not l
  return (l[0], C.FULL & ~l[1])


def branch_all(I, lits):
  """all literals hold? (host bool; partitions)"""
  t = conj(lits)
  f = disj([nlit(l) for l in lits])
  if t is None:
    return False
  if f is None:
    return True
  return I.branch([t], [f])


def branch_any(I, lits):
  return not branch_all(I, [nlit(l) for l in lits])


def concat(I, parts):
  out = []
  for p in parts:
    if isinstance(p, str):
      out.extend(p)
    elif isinstance(p, SStr):
      out.extend(p.elems)
    elif isinstance(p, Union):
      out.append(Term('str', 'u', (p,)))
    elif isinstance(p, Term):
      out.append(p)
    else:
      I.throw('TypeError', 'can only concatenate str')
  if len(out) == 1 and isinstance(out[0], Term) and out[0].fn == 'u':
    return out[0].args[0]
  return mkstr(out)


def sstr(t):
  return SStr((t,))


# ------------------------------------------------------------------ strip

def strip_mask(ch):
  return C.WS if ch is None else C.of(ch)


def strip_now(I, s, ch, side):
  """strip without partitioning, or None when the ends are not determined"""
  s = norm(I, s)
  el = list(elems_of(s))
  m = strip_mask(ch)
  if side in ('both', 'l'):
    while el:
      if isinstance(el[0], Term):
        return None
      em = emask(I, el[0])
      if not em & m:
        break
      if em & ~m:
        if side == 'both' and all(not isinstance(e, Term) and not emask(I, e) & ~m for e in el[1:]):
          return None
        return None
      el.pop(0)
  if side in ('both', 'r'):
    while el:
      if isinstance(el[-1], Term):
        return None
      em = emask(I, el[-1])
      if not em & m:
        break
      if em & ~m:
        return None
      el.pop()
  return mkstr(el)


def strip(I, s, ch, side):
  r = strip_now(I, s, ch, side)
  if r is not None:
    return r
  s = norm(I, s)
  # drop what is certainly stripped, keep the rest as a term
  return sstr(Term('str', 'strip', (s, ch, side)))


def strip_force(I, s, ch, side):
  """partition on how many characters go"""
  el = list(elems_of(s))
  m = strip_mask(ch)
  nm = C.FULL & ~m
  if side in ('both', 'l'):
    ds, ks = [], []
    for k in range(len(el) + 1):
      lits = [lit(e, m) for e in el[:k]]
      if k < len(el):
        lits.append(lit(el[k], nm))
      d = conj(lits)
      if d is not None:
        ds.append(d)
        ks.append(k)
      if k < len(el) and lit(el[k], m) is False:
        break
    k = ks[I.choose(ds)]
    el = el[k:]
  if side in ('both', 'r'):
    ds, ks = [], []
    for k in range(len(el) + 1):
      lits = [lit(e, m) for e in el[len(el) - k:]]
      if k < len(el):
        lits.append(lit(el[len(el) - 1 - k], nm))
      d = conj(lits)
      if d is not None:
        ds.append(d)
        ks.append(k)
      if k < len(el) and lit(el[len(el) - 1 - k], m) is False:
        break
    if ks:
      k = ks[I.choose(ds)]
      el = el[:len(el) - k]
  return norm(I, mkstr(el))


# ------------------------------------------------------------------ fixing the length

def fix(I, s, limit=40):
  """partition until s is a plain sequence of characters and columns;
  None when that is out of reach"""
  s = norm(I, s)
  n = 0
  while isinstance(s, SStr) and not s.fixed():
    n += 1
    if n > limit:
      return None
    for i, e in enumerate(s.elems):
      if isinstance(e, Term):
        r = expand(I, e)
        if r is None:
          return None
        s = norm(I, mkstr(s.elems[:i] + elems_of(r) + s.elems[i + 1:]))
        break
  return s


def expand(I, t):
  if t.fn == 'u':
    v = I.force(t.args[0])
    if not isinstance(v, (str, SStr)):
      v = str_(I, v)
    return v
  if t.fn == 'strip':
    inner = fix(I, t.args[0])
    if inner is None:
      return None
    if len(elems_of(inner)) > 45:
      return None
    return strip_force(I, inner, t.args[1], t.args[2])
  if t.fn == 'fmt':
    r = fmt_fix(I, t.args[0], t.args[1])
    if r is not None:
      return r
  if t.fn == 'm' and t.args[0] in ('upper', 'lower', 'casefold', 'swapcase'):
    inner = fix(I, t.args[1])
    if inner is None:
      return None
    return method(I, inner, t.args[0], [], {})
  if t.fn == 'repr':
    inner = fix(I, t.args[0])
    if inner is None:
      return None
    bad = C.FULL & ~C.PRED['isprintable'] | C.of("'\\")
    if branch_all(I, [lit(e, C.FULL & ~bad) for e in elems_of(inner)]):
      return concat(I, ["'", inner, "'"])
    return None
  if t.fn in ('tok', 'table', 'json', 'html'):
    return None
  v = enumerate_values(I, t, 600)
  if v is None:
    return None
  return v if isinstance(v, str) else str(v)


def table_of(I, t, limit=TABLE_LIMIT):
  """decision boxes of a term: list of (value, box items) or None"""
  region = I.ctx.region
  cs = sorted(cols_of(t))
  size = 1
  masks = []
  for c in cs:
    m = region.box.get(c, C.FULL)
    masks.append(m)
    size *= bin(m).count('1')
    if size > limit:
      return None
  key = (t, tuple(masks), limit)
  hit = _tables.get(key)
  if hit is not None:
    return hit
  asg = {}

  def rec(i):
    if i == len(cs):
      return ('v', render(t, asg))
    groups = {}
    for ch in C.chars(masks[i]):
      asg[cs[i]] = ch
      sub = rec(i + 1)
      k = _vkey(sub)
      if k in groups:
        groups[k][0] |= C.BIT[ch]
      else:
        groups[k] = [C.BIT[ch], sub]
    if len(groups) == 1:
      g = next(iter(groups.values()))
      return g[1]
    return ('n', i, tuple((g[0], g[1]) for g in groups.values()))
  try:
    tree = rec(0)
  except RenderError:
    return None
  out = []

  def walk(node, box):
    if node[0] == 'v':
      out.append((node[1], tuple(box)))
      return
    for m, sub in node[2]:
      walk(sub, box + [(cs[node[1]], m)])
  walk(tree, [])
  _tables[key] = out
  return out


_tables = {}


def _vkey(n):
  if n[0] == 'v':
    return ('v', type(n[1]), repr(n[1]))
  return ('n', n[1], tuple((m, _vkey(s)) for m, s in n[2]))


def enumerate_values(I, t, max_boxes):
  tab = table_of(I, t)
  if tab is None or len(tab) > max_boxes:
    return None
  i = I.choose([(b, (), ()) for _, b in tab])
  return tab[i][0]


def decide_term(I, t):
  """truth of a boolean term; partitions"""
  t = norm_term(I, t)
  if not isinstance(t, Term):
    return bool(t)
  known = I.ctx.region.preds.get(t)
  if known is not None:
    return known
  th = threshold(I, t)
  if th is not None:
    tr, fa = th
    return I.branch(tr, fa)
  tab = table_of(I, t)
  if tab is not None and len(tab) <= 400:
    tr = [(b, (), ()) for v, b in tab if v]
    fa = [(b, (), ()) for v, b in tab if not v]
    return I.branch(tr, fa)
  I.n_opaque += 1
  return I.branch([((), (), ((t, True),))], [((), (), ((t, False),))])


def truth_term(I, t):
  if t.ty == 'bool':
    return decide_term(I, t)
  return decide_term(I, Term('bool', 'truth', (t,)))


REPS = '05912AZTNSEWxe+-._ \tifna'


def needles(preds):
  """constant words of two and more characters that tests compare a symbolic text with"""
  out, seen = [], set()

  def walk(t, depth):
    if depth > 6 or not isinstance(t, Term) or t in seen:
      return
    seen.add(t)
    args = t.args if isinstance(t.args, tuple) else ()
    for a in args:
      if isinstance(a, str) and 2 <= len(a) <= 24 and a not in out:
        out.append(a)
      elif isinstance(a, Term):
        walk(a, depth + 1)
      elif isinstance(a, SStr) and len(a.elems) == 1 and isinstance(a.elems[0], Term) and a.elems[0].fn != 'table':
        walk(a.elems[0], depth + 1)
  for k in preds:
    walk(k, 0)
  return out


def word_in_runs(w, cs, pools):
  """the word as often as it fits into neighbouring columns that may hold it"""
  asg, i = {}, 0
  while i < len(cs):
    if i + len(w) <= len(cs) and all(ch in pools[i + k][1] for k, ch in enumerate(w)):
      for k, ch in enumerate(w):
        asg[cs[i + k]] = ch
      i += len(w)
    else:
      reps, full = pools[i]
      asg[cs[i]] = '0' if '0' in full else ' ' if ' ' in full else reps[0]
      i += 1
  return asg


def sample_assignments(region, cs, n, rng):
  """assignments of columns cs inside region (box and clauses and preds checked)"""
  cs = sorted(cs)
  extra = set()
  for cl in region.clauses:
    if any(c in cs for c, _ in cl):
      extra |= {c for c, _ in cl}
  for k in region.preds:
    kc = cols_of(k)
    if any(c in cs for c in kc):
      extra |= kc
  allc = sorted(set(cs) | extra)
  pools = []
  for c in allc:
    m = region.box.get(c, C.FULL)
    reps = [ch for ch in REPS if C.BIT[ch] & m]
    full = list(C.chars(m))
    pools.append((reps or full, full))
  out = []
  words = needles(region.preds) if region.preds else ()
  if words:
    # texts in which the words the tests look for are repeated
    for w in words[:12]:
      for at in range(min(4, len(w))):
        asg = {}
        for k, (c, (reps, full)) in enumerate(zip(allc, pools)):
          ch = w[(k + at) % len(w)]
          asg[c] = ch if ch in full else ('0' if '0' in full else ' ' if ' ' in full else reps[0])
        if region_holds(region, asg):
          out.append(asg)
      runs = word_in_runs(w, allc, pools)
      if runs is not None and region_holds(region, runs):
        out.append(runs)
    out = out[:n]
  styles = ('0123456789', ' ', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', '0', '0123456789 ', None, None)
  tries = 0
  while len(out) < n and tries < 12 * n + 60:
    tries += 1
    st = styles[tries % len(styles)]
    asg = {}
    for c, (reps, full) in zip(allc, pools):
      if st is not None:
        p = [ch for ch in st if ch in full] or reps
      else:
        p = reps if rng.random() < .7 else full
      asg[c] = rng.choice(p)
    # repair clauses greedily
    for cl in region.clauses:
      if all(c in asg for c, _ in cl) and not any(m & C.BIT[asg[c]] for c, m in cl):
        c, m = rng.choice(cl)
        mm = m & region.box.get(c, C.FULL)
        if mm:
          asg[c] = rng.choice(list(C.chars(mm)))
    if region_holds(region, asg):
      out.append(asg)
  return out


def preds_feasible(region, preds):
  """is there an assignment for the new opaque tests?  (False only when an
  exhaustive table says so)"""
  for k, v in preds:
    cs = sorted(cols_of(k))
    size = 1
    for c in cs:
      size *= bin(region.box.get(c, C.FULL)).count('1')
      if size > 3000:
        break
    if size > 3000:
      continue
    ok = False
    others = [(p, w) for p, w in region.preds.items() if cols_of(p) <= set(cs)]
    for combo in itertools.product(*[list(C.chars(region.box.get(c, C.FULL))) for c in cs]):
      asg = dict(zip(cs, combo))
      try:
        if bool(render(k, asg)) == v and all(bool(render(p, asg)) == w for p, w in others):
          ok = True
          break
      except RenderError:
        ok = True
        break
    if not ok:
      return False
  return True


# ------------------------------------------------------------------ numbers

POW10 = {10 ** k: k for k in range(0, 12)}


def digits_of(I, t):
  """t as (kind, digit elements, exponent): value = digits * 10**exponent"""
  if not isinstance(t, Term):
    return None
  if t.fn in ('int', 'float') and len(t.args) == 1 and isinstance(t.args[0], SStr):
    s = t.args[0]
    for e in s.elems:
      if isinstance(e, Term) or emask(I, e) & ~C.DIGITS:
        return None
    if len(s.elems) > 15:
      return None
    return (t.fn, s.elems, 0)
  if t.fn in ('tofloat', 'trunc') and isinstance(t.args[0], Term):
    r = digits_of(I, t.args[0])
    if r is None:
      return None
    if t.fn == 'tofloat':
      return ('float', r[1], r[2])
    if r[2] >= 0:
      return ('int', r[1], r[2])
    return ('int', r[1][:r[2]] or ('0',), 0)
  if t.fn in ('truediv', 'mul', 'floordiv', 'mod') and isinstance(t.args[0], Term):
    c = t.args[1]
    if isinstance(c, bool) or not isinstance(c, (int, float)) or c not in POW10:
      return None
    k = POW10[c]
    r = digits_of(I, t.args[0])
    if r is None:
      return None
    kind, el, e = r
    if t.fn == 'truediv':
      return ('float', el, e - k)
    if t.fn == 'mul':
      if kind == 'float' and e < 0:
        return None
      return ('float' if kind == 'float' or isinstance(c, float) else 'int', el, e + k)
    if kind != 'int' or e < 0 or isinstance(c, float):
      return None
    el = el + ('0',) * e
    if t.fn == 'floordiv':
      return ('int', el[:len(el) - k] or ('0',), 0)
    return ('int', el[max(0, len(el) - k):] or ('0',), 0)
  if t.fn == 'mul' and isinstance(t.args[1], Term):
    return digits_of(I, Term(t.ty, 'mul', (t.args[1], t.args[0])))
  return None


SPEC = re.compile(r'^(\+?)(0?)(\d*)(?:\.(\d+))?([df]?)$')


def fmt_fix(I, num, spec):
  r = digits_of(I, num)
  if r is None:
    return None
  kind, el, e = r
  m = SPEC.match(spec)
  if not m:
    return None
  plus, zero, width, prec, ty = m.groups()
  el = list(el)
  if kind == 'int' and ty != 'f':
    if prec is not None:
      return None
    body = lead_zero(I, el + ['0'] * e)
  elif prec is not None or ty == 'f':
    if ty != 'f' and kind == 'int':
      return None
    if ty != 'f':
      return None
    p = int(prec) if prec is not None else 6
    dec = max(0, -e)
    if e > 0:
      el = el + ['0'] * e
    if p < dec:
      return None
    while len(el) <= dec:
      el.insert(0, '0')
    ip = lead_zero(I, el[:len(el) - dec])
    fp = el[len(el) - dec:] + ['0'] * (p - dec)
    body = ip + (['.'] + fp if p else [])
  else:
    if ty == 'd':
      return None
    dec = max(0, -e)
    if dec > 4:
      return None
    if e > 0:
      el = el + ['0'] * e
    while len(el) <= dec:
      el.insert(0, '0')
    ip = lead_zero(I, el[:len(el) - dec])
    fp = list(el[len(el) - dec:])
    while len(fp) > 1:
      if branch_all(I, [lit(fp[-1], C.BIT['0'])]):
        fp.pop()
      else:
        break
    body = ip + ['.'] + (fp or ['0'])
  if plus:
    body = ['+'] + body
  if width and len(body) < int(width):
    pad = int(width) - len(body)
    if zero:
      body = (['+'] if plus else []) + ['0'] * pad + (body[1:] if plus else body)
    else:
      body = [' '] * pad + body
  return mkstr(body)


def lead_zero(I, el):
  el = list(el)
  while len(el) > 1:
    if branch_all(I, [lit(el[0], C.BIT['0'])]):
      el.pop(0)
    else:
      break
  if not el:
    return ['0']
  return el


def threshold(I, t):
  """comparison of a digit number with a constant, digit by digit"""
  if t.fn == 'truth':
    t = Term('bool', 'ne', (t.args[0], 0))
  if t.fn not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    return None
  a, b = t.args
  op = t.fn
  if isinstance(b, Term) and not isinstance(a, Term):
    a, b = b, a
    op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
  if not isinstance(a, Term) or isinstance(b, Term) or not isinstance(b, (int, float)):
    return None
  r = digits_of(I, a)
  if r is None:
    return None
  from fractions import Fraction
  kind, el, e = r
  # float division by a power of ten is compared exactly on multiples; only integers of the last place matter
  bound = Fraction(b) / (Fraction(10) ** e)
  n = len(el)
  top = 10 ** n - 1
  if op in ('eq', 'ne'):
    if e < 0 and kind == 'float':
      k = None
      for cand in (int(bound), int(bound) + 1):
        if 0 <= cand <= top and cand / (10 ** -e) == b:
          k = cand
      if k is None:
        return ([], [EMPTY_DELTA]) if op == 'eq' else ([EMPTY_DELTA], [])
    else:
      if bound.denominator != 1 or not 0 <= bound <= top:
        return ([], [EMPTY_DELTA]) if op == 'eq' else ([EMPTY_DELTA], [])
      k = int(bound)
    ds = str(k).rjust(n, '0')
    lits = [lit(x, C.BIT[d]) for x, d in zip(el, ds)]
    tr, fa = conj(lits), disj([nlit(l) for l in lits])
    tr = [tr] if tr is not None else []
    fa = [fa] if fa is not None else []
    return (tr, fa) if op == 'eq' else (fa, tr)
  if e < 0 and kind == 'float':
    # find the least k with k/10^-e >= b (or > b) by the host's own arithmetic
    den = 10 ** -e
    k = max(0, min(top + 1, int(bound)))
    f = (lambda x: x / den >= b) if op in ('lt', 'ge') else (lambda x: x / den > b)
    while k > 0 and f(k - 1):
      k -= 1
    while k <= top and not f(k):
      k += 1
  else:
    import math
    k = math.ceil(bound) if op in ('lt', 'ge') else math.floor(bound) + 1
  # value >= k  <=>  not less
  if k <= 0:
    ge, lt = [EMPTY_DELTA], []
  elif k > top:
    ge, lt = [], [EMPTY_DELTA]
  else:
    ds = str(k).rjust(n, '0')
    ge, lt = [], []
    for i in range(n):
      pre = [lit(x, C.BIT[d]) for x, d in zip(el[:i], ds[:i])]
      hi = C.of('0123456789'[int(ds[i]) + 1:])
      lo = C.of('0123456789'[:int(ds[i])])
      for m, acc in ((hi, ge), (lo, lt)):
        if m:
          d = conj(pre + [lit(el[i], m)])
          if d is not None:
            acc.append(d)
    d = conj([lit(x, C.BIT[c]) for x, c in zip(el, ds)])
    if d is not None:
      ge.append(d)
  return (ge, lt) if op in ('ge', 'gt') else (lt, ge)


def to_number(I, v, kind, base=None):
  """int(v) / float(v)"""
  if isinstance(v, Union):
    return I.lift(lambda x: to_number(I, x, kind, base), v)
  v = norm(I, v)
  if isinstance(v, Term):
    if v.ty == kind:
      return v
    if v.ty == 'bool':
      return Term(kind, 'trunc' if kind == 'int' else 'tofloat', (v,))
    return Term(kind, 'trunc' if kind == 'int' else 'tofloat', (v,))
  host = int if kind == 'int' else float
  if not isinstance(v, SStr):
    if v is None or not isinstance(v, (bool, int, float, str, bytes)):
      if isinstance(v, AObj):
        m = I.special(v, '__%s__' % kind)
        if m is not None:
          return I.call(m, [], {})
      I.throw('TypeError', '%s() argument must be a string or a real number' % kind)
    try:
      return host(v, base) if base is not None else host(v)
    except (ValueError, OverflowError, TypeError) as e:
      I.host_error(e)
  f = fix(I, v)
  if f is not None:
    v = f
    if isinstance(v, str):
      return to_number(I, v, kind, base)
    if base not in (None, 10):
      okt = Term('bool', 'int_ok', (v, base))
      if not decide_term(I, okt):
        I.throw('ValueError', concat(I, ['invalid literal for int() with base %d: ' % base, repr_(I, v)]))
      return Term('int', 'int', (v, base))
    el = v.elems
    lits = [lit(e, C.DIGITS) for e in el]
    alld = conj(lits)
    rest = disj([nlit(l) for l in lits])
    if alld is not None and (rest is None or I.ctx.region.assume(rest) is None):
      return Term(kind, kind, (v,))
    okt = Term('bool', kind + '_ok', (v,))
    known = I.ctx.region.preds.get(okt)
    if known is None:
      ds = []
      if alld is not None:
        ds.append(alld)
      k = len(ds)
      for val in (True, False):
        ds.append((rest[0], rest[1], ((okt, val),)))
      i = I.choose(ds)
      good = i < k or i == k
    else:
      good = known
      if good and alld is not None:
        I.choose([alld, rest])
  else:
    okt = Term('bool', kind + '_ok', (v,))
    good = decide_term(I, okt)
  if not good:
    what = 'invalid literal for int() with base 10: ' if kind == 'int' else 'could not convert string to float: '
    I.throw('ValueError', concat(I, [what, repr_(I, v)]))
  return Term(kind, kind, (norm(I, v),)) if not isinstance(norm(I, v), str) else host(norm(I, v))


# ------------------------------------------------------------------ comparison

def equal(I, a, b):
  a, b = norm(I, a), norm(I, b)
  sa, sb = isinstance(a, (str, SStr)), isinstance(b, (str, SStr))
  if sa or sb:
    if not (sa and sb):
      if isinstance(a, AObj) or isinstance(b, AObj):
        o = a if isinstance(a, AObj) else b
        if o.cls.kind == 'strenum':
          return equal(I, o.attrs['value'], b if o is a else a)
      return False
    return eq_str(I, a, b)
  if isinstance(a, Term) or isinstance(b, Term):
    o = b if isinstance(a, Term) else a
    if not isinstance(o, (int, float, Term)):
      return False
    if a == b:
      return True
    return decide_term(I, Term('bool', 'eq', (a, b)))
  if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, AList) and isinstance(b, AList):
    return len(a) == len(b) and all(I.eq(x, y) for x, y in zip(a, b))
  if isinstance(a, ADict) and isinstance(b, ADict):
    if len(a.d) != len(b.d):
      return False
    for k, v in a.d.items():
      f, w = I.M.dict_find(I, b, k)
      if not f or not I.eq(v, w):
        return False
    return True
  if isinstance(a, ASet) and isinstance(b, ASet):
    return len(a.items) == len(b.items) and all(I.M.contains(I, b, x) for x in a.items)
  if isinstance(a, AObj) or isinstance(b, AObj):
    if isinstance(a, AObj) and isinstance(b, AObj) and a is not b:
      return I.M.obj_equal(I, a, b)
    if a is b:
      return True
    o, x = (a, b) if isinstance(a, AObj) else (b, a)
    if o.cls.kind == 'namedtuple' and isinstance(x, tuple):
      return equal(I, tuple(o.attrs[k] for k in I.class_attr(o.cls, '_fields')), x)
    if o.cls.kind == 'intenum':
      return equal(I, o.attrs['value'], x)
    return False
  if a is None or b is None:
    return a is b
  try:
    return bool(a == b)
  except Exception:
    return a is b


def eq_str(I, a, b):
  if a == b:
    return True
  if isinstance(a, str) and isinstance(b, str):
    return False
  for x, y in ((a, b), (b, a)):
    if x == '':
      return not truth_str(I, y)
  fa = isinstance(a, str) or a.fixed()
  fb = isinstance(b, str) or b.fixed()
  if not (fa and fb):
    # quick refutation: minimal length / impossible prefix
    for x, y, fx in ((a, b, fa), (b, a, fb)):
      if fx:
        n = sum(1 for e in elems_of(y) if not isinstance(e, Term))
        if n > len(elems_of(x)):
          return False
    f1 = fix(I, a) if not fa else a
    f2 = (fix(I, b) if not fb else b) if f1 is not None else None
    if f1 is None or f2 is None:
      return decide_term(I, Term('bool', 'eq', (a, b)))
    a, b = norm(I, f1), norm(I, f2)
    if a == b:
      return True
    if isinstance(a, str) and isinstance(b, str):
      return False
  ea, eb = elems_of(a), elems_of(b)
  if len(ea) != len(eb):
    return False
  lits = []
  for x, y in zip(ea, eb):
    if x == y:
      continue
    if isinstance(x, str) and isinstance(y, str):
      return False
    if isinstance(x, str):
      lits.append(lit(y, C.BIT.get(x, 0)))
    elif isinstance(y, str):
      lits.append(lit(x, C.BIT.get(y, 0)))
    else:
      if not emask(I, x) & emask(I, y):
        return False
      return decide_term(I, Term('bool', 'eq', (a, b)))
  return branch_all(I, lits)


def truth_str(I, s):
  s = norm(I, s)
  if isinstance(s, str):
    return s != ''
  for e in s.elems:
    if not isinstance(e, Term):
      return True
    if e.fn in ('fmt', 'repr', 'table', 'json', 'colored'):
      return True
  lits = []
  for e in s.elems:
    if e.fn == 'strip':
      inner = norm(I, e.args[0])
      if isinstance(inner, str) or inner.fixed():
        nm = C.FULL & ~strip_mask(e.args[1])
        lits.extend(lit(x, nm) for x in elems_of(inner))
        continue
    f = fix(I, s)
    if f is not None:
      return len(elems_of(f)) > 0
    return decide_term(I, Term('bool', 'truth', (s,)))
  return branch_any(I, lits)


def order(I, op, a, b):
  a, b = norm(I, a), norm(I, b)
  if isinstance(a, AObj) or isinstance(b, AObj):
    if isinstance(a, AObj):
      m = I.special(a, '__%s__' % op)
      if m is not None:
        return I.call(m, [b], {})
    if isinstance(b, AObj):
      r = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op]
      m = I.special(b, '__%s__' % r)
      if m is not None:
        return I.call(m, [a], {})
    if isinstance(a, AObj) and a.cls.kind == 'intenum':
      return order(I, op, a.attrs['value'], b)
    if isinstance(b, AObj) and b.cls.kind == 'intenum':
      return order(I, op, a, b.attrs['value'])
    I.throw('TypeError', 'not supported between instances')
  sa, sb = isinstance(a, (str, SStr)), isinstance(b, (str, SStr))
  na = isinstance(a, (int, float)) or (isinstance(a, Term))
  nb = isinstance(b, (int, float)) or (isinstance(b, Term))
  if sa and sb:
    if isinstance(a, str) and isinstance(b, str):
      return FN[op](a, b)
    if a == b:
      return op in ('le', 'ge')
    a, b = fix(I, a) or a, fix(I, b) or b
    ea, eb = elems_of(a), elems_of(b)
    if len(ea) == 1 and len(eb) == 1:
      x, y = ea[0], eb[0]
      if isinstance(y, str):
        m = C.where(lambda ch: FN[op](ch, y))
        return branch_all(I, [lit(x, m)])
      if isinstance(x, str):
        m = C.where(lambda ch: FN[op](x, ch))
        return branch_all(I, [lit(y, m)])
    return decide_term(I, Term('bool', op, (a, b)))
  if na and nb:
    if isinstance(a, Term) or isinstance(b, Term):
      return decide_term(I, Term('bool', op, (a, b)))
    return FN[op](a, b)
  if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)):
    for x, y in zip(a, b):
      if not I.eq(x, y):
        return I.truth(order(I, op, x, y))
    return FN[op](len(a), len(b))
  if isinstance(a, ASet) and isinstance(b, ASet):
    sub = all(I.M.contains(I, b, x) for x in a.items)
    sup = all(I.M.contains(I, a, x) for x in b.items)
    return {'le': sub, 'ge': sup, 'lt': sub and not sup, 'gt': sup and not sub}[op]
  try:
    return FN[op](a, b)
  except TypeError as e:
    I.host_error(e)


# ------------------------------------------------------------------ str(), repr(), format()

def str_(I, v):
  if isinstance(v, Union):
    if union_str(v):
      return v
    return I.lift(lambda x: str_(I, x), v)
  v = norm(I, v)
  if isinstance(v, (str, SStr)):
    return v
  if v is None or isinstance(v, (bool, int, float, bytes, range)):
    return str(v)
  if isinstance(v, Term):
    if v.ty == 'bool':
      return str(decide_term(I, v))
    return sstr(Term('str', 'fmt', (v, '')))
  if isinstance(v, AObj):
    r = I.M.obj_str(I, v)
    if r is not None:
      return r
  return repr_(I, v)


def repr_(I, v):
  if isinstance(v, Union):
    return I.lift(lambda x: repr_(I, x), v)
  v = norm(I, v)
  if isinstance(v, SStr):
    return sstr(Term('str', 'repr', (v,)))
  if v is None or isinstance(v, (bool, int, float, str, bytes, range)):
    return repr(v)
  if isinstance(v, Term):
    return str_(I, v)
  if isinstance(v, tuple):
    if len(v) == 1:
      return concat(I, ['(', repr_(I, v[0]), ',)'])
    return concat(I, ['('] + joinparts([repr_(I, x) for x in v]) + [')'])
  if isinstance(v, AList):
    return concat(I, ['['] + joinparts([repr_(I, x) for x in v]) + [']'])
  if isinstance(v, ADict):
    items = [concat(I, [repr_(I, k), ': ', repr_(I, x)]) for k, x in v.d.items()]
    body = ['{'] + joinparts(items) + ['}']
    return concat(I, body)
  if isinstance(v, ASet):
    if not v.items:
      return 'set()'
    return concat(I, ['{'] + joinparts([repr_(I, x) for x in v.items]) + ['}'])
  if isinstance(v, AObj):
    r = I.M.obj_repr(I, v)
    if r is not None:
      return r
    return '<%s object>' % v.cls.name
  if isinstance(v, AClass):
    return "<class '%s'>" % v.name
  return repr(v)


def joinparts(parts):
  out = []
  for i, p in enumerate(parts):
    if i:
      out.append(', ')
    out.append(p)
  return out


def format_(I, v, spec):
  if isinstance(v, Union):
    if spec == '' and union_str(v):
      return v
    return I.lift(lambda x: format_(I, x, spec), v)
  v = norm(I, v)
  if isinstance(v, Term):
    if v.ty == 'bool':
      return format(decide_term(I, v), spec)
    if spec == '':
      return str_(I, v)
    try:
      format(1.0 if v.ty == 'float' else 1, spec)
    except ValueError as e:
      I.host_error(e)
    return sstr(Term('str', 'fmt', (v, spec)))
  if isinstance(v, AObj):
    m = I.special(v, '__format__')
    if m is not None:
      return I.call(m, [spec], {})
    if v.cls.kind in ('intenum', 'strenum'):
      return format_(I, v.attrs['value'], spec)
  if spec == '':
    return str_(I, v)
  if isinstance(v, SStr):
    try:
      format('x', spec)
    except ValueError as e:
      I.host_error(e)
    m = re.match(r'^(?:(.)?([<>^]))?(\d*)(?:\.(\d+))?s?$', spec, re.S)
    f = v if v.fixed() else None
    if m and f is not None:
      fill, al, width, prec = m.groups()
      el = list(f.elems)
      if prec is not None:
        el = el[:int(prec)]
      pad = int(width or 0) - len(el)
      if pad > 0:
        fill = fill or ' '
        al = al or '<'
        left = 0 if al == '<' else pad if al == '>' else pad // 2
        el = [fill] * left + el + [fill] * (pad - left)
      return mkstr(el)
    return sstr(Term('str', 'fmts', (v, spec)))
  if isinstance(v, (bool, int, float, str, bytes)):
    try:
      return format(v, spec)
    except (ValueError, TypeError) as e:
      I.host_error(e)
  I.throw('TypeError', 'unsupported format string')


def str_format(I, fmt, args, kwargs):
  fmt = norm(I, fmt)
  if not isinstance(fmt, str):
    raise _U()('symbolic format string')
  parts = []
  auto = [0]

  def get(name):
    first, rest = _string.Formatter().parse(''), None
    m = re.match(r'^([^.\[]*)(.*)$', name, re.S)
    key, rest = m.group(1), m.group(2)
    if key == '':
      key = auto[0]
      auto[0] += 1
    elif key.isdigit():
      key = int(key)
    try:
      v = args[key] if isinstance(key, int) else kwargs[key]
    except IndexError:
      I.throw('IndexError', 'Replacement index out of range')
    except KeyError:
      I.throw('KeyError', key)
    while rest:
      m = re.match(r'^\.([^.\[]+)|^\[([^\]]+)\]', rest)
      if not m:
        I.throw('ValueError', 'bad format')
      if m.group(1):
        v = I.getattr(v, m.group(1))
      else:
        k = m.group(2)
        v = I.getitem(v, int(k) if k.isdigit() else k)
      rest = rest[m.end():]
    return v

  def go(f, depth=2):
    out = []
    try:
      fields = list(_string.Formatter().parse(f))
    except ValueError as e:
      I.host_error(e)
    for text, name, spec, conv in fields:
      out.append(text)
      if name is None:
        continue
      v = get(name)
      if conv == 'r' or conv == 'a':
        v = repr_(I, v)
      elif conv == 's':
        v = str_(I, v)
      if spec and '{' in spec:
        spec = norm(I, concat(I, go(spec, depth - 1)))
        if not isinstance(spec, str):
          raise _U()('symbolic format spec')
      out.append(format_(I, v, spec))
    return out
  return concat(I, go(fmt))


PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')


def percent(I, fmt, args):
  fmt = norm(I, I.force(fmt))
  if not isinstance(fmt, str):
    raise _U()('symbolic % format')
  if isinstance(args, Union) and not union_str(args):
    args = I.force(args)
  mapping = args if isinstance(args, ADict) else None
  vals = list(args) if isinstance(args, tuple) else [args]
  pos = 0
  out = []
  last = 0
  for m in PCT.finditer(fmt):
    out.append(fmt[last:m.start()])
    last = m.end()
    name, flags, width, prec, ty = m.groups()
    if ty == '%':
      out.append('%')
      continue
    if width == '*' or prec == '*':
      raise _U()('% format with *')
    if name is not None:
      v = I.getitem(mapping, name)
    else:
      if pos >= len(vals):
        I.throw('TypeError', 'not enough arguments for format string')
      v = vals[pos]
      pos += 1
    if ty in 'sra':
      v = repr_(I, v) if ty != 's' else str_(I, v)
      spec = ''
      if width:
        spec = ('<' if '-' in flags else '>') + width
      if prec:
        spec += '.' + prec
      out.append(format_(I, v, spec))
    else:
      def num(x):
        x = norm(I, x)
        if isinstance(x, (str, SStr)) or x is None:
          I.throw('TypeError', '%d format: a real number is required')
        if ty in 'di':
          x = to_number(I, x, 'int')
          spec = ('<' if '-' in flags else '') + ('+' if '+' in flags else ' ' if ' ' in flags else '') + \
              ('0' if '0' in flags and '-' not in flags else '') + (width or '') + 'd'
        else:
          spec = ('<' if '-' in flags else '') + ('+' if '+' in flags else ' ' if ' ' in flags else '') + \
              ('0' if '0' in flags and '-' not in flags else '') + (width or '') + ('.' + prec if prec is not None else '') + ty
        return format_(I, x, spec)
      out.append(I.lift(num, v))
  out.append(fmt[last:])
  if mapping is None and pos < len(vals) and isinstance(args, tuple):
    I.throw('TypeError', 'not all arguments converted during string formatting')
  return concat(I, out)


# ------------------------------------------------------------------ str methods

PREDS = ('isalpha', 'isdecimal', 'isdigit', 'isnumeric', 'isalnum', 'isspace', 'isprintable', 'isascii')


def getitem_str(I, s, k):
  s, k = norm(I, s), norm(I, k)
  if isinstance(s, str) and isinstance(k, (int, slice)):
    try:
      return s[k]
    except IndexError as e:
      I.host_error(e)
    except TypeError as e:
      I.host_error(e)
  if isinstance(k, Term):
    v = enumerate_values(I, k, 600)
    if v is None:
      raise _U()('symbolic index')
    k = v
  if not isinstance(k, (int, slice)):
    I.throw('TypeError', 'string indices must be integers')
  if isinstance(k, slice):
    parts = []
    for x in (k.start, k.stop, k.step):
      x = norm(I, x)
      if isinstance(x, Term):
        v = enumerate_values(I, x, 600)
        if v is None:
          raise _U()('symbolic slice')
        x = v
      if x is not None and not isinstance(x, int):
        I.throw('TypeError', 'slice indices must be integers')
      parts.append(x)
    k = slice(*parts)
    if k.start is None and k.stop is None and k.step is None:
      return s
  f = s if isinstance(s, str) or s.fixed() else None
  if f is None and isinstance(s, SStr):
    # plain elements before the first unknown-length part can be read directly
    el = s.elems
    first = next(i for i, e in enumerate(el) if isinstance(e, Term))
    if isinstance(k, int) and 0 <= k < first:
      return mkstr((el[k],))
    if isinstance(k, slice) and k.step in (None, 1) and (k.start or 0) >= 0 and k.stop is not None and 0 <= k.stop <= first:
      return mkstr(el[k])
    f = fix(I, s)
  if f is None:
    t = Term('str', 'slc', (s, k.start, k.stop, k.step)) if isinstance(k, slice) else None
    if t is None:
      raise _U()('index into a text of unknown length')
    return sstr(t)
  el = elems_of(f)
  if isinstance(k, slice):
    return mkstr(el[k])
  if not -len(el) <= k < len(el):
    I.throw('IndexError', 'string index out of range')
  return mkstr((el[k],))


def length(I, s):
  s = norm(I, s)
  if isinstance(s, str):
    return len(s)
  if s.fixed():
    return len(s.elems)
  f = fix(I, s)
  if f is None:
    return Term('int', 'len', (s,))
  return len(elems_of(f))


def contains_str(I, hay, needle):
  hay, needle = norm(I, hay), norm(I, needle)
  if not isinstance(needle, (str, SStr)):
    I.throw('TypeError', "'in <string>' requires string as left operand")
  if isinstance(hay, str) and isinstance(needle, str):
    return needle in hay
  if needle == '' or hay == needle:
    return True
  if isinstance(needle, SStr):
    f = needle if needle.fixed() else fix(I, needle)
    if f is None:
      return decide_term(I, Term('bool', 'in', (needle, hay)))
    needle = norm(I, f)
    if needle == '':
      return True
  if isinstance(hay, str):
    if isinstance(needle, str):
      return needle in hay
    n = len(needle.elems)
    if n == 1:
      return branch_all(I, [lit(needle.elems[0], C.of(hay))])
    subs = {hay[i:i + n] for i in range(len(hay) - n + 1)}
    return one_of(I, needle, sorted(subs))
  f = hay if hay.fixed() else None
  if f is None:
    plain = split_plain(hay.elems)
    if isinstance(needle, str) and any(needle in p for p in plain if isinstance(p, str)):
      return True
    return decide_term(I, Term('bool', 'in', (needle, hay)))
  if isinstance(needle, str):
    if len(needle) == 1:
      return branch_any(I, [lit(e, C.BIT.get(needle, 0)) for e in f.elems])
    n = len(needle)
    el = f.elems
    cands = []
    for i in range(len(el) - n + 1):
      d = conj([lit(e, C.BIT.get(ch, 0)) for e, ch in zip(el[i:i + n], needle)])
      if d is not None and I.ctx.region.assume(d) is not None:
        cands.append(d)
    if not cands:
      return False
    if any(not d[0] for d in cands):
      return True
  t = Term('bool', 'in', (needle, f))
  return decide_term(I, t)


def split_plain(elems):
  out = []
  run = ''
  for e in elems:
    if isinstance(e, str):
      run += e
    else:
      if run:
        out.append(run)
      run = ''
      out.append(e)
  if run:
    out.append(run)
  return out


def one_of(I, s, consts):
  """s equals one of the constant texts (s fixed)"""
  el = elems_of(s)
  cs = [c for c in dict.fromkeys(consts) if len(c) == len(el)]
  if not cs:
    return False
  if len(el) == 0:
    return True
  if len(el) == 1:
    return branch_all(I, [lit(el[0], C.of(''.join(cs)))])
  tr, clauses = [], []
  for c in cs:
    lits = [lit(e, C.BIT.get(ch, 0)) for e, ch in zip(el, c)]
    d = conj(lits)
    if d is None:
      continue
    tr.append(d)
    nd = disj([nlit(l) for l in lits])
    if nd is None:
      return True
    clauses.append(nd)
  if not tr:
    return False
  from .interp import join_deltas
  return I.branch(tr, [join_deltas(clauses)])


def method(I, s, name, args, kwargs):
  """call of str method `name` on s (never a Union)"""
  s = norm(I, s)
  args = [norm(I, a) for a in args]
  if kwargs and name not in ('format', 'split', 'rsplit', 'splitlines', 'encode', 'replace', 'expandtabs'):
    I.throw('TypeError', 'str.%s() takes no keyword arguments' % name)
  if name == 'format':
    return str_format(I, s, args, kwargs)
  if name == 'format_map':
    return str_format(I, s, [], dict(args[0].d))
  if name == 'join':
    items = list(I.iterate(args[0]))
    out = []
    for i, x in enumerate(items):
      if i:
        out.append(s)
      if not strlike(x):
        if isinstance(x, Union):
          x = I.force(x)
        if not strlike(x):
          I.throw('TypeError', 'sequence item %d: expected str instance' % i)
      out.append(x)
    return concat(I, out)
  if name == '__contains__':
    return contains_str(I, s, args[0])
  if name == '__len__':
    return length(I, s)
  if name == '__getitem__':
    return getitem_str(I, s, args[0])
  if name == '__eq__':
    return I.eq(s, args[0])
  if name == '__ne__':
    return not I.eq(s, args[0])
  if name == '__add__':
    return concat(I, [s, args[0]])
  if name in ('__lt__', '__le__', '__gt__', '__ge__'):
    return order(I, name.strip('_'), s, args[0])
  if name == '__str__':
    return s
  if name == '__repr__':
    return repr_(I, s)
  if name == '__iter__':
    return AIter(iter(list(I.iterate(s))))
  if name == '__mod__':
    return percent(I, s, args[0])
  if name == '__format__':
    return format_(I, s, args[0])
  if name == '__hash__':
    return hash(s)
  if not hasattr(str, name):
    I.throw('AttributeError', "'str' object has no attribute '%s'" % name)
  if name == 'maketrans':
    return ('maketrans',) + tuple(args)
  if name == 'translate':
    return translate(I, s, args[0])
  hargs = [host_arg(a) for a in args]
  if isinstance(s, str) and all(h is not _NOHOST for h in hargs):
    try:
      r = getattr(s, name)(*hargs, **kwargs)
    except (ValueError, TypeError, IndexError, UnicodeError, LookupError) as e:
      I.host_error(e)
    return AList(r) if isinstance(r, list) else r
  h = METHODS.get(name)
  if h is not None:
    return h(I, s, args, kwargs)
  return opaque_method(I, s, name, args, kwargs)


_NOHOST = object()


def host_arg(a):
  if a is None or isinstance(a, (bool, int, float, str, bytes)):
    return a
  if isinstance(a, tuple):
    r = tuple(host_arg(x) for x in a)
    return _NOHOST if any(x is _NOHOST for x in r) else r
  if isinstance(a, ADict) and all(isinstance(k, (int, str)) for k in a.d) and \
      all(v is None or isinstance(v, (int, str)) for v in a.d.values()):
    return dict(a.d)
  return _NOHOST


def opaque_method(I, s, name, args, kwargs):
  if kwargs or any(not isinstance(a, (type(None), bool, int, str, SStr, tuple)) for a in args):
    raise _U()('str.%s on a symbolic text' % name)
  if name in ('istitle', 'isidentifier', 'isupper', 'islower'):
    return decide_term(I, Term('bool', 'm', (name, s) + tuple(args)))
  if name in ('title', 'capitalize', 'expandtabs', 'center', 'replace', 'swapcase', 'casefold', 'zfill', 'rjust', 'ljust',
              'removeprefix', 'removesuffix', 'upper', 'lower'):
    return sstr(Term('str', 'm', (name, s) + tuple(args)))
  if name in ('count', 'find', 'rfind', 'index', 'rindex'):
    if name in ('index', 'rindex'):
      if not contains_str(I, s, args[0]):
        I.throw('ValueError', 'substring not found')
    return Term('int', 'm', (name, s) + tuple(args))
  raise _U()('str.%s on a symbolic text' % name)


def m_pred(name):
  mask = C.PRED[name]

  def h(I, s, args, kwargs):
    f = s if s.fixed() else None
    if f is None:
      # strip of a fixed text: blank -> False; otherwise the characters between the first and last kept one
      f = fix(I, s)
      if f is None:
        return decide_term(I, Term('bool', 'm', (name, s)))
    el = elems_of(f)
    if not el:
      return name in ('isprintable', 'isascii')
    return branch_all(I, [lit(e, mask) for e in el])
  return h


def m_case(name):
  def h(I, s, args, kwargs):
    f = s if s.fixed() else fix(I, s)
    if f is None:
      return decide_term(I, Term('bool', 'm', (name, s)))
    el = elems_of(f)
    good, bad = (C.UPPER, C.LOWER) if name == 'isupper' else (C.LOWER, C.UPPER)
    if not branch_all(I, [lit(e, C.FULL & ~bad) for e in el]):
      return False
    return branch_any(I, [lit(e, good) for e in el])
  return h


def m_strip(side):
  def h(I, s, args, kwargs):
    ch = args[0] if args else None
    if ch is not None and not isinstance(ch, str):
      raise _U()('strip of symbolic characters')
    return strip(I, s, ch, side)
  return h


def m_map(fn):
  def h(I, s, args, kwargs):
    out = []
    for e in s.elems:
      if isinstance(e, str):
        out.append(getattr(e, fn)())
      elif isinstance(e, Col):
        m = emask(I, e)
        if all(getattr(ch, fn)() == ch for ch in C.chars(m)):
          out.append(e)
        else:
          out.append(mcol(fn, e))
      elif isinstance(e, MCol):
        if e.fn == fn:
          out.append(e)
        elif fn in ('upper', 'lower', 'casefold') and e.fn in ('upper', 'lower', 'casefold', 'swapcase'):
          out.append(mcol(fn, e.col))
        else:
          return sstr(Term('str', 'm', (fn, s)))
      else:
        out.append(Term('str', 'm', (fn, sstr(e))))
    return mkstr(out)
  return h


def m_starts(end):
  name = 'endswith' if end else 'startswith'

  def one(I, s, p, lo, hi):
    p = norm(I, p)
    if not isinstance(p, (str, SStr)):
      I.throw('TypeError', name + ' first arg must be str or a tuple of str')
    if lo is not None or hi is not None:
      s = getitem_str(I, s, slice(lo, hi))
    if p == '':
      return True
    if isinstance(s, str) and isinstance(p, str):
      return getattr(s, name)(p)
    if isinstance(p, SStr) and not p.fixed():
      return decide_term(I, Term('bool', 'm', (name, s, p)))
    ep = elems_of(p)
    es = elems_of(s)
    n = len(ep)
    part = es[len(es) - n:] if end else es[:n]
    if any(isinstance(e, Term) for e in part) or (len(part) < n and any(isinstance(e, Term) for e in es)):
      f = fix(I, s)
      if f is None:
        return decide_term(I, Term('bool', 'm', (name, s, p)))
      es = elems_of(f)
      part = es[len(es) - n:] if end else es[:n]
    if len(es) < n:
      return False
    return eq_str(I, norm(I, mkstr(part)), p)

  def h(I, s, args, kwargs):
    ps = args[0]
    lo = args[1] if len(args) > 1 else None
    hi = args[2] if len(args) > 2 else None
    if isinstance(ps, tuple):
      if lo is None and hi is None and isinstance(s, SStr) and all(isinstance(p, str) and len(p) == 1 for p in ps) and \
          not isinstance(s.elems[-1 if end else 0], Term):
        return branch_all(I, [lit(s.elems[-1 if end else 0], C.of(''.join(ps)))])
      for p in ps:
        if one(I, s, p, lo, hi):
          return True
      return False
    if isinstance(ps, AList):
      I.throw('TypeError', name + ' first arg must be str or a tuple of str, not list')
    return one(I, s, ps, lo, hi)
  return h


def m_find(name):
  def h(I, s, args, kwargs):
    sub = args[0]
    if not isinstance(sub, (str, SStr)):
      I.throw('TypeError', 'must be str')
    rest = args[1:]
    if isinstance(s, str) and isinstance(sub, SStr) and not rest and name != 'count':
      f = sub if sub.fixed() else fix(I, sub)
      if f is not None:
        f = norm(I, f)
        if isinstance(f, str):
          return method(I, s, name, [f], {})
        n = len(f.elems)
        subs = list(dict.fromkeys(s[i:i + n] for i in range(len(s) - n + 1)))
        ds, vals, clauses = [], [], []
        for c in subs:
          lits = [lit(e, C.BIT.get(ch, 0)) for e, ch in zip(f.elems, c)]
          d = conj(lits)
          if d is None:
            continue
          ds.append(d)
          vals.append(getattr(s, 'find' if name in ('find', 'index') else 'rfind')(c))
          nd = disj([nlit(l) for l in lits])
          clauses.append(nd)
        if all(c is not None for c in clauses):
          from .interp import join_deltas
          ds.append(join_deltas(clauses))
          vals.append(-1)
        v = vals[I.choose(ds)]
        if v < 0 and name in ('index', 'rindex'):
          I.throw('ValueError', 'substring not found')
        return v
    if isinstance(s, SStr) and isinstance(sub, str) and len(sub) == 1 and not rest:
      f = s if s.fixed() else fix(I, s)
      if f is not None and len(elems_of(f)) <= 12:
        el = list(elems_of(f))
        if name == 'count':
          n = 0
          for e in el:
            if branch_all(I, [lit(e, C.BIT[sub])]):
              n += 1
          return n
        idx = range(len(el)) if name in ('find', 'index') else range(len(el) - 1, -1, -1)
        for i in idx:
          if branch_all(I, [lit(el[i], C.BIT[sub])]):
            return i
        if name in ('index', 'rindex'):
          I.throw('ValueError', 'substring not found')
        return -1
    return opaque_method(I, s, name, args, kwargs)
  return h


def m_replace(I, s, args, kwargs):
  old, new = args[0], args[1]
  cnt = args[2] if len(args) > 2 else kwargs.get('count', -1)
  if isinstance(s, SStr) and isinstance(old, str) and isinstance(new, (str, SStr)) and cnt == -1 and old != '':
    # no occurrence possible?
    if all(not isinstance(e, Term) for e in s.elems):
      if len(old) == 1:
        out = []
        amb = 0
        for e in s.elems:
          m = emask(I, e)
          if not m & C.BIT.get(old, 0):
            out.append(e)
          elif m == C.BIT.get(old, 0):
            out.extend(elems_of(new))
          else:
            amb += 1
            out.append(e)
        if not amb:
          return mkstr(out)
        if amb <= 6:
          out = []
          for e in s.elems:
            if branch_all(I, [lit(e, C.BIT[old])]):
              out.extend(elems_of(new))
            else:
              out.append(e)
          return norm(I, mkstr(out))
      else:
        el = s.elems
        n = len(old)
        if not any(conj([lit(e, C.BIT.get(ch, 0)) for e, ch in zip(el[i:i + n], old)]) is not None and
                   I.ctx.region.assume(conj([lit(e, C.BIT.get(ch, 0)) for e, ch in zip(el[i:i + n], old)])) is not None
                   for i in range(len(el) - n + 1)):
          return s
  return sstr(Term('str', 'm', ('replace', s) + tuple(args)))


def m_pad(name):
  def h(I, s, args, kwargs):
    w = args[0]
    fill = args[1] if len(args) > 1 else ' '
    n = length(I, s)
    if not isinstance(n, int) or not isinstance(w, int):
      return opaque_method(I, s, name, args, kwargs)
    f = fix(I, s)
    el = list(elems_of(f))
    pad = w - len(el)
    if pad <= 0:
      return norm(I, f)
    if name == 'zfill':
      if el and branch_all(I, [lit(el[0], C.of('+-'))]):
        return mkstr([el[0]] + ['0'] * pad + el[1:])
      return mkstr(['0'] * pad + el)
    if name == 'rjust':
      return mkstr([fill] * pad + el)
    if name == 'ljust':
      return mkstr(el + [fill] * pad)
    left = pad // 2 + (pad & w & 1)
    return mkstr([fill] * left + el + [fill] * (pad - left))
  return h


def m_affix(name):
  def h(I, s, args, kwargs):
    p = args[0]
    st = METHODS['startswith' if name == 'removeprefix' else 'endswith']
    if p != '' and (st(I, s, [p], {}) if isinstance(s, SStr) else getattr(s, 'startswith' if name == 'removeprefix' else 'endswith')(p)):
      n = length(I, p)
      return getitem_str(I, s, slice(n, None) if name == 'removeprefix' else slice(None, -n))
    return s
  return h


def seps(I, el, mask):
  """which elements are separators (partitions element by element)"""
  amb = sum(1 for e in el if not isinstance(e, Term) and emask(I, e) & mask and emask(I, e) & ~mask)
  if amb > 10:
    return None
  out = []
  for e in el:
    if isinstance(e, Term):
      return None
    out.append(branch_all(I, [lit(e, mask)]))
  return out


def m_split(name):
  def h(I, s, args, kwargs):
    sep = args[0] if args else kwargs.get('sep')
    mx = args[1] if len(args) > 1 else kwargs.get('maxsplit', -1)
    f = s if s.fixed() else fix(I, s)
    if f is None or isinstance(f, str) or (sep is not None and not (isinstance(sep, str) and len(sep) == 1)):
      if isinstance(f, str):
        r = getattr(f, name)(sep, mx)
        return AList(r)
      if f is not None and isinstance(sep, str):
        el = list(f.elems)
        return AList(split_multi(I, el, sep))
      raise _U()('split of a symbolic text')
    el = list(f.elems)
    fl = seps(I, el, C.WS if sep is None else C.BIT[sep])
    if fl is None:
      raise _U()('split of a symbolic text')
    # do it on markers
    chars = []
    table = {}
    for i, (e, is_sep) in enumerate(zip(el, fl)):
      if is_sep:
        chars.append(' ' if sep is None else sep)
      else:
        if isinstance(e, str) and e.isascii():
          ch = e
        else:
          ch = chr(0xF0000 + len(table))
          table[ch] = e
        chars.append(ch)
    r = getattr(''.join(chars), name)(sep, mx)
    return AList([norm(I, mkstr([table.get(c, c) for c in x])) for x in r])
  return h


def split_multi(I, el, sep):
  n = len(sep)
  out, cur, i = [], [], 0
  while i < len(el):
    part = el[i:i + n]
    if len(part) == n and all(not isinstance(e, Term) for e in part) and \
        branch_all(I, [lit(e, C.BIT.get(ch, 0)) for e, ch in zip(part, sep)]):
      out.append(mkstr(cur))
      cur = []
      i += n
    else:
      cur.append(el[i])
      i += 1
  out.append(mkstr(cur))
  return out


def m_splitlines(I, s, args, kwargs):
  keep = args[0] if args else kwargs.get('keepends', False)
  m = C.of('\n\r\x0b\x0c\x1c\x1d\x1e')
  out, cur = [], []
  el = list(s.elems)
  for i, e in enumerate(el):
    if isinstance(e, Term) or (emask(I, e) & m and emask(I, e) & ~m):
      if isinstance(e, Term) and e.fn != 'tok':
        raise _U()('splitlines of a symbolic text')
      if not isinstance(e, Term):
        f = seps(I, [e], m)
        if not f[0]:
          cur.append(e)
          continue
        e = norm(I, mkstr((e,)))
        if not isinstance(e, str):
          raise _U()('splitlines of a symbolic text')
      else:
        cur.append(e)
        continue
    if isinstance(e, str) and C.BIT.get(e, 0) & m:
      if e == '\n' and cur and cur[-1] == '\r' and not keep:
        pass
      if keep:
        cur.append(e)
      out.append(mkstr(cur))
      cur = []
    else:
      cur.append(e)
  if cur:
    out.append(mkstr(cur))
  return AList(out)


def m_partition(name):
  def h(I, s, args, kwargs):
    sep = args[0]
    f = s if s.fixed() else fix(I, s)
    if f is None or not isinstance(sep, str):
      raise _U()('partition of a symbolic text')
    el = list(elems_of(f))
    n = len(sep)
    rng = range(len(el) - n + 1)
    if name == 'rpartition':
      rng = reversed(rng)
    for i in rng:
      if branch_all(I, [lit(e, C.BIT.get(ch, 0)) for e, ch in zip(el[i:i + n], sep)]):
        return (mkstr(el[:i]), sep, mkstr(el[i + n:]))
    return (f, '', '') if name == 'partition' else ('', '', f)
  return h


def translate(I, s, table):
  if isinstance(table, tuple) and table and table[0] == 'maketrans':
    a = table[1:]
    if len(a) == 1:
      t = str.maketrans(dict(a[0].d))
    else:
      t = str.maketrans(*a)
  elif isinstance(table, ADict):
    t = dict(table.d)
  else:
    raise _U()('translate')
  if isinstance(s, str):
    return s.translate(t)
  out = []
  for e in s.elems:
    if isinstance(e, Term):
      raise _U()('translate of a symbolic text')
    keys = {chr(k) if isinstance(k, int) else k for k in t}
    m = C.of(''.join(keys))
    if branch_all(I, [lit(e, m)]):
      ch = enumerate_values(I, sstr_term(e), 200) if not isinstance(e, str) else e
      out.extend(ch.translate(t))
    else:
      out.append(e)
  return norm(I, mkstr(out))


def sstr_term(e):
  return Term('str', 'str', (mkstr((e,)),))


def m_encode(I, s, args, kwargs):
  raise _U()('encode of a symbolic text')


METHODS = {p: m_pred(p) for p in PREDS}
METHODS.update({
    'isupper': m_case('isupper'), 'islower': m_case('islower'),
    'strip': m_strip('both'), 'lstrip': m_strip('l'), 'rstrip': m_strip('r'),
    'upper': m_map('upper'), 'lower': m_map('lower'), 'casefold': m_map('casefold'), 'swapcase': m_map('swapcase'),
    'startswith': m_starts(False), 'endswith': m_starts(True),
    'find': m_find('find'), 'index': m_find('index'), 'rfind': m_find('rfind'), 'rindex': m_find('rindex'),
    'count': m_find('count'), 'replace': m_replace,
    'zfill': m_pad('zfill'), 'rjust': m_pad('rjust'), 'ljust': m_pad('ljust'), 'center': m_pad('center'),
    'removeprefix': m_affix('removeprefix'), 'removesuffix': m_affix('removesuffix'),
    'split': m_split('split'), 'rsplit': m_split('rsplit'), 'splitlines': m_splitlines,
    'partition': m_partition('partition'), 'rpartition': m_partition('rpartition'),
    'encode': m_encode,
})
