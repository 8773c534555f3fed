"""Abstract interpreter over the syntax trees of the analysed package.

Nothing of the package is imported or executed: every statement and expression is
given a meaning over abstract values (values.py) and over a region of inputs
(region.py).  A test whose outcome depends on the input partitions the region; the
parts are followed one by one.  A call that has no effect on older objects is
summarised: its results on the parts become one guarded Union.
"""
import ast
import os

from . import chars as C
from .region import Region, EMPTY_DELTA
from .values import *


class Undecided(Exception):
  """a construct the analysis has no meaning for"""


class Infeasible(Exception):
  pass


class Impure(Exception):
  def __init__(self, obj):
    self.obj = obj


class Restart(Exception):
  """a function turned out not to be summarisable: redo the exploration"""


class StmtFail(Exception):
  """a statement whose effects cannot be joined"""


class Throw(Exception):
  """an exception of the analysed program"""

  def __init__(self, exc):
    self.exc = exc


BREAK = ('break',)
CONTINUE = ('continue',)


class Exploration:
  __slots__ = ('cache', 'n')

  def __init__(self):
    self.cache = {}
    self.n = 0


class Ctx:
  __slots__ = ('region', 'prefix', 'pos', 'pending', 'events', 'side', 'try_depth', 'start', 'merge',
               'decisions', 'expl', 'nmerge', 'undo', 'undone', 'ret_site', 'stmt', 'outer_try')

  def __init__(self, region, prefix, expl, merge):
    self.region = region
    self.prefix = prefix
    self.pos = 0
    self.pending = []
    self.events = []
    self.side = []
    self.try_depth = 0
    self.outer_try = False      # some enclosing context has a handler
    self.start = stamp()
    self.merge = merge
    self.decisions = []
    self.expl = expl
    self.nmerge = 0
    self.undo = []
    self.undone = set()
    self.ret_site = None
    self.stmt = None


class Leaf:
  __slots__ = ('region', 'kind', 'value', 'events', 'site', 'stage')

  def __init__(self, region, kind, value, events, site=None):
    self.region = region
    self.kind = kind        # 'ok' | 'exc' | 'undecided'
    self.value = value
    self.events = events
    self.site = site
    self.stage = None


class FnInfo:
  __slots__ = ('locals', 'globals', 'nonlocals', 'is_gen', 'no_merge', 'argnames')


class Frame:
  __slots__ = ('vars', 'module', 'parent', 'info', 'birth', 'func', 'self_cls', 'is_class', 'yielded')

  def __init__(self, module, parent, info, func=None, is_class=False):
    self.vars = {}
    self.module = module
    self.parent = parent
    self.info = info
    self.birth = stamp()
    self.func = func
    self.is_class = is_class


def _scan(node, info):
  """names bound in a function body (not in nested scopes)"""
  for n in node:
    _scan1(n, info)


def _target(t, info):
  if isinstance(t, ast.Name):
    info.locals.add(t.id)
  elif isinstance(t, (ast.Tuple, ast.List)):
    for e in t.elts:
      _target(e, info)
  elif isinstance(t, ast.Starred):
    _target(t.value, info)


def _scan1(n, info):
  if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
    info.locals.add(n.name)
    for d in n.decorator_list:
      _scan1(d, info)
    return
  if isinstance(n, ast.Lambda):
    return
  if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
    for sub in ast.walk(n):
      if isinstance(sub, ast.NamedExpr):
        _target(sub.target, info)
    return
  if isinstance(n, (ast.Yield, ast.YieldFrom)):
    info.is_gen = True
  if isinstance(n, ast.Global):
    info.globals.update(n.names)
  elif isinstance(n, ast.Nonlocal):
    info.nonlocals.update(n.names)
  elif isinstance(n, ast.Assign):
    for t in n.targets:
      _target(t, info)
  elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor, ast.NamedExpr)):
    _target(n.target, info)
  elif isinstance(n, ast.With):
    for it in n.items:
      if it.optional_vars is not None:
        _target(it.optional_vars, info)
  elif isinstance(n, (ast.Import, ast.ImportFrom)):
    for a in n.names:
      info.locals.add((a.asname or a.name).split('.')[0])
  elif isinstance(n, ast.ExceptHandler):
    if n.name:
      info.locals.add(n.name)
  elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
    if n.name:
      info.locals.add(n.name)
  elif isinstance(n, ast.MatchMapping):
    if n.rest:
      info.locals.add(n.rest)
  elif isinstance(n, ast.Delete):
    for t in n.targets:
      _target(t, info)
  for c in ast.iter_child_nodes(n):
    _scan1(c, info)


def new_info():
  i = FnInfo()
  i.locals, i.globals, i.nonlocals = set(), set(), set()
  i.is_gen = False
  i.no_merge = False
  return i


def has_yield(n):
  for c in ast.walk(n):
    if isinstance(c, (ast.Yield, ast.YieldFrom)):
      return True
  return False


class Interp:

  def __init__(self, roots, budget=60000):
    """roots: {package name: directory}"""
    self.roots = roots
    self.modules = {}
    self.infos = {}
    self.ctx = Ctx(Region(), (), Exploration(), False)
    self.ctx.start = 0
    self.depth = 0
    self.node = None
    self.mod = None
    self.funcs_seen = set()
    self.n_calls = 0
    self.n_paths = 0
    self.n_tests = 0
    self.n_opaque = 0
    self.undecided = []
    self.closing = False
    self.waiting = set()       # generator functions entered: (path, first line, last line)
    self.budget = budget
    self.files = {}
    self.parsed = {}
    self.open_handler = None
    self.fs = None
    self.steps = 0
    self.step_limit = None
    self.caches = []
    self.memos = {}
    self.plain = set()
    self.mergeable = {}
    self.unknown_modules = set()
    self.lost = []
    self.dirs = None
    from . import models, strings
    self.S = strings
    self.M = models
    models.install(self)
    self._dispatch()

  # ---------------------------------------------------------------- exploration

  def explore(self, region, thunk, on_leaf, max_leaves=None):
    """follow thunk on every part of region; on_leaf(leaf) is called in the
    path's own context (its objects are still intact).  A leaf may be delivered
    twice when the exploration is restarted."""
    while True:
      try:
        return self._explore(region, thunk, on_leaf, max_leaves)
      except Restart:
        pass

  def _explore(self, region, thunk, on_leaf, max_leaves=None):
    outer = self.ctx
    expl = Exploration()
    stack = [()]
    n = 0
    limit = max_leaves or self.budget
    while stack:
      prefix = stack.pop()
      ctx = Ctx(region, prefix, expl, False)
      self.ctx = ctx
      self.depth = 0
      self.stdout_stack = []
      self.closing = False
      try:
        try:
          v = thunk()
          leaf = Leaf(ctx.region, 'ok', v, ctx.events, ctx.ret_site)
        except Throw as t:
          leaf = Leaf(ctx.region, 'exc', t.exc, ctx.events, None)
        except Infeasible:
          leaf = None
        except Undecided as u:
          self.undecided.append((str(u), self.where()))
          leaf = Leaf(ctx.region, 'undecided', str(u), ctx.events, self.where())
        self.n_paths += 1
        n += 1
        for s in ctx.side:
          on_leaf(s)
        if leaf is not None:
          on_leaf(leaf)
      finally:
        self._undo(ctx)
        self.ctx = outer
      stack.extend(ctx.pending)
      if n > limit:
        self.undecided.append(('more than %d paths' % limit, ''))
        break
    return n

  def leaves(self, region, thunk, max_leaves=None):
    out = []
    self.explore(region, thunk, out.append, max_leaves)
    return out

  def _undo(self, ctx):
    for obj, snap in reversed(ctx.undo):
      restore(obj, snap)
    ctx.undo = []

  def choose(self, deltas):
    """partition the region; returns the index of the part this path follows"""
    c = self.ctx
    if c.pos < len(c.prefix):
      i = c.prefix[c.pos]
      c.pos += 1
      r = c.region.assume(deltas[i])
      if r is None:
        raise Undecided('replay diverged')
      c.region = r
      c.decisions.append(i)
      return i
    self.n_tests += 1
    first = None
    for i, d in enumerate(deltas):
      r = c.region.assume(d)
      if r is None or not self.feasible(r, d):
        continue
      if first is None:
        first = i
        fr = r
      else:
        c.pending.append(tuple(c.decisions) + (i,))
    if first is None:
      raise Infeasible()
    c.region = fr
    c.pos += 1
    c.prefix = c.prefix + (first,)
    c.decisions.append(first)
    return first

  def feasible(self, region, delta):
    if not delta[2]:
      return True
    return self.S.preds_feasible(region, delta[2])

  def branch(self, true_deltas, false_deltas):
    n = len(true_deltas)
    ds = list(true_deltas) + list(false_deltas)
    if not ds:
      raise Infeasible()
    return self.choose(ds) < n

  def explore_merge(self, thunk, node=None, info=None):
    """summarise thunk: run it on every part of the current region"""
    parent = self.ctx
    alts, start = self.alternatives(thunk)
    ok, exc = self.split_exceptions(alts)
    if len(ok) == 1:
      d, _, v, ev, site = ok[0]
      if not exc:
        self.commit(d)
      parent.events.extend(ev)
      parent.ret_site = site
      return v
    v0 = ok[0][2]
    same_all = all(same(v0, a[2]) for a in ok[1:]) if ref_free(v0) else all(v0 is a[2] for a in ok[1:])
    noev = not any(a[3] for a in ok)
    if not same_all:
      st = start if start is not None else 0
      if not all(merge_safe(a[2], st) for a in ok):
        if info is not None:
          info.no_merge = True
          raise Restart()
        i = self.choose([a[0] for a in ok])
        parent.events.extend(ok[i][3])
        return ok[i][2]
    if not noev:
      parent.events.append(('cond', [(a[0], a[3]) for a in ok]))
    if same_all:
      return v0
    return Union([Alt(a[0], a[2], a[4]) for a in ok])

  def alternatives(self, thunk, stmt=None):
    """run thunk on every part of the current region:
    [(delta, kind, value, events, site)]"""
    parent = self.ctx
    parent.nmerge += 1
    key = (tuple(parent.decisions), parent.nmerge)
    alts = parent.expl.cache.get(key)
    start = None
    if alts is None:
      alts = []
      expl = Exploration()
      stack = [()]
      depth = self.depth
      node, mod = self.node, self.mod
      n = 0
      try:
        while stack:
          prefix = stack.pop()
          sub = Ctx(parent.region, prefix, expl, True)
          sub.stmt = stmt
          sub.outer_try = parent.outer_try or parent.try_depth > 0
          if start is None:
            start = sub.start
          self.ctx = sub
          self.depth = depth
          self.node, self.mod = node, mod
          try:
            v = thunk()
            alts.append((sub.region, 'ok', v, sub.events, sub.ret_site))
          except Throw as t:
            alts.append((sub.region, 'exc', t.exc, sub.events, self.where()))
          except Infeasible:
            pass
          except Undecided as u:
            self.undecided.append((str(u), self.where()))
            alts.append((sub.region, 'undecided', str(u), sub.events, self.where()))
          finally:
            if sub.undo:
              self._undo(sub)
          for s in sub.side:
            alts.append((s.region, s.kind, s.value, s.events, s.site))
          stack.extend(sub.pending)
          n += 1
          self.n_paths += 1
          if n > self.budget:
            raise Undecided('more than %d paths in a call' % self.budget)
      finally:
        self.ctx = parent
        self.depth = depth
      self.node, self.mod = node, mod
      if not alts:
        raise Infeasible()
      alts = [(r.delta_from(parent.region), k, v, ev, site) for r, k, v, ev, site in alts]
      if stmt is None and all(k == 'ok' and ref_free(v) and all(ref_free_event(e) for e in ev) for _, k, v, ev, _s in alts):
        parent.expl.cache[key] = alts
    return alts, start

  def split_exceptions(self, alts):
    """deal with the alternatives that raise; returns (ok alternatives, exceptions)"""
    parent = self.ctx
    ok = [a for a in alts if a[1] == 'ok']
    exc = [a for a in alts if a[1] != 'ok']
    if not exc:
      return ok, exc
    und = [a for a in exc if a[1] == 'undecided']
    if und and len(und) == len(alts):
      parent.events.extend(und[0][3])
      raise Undecided(und[0][2])
    free = parent.try_depth == 0 and not parent.outer_try
    if und or (parent.try_depth == 0 and ok) or free:
      # nothing catches it here: the exception ends this path, record it as its own leaf
      out = exc if free or (parent.try_depth == 0 and ok) else und
      if parent.pos >= len(parent.prefix):
        for d, k, v, ev, site in out:
          r = parent.region.assume(d)
          if r is not None:
            parent.side.append(Leaf(r, k, v, parent.events + list(ev), site))
      r = parent.region
      if not ok and out is exc:
        raise Infeasible()
      if out is exc and len(ok) == 1:
        # the parts are disjoint and cover the region: what is left is the one that returns
        r = r.assume(ok[0][0])
        if r is None:
          raise Infeasible()
      else:
        for a in out:
          r = r.assume(negate(a[0]))
          if r is None:
            raise Infeasible()
      parent.region = r
      if out is exc:
        return ok, exc
      exc = [a for a in exc if a[1] != 'undecided']
      if not exc:
        return ok, und
    if not ok:
      i = self.choose([a[0] for a in exc]) if len(exc) > 1 else 0
      if len(exc) == 1:
        self.commit(exc[0][0])
      parent.events.extend(exc[i][3])
      raise Throw(exc[i][2])
    okd = join_deltas([negate(a[0]) for a in exc])
    i = self.choose([okd] + [a[0] for a in exc])
    if i > 0:
      a = exc[i - 1]
      parent.events.extend(a[3])
      raise Throw(a[2])
    return ok, exc

  # statements as summaries ---------------------------------------------------

  def merge_stmt(self, st, fr, run):
    """run one statement on every part of the region and join what it did to
    local names and objects into guarded values"""
    if self.ctx.start == 0 or fr.func is None or fr.is_class or st in self.plain or not mergeable(self, st):
      return run(st, fr)
    parent = self.ctx
    before = dict(fr.vars)

    def thunk():
      fr.vars.clear()
      fr.vars.update(before)
      sig = run(st, fr)
      if sig is not None:
        raise StmtFail()
      sub = self.ctx
      objs = {}
      for o, snap in sub.undo:
        if id(o) not in objs:
          objs[id(o)] = (o, snapshot(o))
      r = (dict(fr.vars), objs)
      return r
    try:
      alts, start = self.alternatives(thunk, st)
      if len(alts) > 1:
        if parent.try_depth > 0 and any(a[1] == 'exc' for a in alts):
          raise StmtFail()
    except StmtFail:
      self.plain.add(st)
      raise Restart()
    finally:
      fr.vars.clear()
      fr.vars.update(before)
    if len(alts) == 1 and alts[0][1] == 'exc' and (parent.try_depth > 0 or parent.outer_try):
      # keep what happened before the exception
      self.ctx.nmerge += 1
      return run(st, fr)
    ok, exc = self.split_exceptions(alts)
    if len(ok) == 1:
      d, _, (vars_, objs), ev, site = ok[0]
      if not exc:
        self.commit(d)
      parent.events.extend(ev)
      fr.vars.clear()
      fr.vars.update(vars_)
      for o, state in objs.values():
        self.mut(o)
        restore(o, state)
      return None
    try:
      ds = [a[0] for a in ok]
      vars_ = merge_maps(ds, [a[2][0] for a in ok], start)
      ids = {}
      for a in ok:
        for i, (o, stt) in a[2][1].items():
          ids[i] = o
      states = []
      for i, o in ids.items():
        sts = [a[2][1][i][1] if i in a[2][1] else snapshot(o) for a in ok]
        states.append((o, merge_states(o, ds, sts, start)))
    except StmtFail:
      self.plain.add(st)
      raise Restart()
    if any(a[3] for a in ok):
      parent.events.append(('cond', [(a[0], a[3]) for a in ok]))
    fr.vars.clear()
    fr.vars.update(vars_)
    for o, state in states:
      self.mut(o)
      restore(o, state)
    return None

  def commit(self, delta):
    if delta is EMPTY_DELTA or not (delta[0] or delta[1] or delta[2]):
      return
    r = self.ctx.region.assume(delta)
    if r is None:
      raise Infeasible()
    self.ctx.region = r

  def force(self, v):
    while isinstance(v, Union):
      i = self.choose([a.delta for a in v.alts])
      v = v.alts[i].value
    return v

  def lift(self, fn, *args):
    """apply a pure operation to values that may be guarded alternatives"""
    for a in args:
      if isinstance(a, Union):
        break
    else:
      return fn(*args)
    depth = self.depth
    try:
      return self.explore_merge(lambda: fn(*[self.force(a) for a in args]))
    except Impure:
      self.depth = depth
    return fn(*[self.force(a) for a in args])

  def mut(self, obj):
    """about to change obj"""
    c = self.ctx
    if obj.birth < c.start:
      if c.stmt is not None:
        if isinstance(obj, AIter):
          raise StmtFail()
        if id(obj) not in c.undone:
          c.undone.add(id(obj))
          c.undo.append((obj, snapshot(obj)))
        return
      if c.merge:
        raise Impure(obj)
      if id(obj) not in c.undone:
        c.undone.add(id(obj))
        c.undo.append((obj, snapshot(obj)))
      c.events.append(('shared-write', describe(obj), self.where()))

  def event(self, *e):
    self.ctx.events.append(e)

  def where(self):
    n = self.node
    return '%s:%s' % (self.mod.path if self.mod is not None and self.mod.path else '?', getattr(n, 'lineno', '?'))

  # ---------------------------------------------------------------- exceptions

  def throw(self, name, *args):
    raise Throw(self.make_exc(name, *args))

  def make_exc(self, name, *args):
    cls = self.exc_classes.get(name)
    if cls is None:
      raise Undecided('exception ' + name)
    o = AObj(cls, self.where())
    o.attrs['args'] = tuple(args)
    return o

  def host_error(self, e):
    name = type(e).__name__
    for k in type(e).__mro__:
      if k.__name__ in self.exc_classes:
        name = k.__name__
        break
    raise Throw(self.make_exc(name, str(e)))

  # ---------------------------------------------------------------- modules

  def find_module(self, name):
    parts = name.split('.')
    root = self.roots.get(parts[0])
    if root is None:
      return None
    p = os.path.join(root, *parts[1:])
    if os.path.isdir(p):
      f = os.path.join(p, '__init__.py')
      return f if os.path.exists(f) else p
    if os.path.exists(p + '.py'):
      return p + '.py'
    return ''

  def load(self, name):
    m = self.modules.get(name)
    if m is not None:
      return m
    path = self.find_module(name)
    if path is None:
      m = self.M.external_module(self, name)
      self.modules[name] = m
      return m
    if path == '':
      self.throw('ModuleNotFoundError', 'No module named %r' % name)
    if '.' in name:
      self.load(name.rsplit('.', 1)[0])
      m = self.modules.get(name)
      if m is not None:
        return m
    m = Module(name, path)
    self.modules[name] = m
    m.vars['__name__'] = name
    m.vars['__file__'] = path
    m.vars['__doc__'] = None
    m.vars['__builtins__'] = None
    if os.path.isfile(path):
      with open(path, encoding='utf-8') as f:
        src = f.read()
      m.tree = ast.parse(src, path)
      self.parsed[name] = m.tree
      info = new_info()
      fr = Frame(m, None, info)
      fr.vars = m.vars
      save = self.mod, self.node
      self.mod = m
      for st in m.tree.body:
        self.top(st, fr)
      self.mod, self.node = save
    if '.' in name:
      p, c = name.rsplit('.', 1)
      self.modules[p].vars[c] = m
    return m

  def top(self, st, fr):
    """a statement of a module; what it cannot work out is lost, and only that"""
    try:
      return self.block([st], fr)
    except Undecided as u:
      why = '%s:%s: %s' % (fr.module.path, st.lineno, u)
    names = set()
    for x in ast.walk(st):
      if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
        names.add(x.id)
      elif isinstance(x, ast.alias):
        names.add((x.asname or x.name).split('.')[0])
      elif isinstance(x, (ast.Attribute, ast.Subscript)) and (isinstance(x.ctx, ast.Store) or isinstance(x, ast.Attribute)):
        # x.f = ..., x[k] = ..., x.update(...)
        while isinstance(x, (ast.Attribute, ast.Subscript)):
          x = x.value
        if isinstance(x, ast.Name) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
          names.add(x.id)
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
      names = {st.name}
    self.lost.append(why)
    for n in names:
      if isinstance(fr.vars.get(n), Module):
        continue
      fr.vars[n] = Lost(why)

  # ---------------------------------------------------------------- names

  def lookup(self, fr, name):
    f = fr
    first = True
    while f is not None:
      if first or not f.is_class:
        if name in f.info.globals:
          break
        if name in f.vars:
          return f.vars[name]
        if f.func is not None and name in f.info.locals and name not in f.info.nonlocals:
          self.throw('UnboundLocalError', name)
      first = False
      f = f.parent
    v = fr.module.vars.get(name, _MISSING)
    if v is not _MISSING:
      return v
    v = self.builtins.get(name, _MISSING)
    if v is not _MISSING:
      return v
    self.throw('NameError', "name '%s' is not defined" % name)

  def store(self, fr, name, value):
    info = fr.info
    if name in info.globals:
      self.mut(fr.module)
      fr.module.vars[name] = value
      return
    if name in info.nonlocals:
      f = fr.parent
      while f is not None:
        if not f.is_class and name in f.vars:
          self.mut(f)
          f.vars[name] = value
          return
        f = f.parent
      fr.parent.vars[name] = value
      return
    if fr.vars is fr.module.vars:
      self.mut(fr.module)
    fr.vars[name] = value

  # ---------------------------------------------------------------- statements

  def block(self, body, fr):
    for st in body:
      r = self.stmt(st, fr)
      if r is not None:
        return r
    return None

  def stmt(self, st, fr):
    if type(st) in MERGED:
      return self.merge_stmt(st, fr, self.stmt1)
    return self.stmt1(st, fr)

  def stmt1(self, st, fr):
    self.node = st
    self.steps += 1
    if self.step_limit is not None and self.steps > self.step_limit:
      raise Undecided('analysis budget used up')
    h = self.st_table.get(type(st))
    if h is None:
      raise Undecided('statement ' + type(st).__name__)
    return h(st, fr)

  def _dispatch(self):
    self.st_table = {getattr(ast, k[3:]): getattr(self, k) for k in dir(self) if k.startswith('st_')}
    self.ex_table = {getattr(ast, k[3:]): getattr(self, k) for k in dir(self) if k.startswith('ex_')}

  def st_Expr(self, st, fr):
    self.ev(st.value, fr)

  def st_Pass(self, st, fr):
    pass

  def st_Assign(self, st, fr):
    v = self.ev(st.value, fr)
    for t in st.targets:
      self.assign(t, v, fr)

  def st_AnnAssign(self, st, fr):
    if fr.is_class and isinstance(st.target, ast.Name):
      ann = fr.vars.setdefault('__annotations__', {})
      ann[st.target.id] = st.annotation
    if st.value is not None:
      self.assign(st.target, self.ev(st.value, fr), fr)

  def st_AugAssign(self, st, fr):
    t = st.target
    if isinstance(t, ast.Name):
      old = self.lookup(fr, t.id)
      v = self.ev(st.value, fr)
      self.node = st
      self.store(fr, t.id, self.inplace(st.op, old, v))
    elif isinstance(t, ast.Attribute):
      o = self.force(self.ev(t.value, fr))
      old = self.getattr(o, t.attr)
      v = self.ev(st.value, fr)
      self.node = st
      self.setattr(o, t.attr, self.inplace(st.op, old, v))
    elif isinstance(t, ast.Subscript):
      o = self.force(self.ev(t.value, fr))
      k = self.ev(t.slice, fr)
      old = self.getitem(o, k)
      v = self.ev(st.value, fr)
      self.node = st
      self.setitem(o, k, self.inplace(st.op, old, v))

  def inplace(self, op, a, b):
    a = self.force(a) if isinstance(a, Union) and not self.S.union_str(a) else a
    if isinstance(a, AList) and isinstance(op, ast.Add):
      self.mut(a)
      items = list(self.iterate(b))
      list.extend(a, items)
      return a
    if isinstance(a, ASet) and isinstance(op, ast.BitOr) and not a.frozen:
      self.mut(a)
      for x in self.force(b).items:
        a.items[x] = None
      return a
    if isinstance(a, ADict) and isinstance(op, ast.BitOr):
      self.M.dict_update(self, a, b)
      return a
    if isinstance(a, AObj):
      m = self.class_attr(a.cls, '__i%s__' % OPNAME.get(type(op), '?'))
      if m is not None:
        return self.call(Bound(m, a), [b], {})
    return self.binop(op, a, b)

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      self.store(fr, t.id, v)
    elif isinstance(t, ast.Attribute):
      o = self.force(self.ev(t.value, fr))
      self.setattr(o, t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.force(self.ev(t.value, fr))
      self.setitem(o, self.ev(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      self.unpack(t.elts, v, fr)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, fr)
    else:
      raise Undecided('assignment target')

  def unpack(self, elts, v, fr):
    items = list(self.iterate(v))
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if star:
      s = star[0]
      after = len(elts) - s - 1
      if len(items) < len(elts) - 1:
        self.throw('ValueError', 'not enough values to unpack')
      for e, x in zip(elts[:s], items[:s]):
        self.assign(e, x, fr)
      self.assign(elts[s].value, AList(items[s:len(items) - after]), fr)
      for e, x in zip(elts[s + 1:], items[len(items) - after:]):
        self.assign(e, x, fr)
      return
    if len(items) > len(elts):
      self.throw('ValueError', 'too many values to unpack')
    if len(items) < len(elts):
      self.throw('ValueError', 'not enough values to unpack')
    for e, x in zip(elts, items):
      self.assign(e, x, fr)

  def st_Return(self, st, fr):
    v = self.ev(st.value, fr) if st.value is not None else None
    self.ctx.ret_site = (fr.module.path, st.lineno)
    return ('return', v)

  def st_If(self, st, fr):
    if self.cond(st.test, fr):
      return self.block(st.body, fr)
    return self.block(st.orelse, fr)

  def st_While(self, st, fr):
    n = 0
    while self.cond(st.test, fr):
      n += 1
      if n > 20000:
        raise Undecided('loop bound')
      r = self.block(st.body, fr)
      if r is BREAK:
        return None
      if r is not None and r is not CONTINUE:
        return r
    return self.block(st.orelse, fr)

  def st_For(self, st, fr):
    it = self.iterate(self.ev(st.iter, fr))
    out = _MISSING
    try:
      for x in it:
        self.assign(st.target, x, fr)
        r = self.block(st.body, fr)
        if r is BREAK:
          out = None
          break
        if r is not None and r is not CONTINUE:
          out = r
          break
    except Throw:
      # nothing else holds the iterator: generators that wait in it end here
      self.drop([it])
      it = None
      raise
    if out is not _MISSING:
      if not isinstance(st.iter, (ast.Name, ast.Attribute)):
        self.drop([it])
      return out
    return self.block(st.orelse, fr)

  def drop(self, box):
    """the last reference to an iterator goes: a generator that waits runs its exits"""
    it = box.pop()
    if type(it) is GENERATOR:
      old, self.closing = self.closing, True
      try:
        it.close()
      except RuntimeError:
        pass
      finally:
        self.closing = old

  def st_Break(self, st, fr):
    return BREAK

  def st_Continue(self, st, fr):
    return CONTINUE

  def st_Global(self, st, fr):
    fr.info.globals.update(st.names)

  def st_Nonlocal(self, st, fr):
    pass

  def st_Assert(self, st, fr):
    if not self.cond(st.test, fr):
      args = [self.ev(st.msg, fr)] if st.msg is not None else []
      self.throw('AssertionError', *args)

  def st_Delete(self, st, fr):
    for t in st.targets:
      if isinstance(t, ast.Name):
        if fr.vars is fr.module.vars or t.id in fr.info.globals:
          self.mut(fr.module)
          fr.module.vars.pop(t.id, None)
        else:
          fr.vars.pop(t.id, None)
      elif isinstance(t, ast.Attribute):
        o = self.force(self.ev(t.value, fr))
        self.delattr(o, t.attr)
      elif isinstance(t, ast.Subscript):
        o = self.force(self.ev(t.value, fr))
        self.M.delitem(self, o, self.ev(t.slice, fr))
      else:
        raise Undecided('del')

  def st_Raise(self, st, fr):
    if st.exc is None:
      e = self.current_exc(fr)
      if e is None:
        self.throw('RuntimeError', 'No active exception to reraise')
      raise Throw(e)
    v = self.force(self.ev(st.exc, fr))
    if st.cause is not None:
      self.ev(st.cause, fr)
    self.node = st
    if isinstance(v, AClass):
      v = self.call(v, [], {})
    if not isinstance(v, AObj) or self.exc_classes['BaseException'] not in v.cls.mro:
      self.throw('TypeError', 'exceptions must derive from BaseException')
    if v.site is None:
      v.site = self.where()
    raise Throw(v)

  def current_exc(self, fr):
    f = fr
    while f is not None:
      if '@exc' in f.vars:
        return f.vars['@exc']
      f = f.parent
    return None

  def st_Import(self, st, fr):
    for a in st.names:
      m = self.load(a.name)
      if a.asname:
        self.store(fr, a.asname, m)
      else:
        self.store(fr, a.name.split('.')[0], self.load(a.name.split('.')[0]))

  def st_ImportFrom(self, st, fr):
    if st.module == '__future__':
      return
    base = st.module or ''
    if st.level:
      pkg = fr.module.name
      is_pkg = (fr.module.path or '').endswith('__init__.py')
      parts = pkg.split('.')
      drop = st.level - (1 if is_pkg else 0)
      parts = parts[:len(parts) - drop]
      base = '.'.join(parts + ([st.module] if st.module else []))
    m = self.load(base)
    for a in st.names:
      if a.name == '*':
        allv = m.vars.get('__all__')
        names = list(allv) if allv is not None else [k for k in m.vars if not k.startswith('_')]
        for k in names:
          self.store(fr, k, m.vars[k])
        continue
      if a.name in m.vars:
        v = m.vars[a.name]
      elif self.roots.get(base.split('.')[0]) is not None and self.find_module(base + '.' + a.name):
        v = self.load(base + '.' + a.name)
      elif m.external:
        v = self.M.external_attr(self, m, a.name)
      else:
        self.throw('ImportError', "cannot import name '%s'" % a.name)
      self.store(fr, a.asname or a.name, v)

  def st_FunctionDef(self, st, fr):
    f = self.make_func(st, fr, st.name)
    v = f
    for d in reversed(st.decorator_list):
      v = self.call(self.ev(d, fr), [v], {})
    self.store(fr, st.name, v)

  def make_func(self, node, fr, name):
    a = node.args
    info = self.infos.get(node)
    if info is None:
      info = new_info()
      for x in a.posonlyargs + a.args + a.kwonlyargs:
        info.locals.add(x.arg)
      if a.vararg:
        info.locals.add(a.vararg.arg)
      if a.kwarg:
        info.locals.add(a.kwarg.arg)
      if isinstance(node, ast.Lambda):
        _scan1(node.body, info)
      else:
        _scan(node.body, info)
      info.locals -= info.globals
      self.infos[node] = info
    defaults = [self.ev(d, fr) for d in a.defaults]
    kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    closure = fr
    f = AFunc(name, node, fr.module, closure, defaults, kwd, info)
    return f

  def st_ClassDef(self, st, fr):
    bases = []
    for b in st.bases:
      v = self.force(self.ev(b, fr))
      if isinstance(v, AClass):
        bases.append(v)
      elif isinstance(v, (External, Builtin)) or v is None:
        r = self.M.base_class(self, v)
        if r is not None:
          bases.append(r)
      else:
        bases.append(self.M.base_class(self, v) or self.types['object'])
    if not bases:
      bases = [self.types['object']]
    info = new_info()
    cf = Frame(fr.module, fr, info, is_class=True)
    cf.vars['__module__'] = fr.module.name
    cf.vars['__qualname__'] = st.name
    doc = ast.get_docstring(st)
    cf.vars['__doc__'] = doc
    self.block(st.body, cf)
    ann = cf.vars.pop('__annotations__', {})
    cls = AClass(st.name, tuple(bases), cf.vars, module=fr.module)
    cls.site = '%s:%d' % (fr.module.path, st.lineno)
    cls.attrs['__annotations__'] = ann
    for k, v in list(cls.attrs.items()):
      f = v.fn if isinstance(v, (StaticM, ClassM)) else v.fget if isinstance(v, Prop) else v
      if isinstance(f, AFunc) and f.owner is None:
        f.owner = cls
    self.M.finish_class(self, cls, st, {k.arg: self.ev(k.value, fr) for k in st.keywords if k.arg})
    v = cls
    for d in reversed(st.decorator_list):
      v = self.call(self.ev(d, fr), [v], {})
    self.store(fr, st.name, v)

  # try / with --------------------------------------------------------------

  def st_Try(self, st, fr):
    gen = self.try_gen(st, fr, lambda body: _once(self.block(body, fr)))
    return run_gen(gen)

  def try_gen(self, st, fr, run):
    """generator form shared by plain and generator functions; run(body) is a
    generator that executes a block and returns its signal"""
    sig = None
    pend = None
    ctx = self.ctx
    depth = self.depth
    ctx.try_depth += 1
    try:
      sig = yield from run(st.body)
      ok = True
    except Throw as t:
      ok = False
      pend = t
    except GeneratorExit:
      if self.closing and ctx is self.ctx and st.finalbody and not any(has_yield(x) for x in st.finalbody):
        self.block(st.finalbody, fr)
      raise
    finally:
      ctx.try_depth -= 1
    if not ok:
      self.depth = depth
      for h in st.handlers:
        if h.type is None or self.exc_matches(pend.exc, self.ev(h.type, fr)):
          if h.name:
            self.store(fr, h.name, pend.exc)
          old = fr.vars.get('@exc', _MISSING)
          fr.vars['@exc'] = pend.exc
          pend = None
          if st.finalbody:
            ctx.try_depth += 1
          try:
            sig = yield from run(h.body)
          except Throw as t2:
            pend = t2
          finally:
            if st.finalbody:
              ctx.try_depth -= 1
            if old is _MISSING:
              fr.vars.pop('@exc', None)
            else:
              fr.vars['@exc'] = old
          break
    else:
      if st.orelse and sig is None:
        if st.finalbody:
          ctx.try_depth += 1
        try:
          sig = yield from run(st.orelse)
        except Throw as t3:
          pend = t3
        finally:
          if st.finalbody:
            ctx.try_depth -= 1
    if st.finalbody:
      fs = yield from run(st.finalbody)
      if fs is not None:
        return fs
    if pend is not None:
      raise pend
    return sig

  def exc_matches(self, exc, types):
    types = self.force(types)
    if isinstance(types, tuple):
      return any(self.exc_matches(exc, t) for t in types)
    if isinstance(types, AClass):
      return types in exc.cls.mro
    raise Undecided('except clause type')

  def st_With(self, st, fr):
    gen = self.with_gen(st, 0, fr, lambda body: _once(self.block(body, fr)))
    return run_gen(gen)

  def with_gen(self, st, i, fr, run):
    if i >= len(st.items):
      return (yield from run(st.body))
    item = st.items[i]
    cm = self.force(self.ev(item.context_expr, fr))
    enter = self.special(cm, '__enter__')
    exit_ = self.special(cm, '__exit__')
    if enter is None or exit_ is None:
      self.throw('TypeError', 'object does not support the context manager protocol')
    v = self.call(enter, [], {})
    ctx = self.ctx
    depth = self.depth
    ctx.try_depth += 1
    try:
      if item.optional_vars is not None:
        self.assign(item.optional_vars, v, fr)
      sig = yield from self.with_gen(st, i + 1, fr, run)
      pend = None
    except Throw as t:
      pend = t
      sig = None
    except GeneratorExit:
      # the generator was dropped while it waited in here
      if ctx is self.ctx and self.closing:
        self.call(exit_, [None, None, None], {})
      raise
    finally:
      ctx.try_depth -= 1
    self.depth = depth
    if pend is None:
      self.call(exit_, [None, None, None], {})
      return sig
    r = self.call(exit_, [pend.exc.cls, pend.exc, None], {})
    if self.truth(r):
      return None
    raise pend

  # match --------------------------------------------------------------------

  def st_Match(self, st, fr):
    v = self.ev(st.subject, fr)
    v = self.force(v)
    for case in st.cases:
      binds = {}
      if self.pat(case.pattern, v, fr, binds):
        for k, x in binds.items():
          self.store(fr, k, x)
        if case.guard is None or self.cond(case.guard, fr):
          return self.block(case.body, fr)
    return None

  def pat(self, p, v, fr, binds):
    if isinstance(p, ast.MatchValue):
      return self.eq(v, self.ev(p.value, fr))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None and not self.pat(p.pattern, v, fr, binds):
        return False
      if p.name:
        binds[p.name] = v
      return True
    if isinstance(p, ast.MatchOr):
      consts = []
      for q in p.patterns:
        if isinstance(q, ast.MatchValue):
          consts.append(self.ev(q.value, fr))
        else:
          consts = None
          break
      if consts is not None:
        return self.contains(tuple(consts), v)
      return any(self.pat(q, v, fr, binds) for q in p.patterns)
    if isinstance(p, ast.MatchSequence):
      if self.is_str(v) or not isinstance(v, (AList, tuple)):
        return False
      items = list(v)
      star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
      if not star:
        if len(items) != len(p.patterns):
          return False
        return all(self.pat(q, self.force(x), fr, binds) for q, x in zip(p.patterns, items))
      s = star[0]
      after = len(p.patterns) - s - 1
      if len(items) < len(p.patterns) - 1:
        return False
      for q, x in zip(p.patterns[:s], items[:s]):
        if not self.pat(q, self.force(x), fr, binds):
          return False
      if p.patterns[s].name:
        binds[p.patterns[s].name] = AList(items[s:len(items) - after])
      for q, x in zip(p.patterns[s + 1:], items[len(items) - after:]):
        if not self.pat(q, self.force(x), fr, binds):
          return False
      return True
    if isinstance(p, ast.MatchMapping):
      if not isinstance(v, ADict):
        return False
      for k, q in zip(p.keys, p.patterns):
        found, val = self.M.dict_find(self, v, self.ev(k, fr))
        if not found or not self.pat(q, self.force(val), fr, binds):
          return False
      return True
    if isinstance(p, ast.MatchClass):
      cls = self.force(self.ev(p.cls, fr))
      if not self.M.isinstance_(self, v, cls):
        return False
      if p.patterns:
        if cls.host in (str, int, float, bool, list, dict, tuple, set, bytes, frozenset):
          if not self.pat(p.patterns[0], v, fr, binds):
            return False
        else:
          names = self.class_attr(cls, '__match_args__')
          for q, nme in zip(p.patterns, names):
            if not self.pat(q, self.force(self.getattr(v, nme)), fr, binds):
              return False
      for nme, q in zip(p.kwd_attrs, p.kwd_patterns):
        if not self.M.hasattr_(self, v, nme) or not self.pat(q, self.force(self.getattr(v, nme)), fr, binds):
          return False
      return True
    raise Undecided('pattern ' + type(p).__name__)

  # ---------------------------------------------------------------- generators

  def gen_block(self, body, fr):
    for st in body:
      if has_yield(st):
        r = yield from self.gen_stmt(st, fr)
      else:
        r = self.stmt(st, fr)
      if r is not None:
        return r
    return None

  def gen_value(self, node, fr):
    """evaluate an expression that is a yield at the top"""
    if isinstance(node, ast.Yield):
      v = self.ev(node.value, fr) if node.value is not None else None
      got = yield v
      return got
    if isinstance(node, ast.YieldFrom):
      src = self.ev(node.value, fr)
      for x in self.iterate(src):
        yield x
      return None
    if has_yield(node):
      raise Undecided('yield inside an expression')
    return self.ev(node, fr)

  def gen_stmt(self, st, fr):
    self.node = st
    if isinstance(st, ast.Expr):
      yield from self.gen_value(st.value, fr)
      return None
    if isinstance(st, ast.Assign):
      v = yield from self.gen_value(st.value, fr)
      for t in st.targets:
        self.assign(t, v, fr)
      return None
    if isinstance(st, ast.Return):
      v = yield from self.gen_value(st.value, fr)
      return ('return', v)
    if isinstance(st, ast.If):
      if self.cond(st.test, fr):
        return (yield from self.gen_block(st.body, fr))
      return (yield from self.gen_block(st.orelse, fr))
    if isinstance(st, ast.While):
      while self.cond(st.test, fr):
        r = yield from self.gen_block(st.body, fr)
        if r is BREAK:
          return None
        if r is not None and r is not CONTINUE:
          return r
      return (yield from self.gen_block(st.orelse, fr))
    if isinstance(st, ast.For):
      for x in self.iterate(self.ev(st.iter, fr)):
        self.assign(st.target, x, fr)
        r = yield from self.gen_block(st.body, fr)
        if r is BREAK:
          return None
        if r is not None and r is not CONTINUE:
          return r
      return (yield from self.gen_block(st.orelse, fr))
    if isinstance(st, ast.Try):
      return (yield from self.try_gen(st, fr, lambda body: self.gen_block(body, fr)))
    if isinstance(st, ast.With):
      return (yield from self.with_gen(st, 0, fr, lambda body: self.gen_block(body, fr)))
    if isinstance(st, ast.Match):
      v = self.force(self.ev(st.subject, fr))
      for case in st.cases:
        binds = {}
        if self.pat(case.pattern, v, fr, binds):
          for k, x in binds.items():
            self.store(fr, k, x)
          if case.guard is None or self.cond(case.guard, fr):
            return (yield from self.gen_block(case.body, fr))
      return None
    raise Undecided('yield in ' + type(st).__name__)

  # ---------------------------------------------------------------- expressions

  def ev(self, n, fr):
    h = self.ex_table.get(type(n))
    if h is None:
      raise Undecided('expression ' + type(n).__name__)
    return h(n, fr)

  def ex_Constant(self, n, fr):
    return n.value

  def ex_Name(self, n, fr):
    v = fr.vars.get(n.id, _MISSING)
    if v is not _MISSING and n.id not in fr.info.globals:
      if type(v) is Union and any(a.value is UNBOUND for a in v.alts):
        v = self.force(v)
      if v is UNBOUND:
        self.throw('UnboundLocalError', n.id)
      if type(v) is Lost:
        raise Undecided(v.why)
      return v
    v = self.lookup(fr, n.id)
    if type(v) is Lost:
      raise Undecided(v.why)
    return v

  def ex_Attribute(self, n, fr):
    o = self.ev(n.value, fr)
    return self.getattr(o, n.attr)

  def ex_Subscript(self, n, fr):
    o = self.ev(n.value, fr)
    k = self.ev(n.slice, fr)
    self.node = n
    return self.getitem(o, k)

  def ex_Slice(self, n, fr):
    lo = self.force(self.ev(n.lower, fr)) if n.lower is not None else None
    hi = self.force(self.ev(n.upper, fr)) if n.upper is not None else None
    st = self.force(self.ev(n.step, fr)) if n.step is not None else None
    return slice(lo, hi, st)

  def elements(self, elts, fr):
    out = []
    for e in elts:
      if isinstance(e, ast.Starred):
        out.extend(self.iterate(self.ev(e.value, fr)))
      else:
        out.append(self.ev(e, fr))
    return out

  def ex_Tuple(self, n, fr):
    return tuple(self.elements(n.elts, fr))

  def ex_List(self, n, fr):
    return AList(self.elements(n.elts, fr))

  def ex_Set(self, n, fr):
    return self.M.make_set(self, self.elements(n.elts, fr))

  def ex_Dict(self, n, fr):
    d = ADict()
    for k, v in zip(n.keys, n.values):
      if k is None:
        self.M.dict_update(self, d, self.ev(v, fr))
      else:
        kk = self.ev(k, fr)
        self.M.dict_set(self, d, kk, self.ev(v, fr))
    return d

  def ex_BinOp(self, n, fr):
    a = self.ev(n.left, fr)
    b = self.ev(n.right, fr)
    self.node = n
    return self.binop(n.op, a, b)

  def ex_UnaryOp(self, n, fr):
    v = self.ev(n.operand, fr)
    if isinstance(n.op, ast.Not):
      if isinstance(v, Union):
        return self.lift(lambda x: not self.truth(x), v)
      return not self.truth(v)
    return self.lift(lambda x: self.unary(n.op, x), v)

  def unary(self, op, x):
    x = self.S.norm(self, x)
    if isinstance(x, Term):
      if isinstance(op, ast.UAdd):
        return x
      if isinstance(op, ast.USub):
        return Term('float' if x.ty == 'float' else 'int', 'neg', (x,))
      raise Undecided('unary on a symbolic number')
    if isinstance(x, AObj):
      m = self.special(x, {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(op)])
      if m is not None:
        return self.call(m, [], {})
    try:
      if isinstance(op, ast.USub):
        return -x
      if isinstance(op, ast.UAdd):
        return +x
      return ~x
    except TypeError as e:
      self.host_error(e)

  def ex_BoolOp(self, n, fr):
    return self.merge_expr(n, fr, self.boolop)

  def boolop(self, n, fr):
    is_and = isinstance(n.op, ast.And)
    v = None
    for i, e in enumerate(n.values):
      v = self.ev(e, fr)
      if i == len(n.values) - 1:
        return v
      if isinstance(v, Union):
        v = self.force(v)
      t = self.truth(v)
      if is_and and not t:
        return v
      if not is_and and t:
        return v
    return v

  def ex_IfExp(self, n, fr):
    return self.merge_expr(n, fr, self.ifexp)

  def ifexp(self, n, fr):
    if self.cond(n.test, fr):
      return self.ev(n.body, fr)
    return self.ev(n.orelse, fr)

  def cond(self, n, fr):
    """truth of an expression in a test"""
    if isinstance(n, ast.BoolOp):
      if isinstance(n.op, ast.And):
        return all(self.cond(e, fr) for e in n.values)
      return any(self.cond(e, fr) for e in n.values)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      return not self.cond(n.operand, fr)
    if isinstance(n, ast.IfExp):
      return self.cond(n.body if self.cond(n.test, fr) else n.orelse, fr)
    return self.truth(self.ev(n, fr))

  def merge_expr(self, n, fr, fn):
    if self.ctx.start == 0 or n in self.plain:
      return fn(n, fr)
    before = dict(fr.vars)
    def thunk():
      v = fn(n, fr)
      if len(fr.vars) != len(before):
        raise StmtFail()
      return v
    try:
      return self.explore_merge(thunk, n)
    except (Impure, StmtFail):
      self.plain.add(n)
      raise Restart()

  def ex_Compare(self, n, fr):
    left = self.ev(n.left, fr)
    r = True
    for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
      right = self.ev(c, fr)
      self.node = n
      r = self.compare(op, left, right)
      if i < len(n.ops) - 1:
        if not self.truth(r):
          return r if not isinstance(r, Union) else False
      left = right
    return r

  def compare(self, op, a, b):
    if isinstance(a, Union) or isinstance(b, Union):
      return self.lift(lambda x, y: self.compare(op, x, y), a, b)
    if isinstance(op, (ast.Is, ast.IsNot)):
      r = self.is_(a, b)
      return r if isinstance(op, ast.Is) else not r
    if isinstance(op, ast.Eq):
      return self.eq_op(a, b)
    if isinstance(op, ast.NotEq):
      if isinstance(a, AObj):
        m = self.special(a, '__ne__')
        if m is not None:
          return self.call(m, [b], {})
      return not self.truth(self.eq_op(a, b))
    if isinstance(op, ast.In):
      return self.contains(b, a)
    if isinstance(op, ast.NotIn):
      return not self.contains(b, a)
    return self.S.order(self, OPNAME[type(op)], a, b)

  def is_(self, a, b):
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
      return a is b
    if isinstance(a, Bound) and isinstance(b, Bound):
      return False
    if isinstance(a, (int, float, str, tuple, SStr, Term)) or isinstance(b, (int, float, str, tuple, SStr, Term)):
      if a is b:
        return True
      return type(a) is type(b) and isinstance(a, (int, str)) and a == b
    return a is b

  def eq_op(self, a, b):
    if isinstance(a, AObj):
      m = self.special(a, '__eq__')
      if m is not None:
        r = self.call(m, [b], {})
        if r is not NotImpl:
          return r
    if isinstance(b, AObj) and b is not a:
      m = self.special(b, '__eq__')
      if m is not None:
        r = self.call(m, [a], {})
        if r is not NotImpl:
          return r
    return self.eq(a, b)

  def eq(self, a, b):
    """equality as a host bool (partitions the region when needed)"""
    if isinstance(a, Union):
      a = self.force(a)
    if isinstance(b, Union):
      b = self.force(b)
    return self.S.equal(self, a, b)

  def truth(self, v):
    if v is True or v is False or v is None:
      return bool(v)
    if isinstance(v, Union):
      try:
        ts = [const_truth(a.value) for a in v.alts]
      except ValueError:
        ts = None
      if ts is not None and all(t == ts[0] for t in ts):
        return ts[0]
      return self.truth(self.force(v))
    if isinstance(v, (int, float, str, bytes, tuple)):
      return bool(v)
    if isinstance(v, SStr):
      return self.S.truth_str(self, v)
    if isinstance(v, Term):
      return self.S.truth_term(self, v)
    if isinstance(v, AList):
      return len(v) > 0
    if isinstance(v, ADict):
      return len(v.d) > 0
    if isinstance(v, ASet):
      return len(v.items) > 0
    if isinstance(v, AObj):
      m = self.special(v, '__bool__')
      if m is not None:
        return self.truth(self.call(m, [], {}))
      m = self.special(v, '__len__')
      if m is not None:
        return self.truth(self.call(m, [], {}))
      return True
    if isinstance(v, range):
      return len(v) > 0
    if isinstance(v, External):
      raise Undecided('truth of ' + v.name)
    return True

  def contains(self, box, x):
    if isinstance(box, Union):
      box = self.force(box)
    return self.M.contains(self, box, x)

  def ex_Call(self, n, fr):
    f = self.ev(n.func, fr)
    args = []
    for a in n.args:
      if isinstance(a, ast.Starred):
        args.extend(self.iterate(self.ev(a.value, fr)))
      else:
        args.append(self.ev(a, fr))
    kwargs = {}
    for k in n.keywords:
      if k.arg is None:
        d = self.force(self.ev(k.value, fr))
        for kk, vv in d.d.items():
          kwargs[kk] = vv
      else:
        kwargs[k.arg] = self.ev(k.value, fr)
    self.node = n
    if isinstance(f, Builtin) and f.name == 'super' and not args:
      return self.make_super(fr)
    if isinstance(f, Builtin) and f.name in ('locals', 'vars') and not args:
      return ADict(dict(fr.vars))
    if isinstance(f, Builtin) and f.name == 'globals':
      d = ADict(fr.module.vars)
      d.birth = fr.module.birth
      return d
    save = self.mod
    r = self.call(f, args, kwargs)
    self.mod = save
    self.node = n
    return r

  def make_super(self, fr):
    f = fr
    while f is not None and f.func is None:
      f = f.parent
    if f is None or f.func.owner is None:
      raise Undecided('super()')
    first = f.func.node.args
    names = [a.arg for a in first.posonlyargs + first.args]
    return SuperObj(f.func.owner, f.vars[names[0]])

  def ex_Lambda(self, n, fr):
    return self.make_func(n, fr, '<lambda>')

  def ex_JoinedStr(self, n, fr):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(v.value)
      else:
        parts.append(self.fmt_value(v, fr))
    return self.S.concat(self, parts)

  def fmt_value(self, v, fr):
    x = self.ev(v.value, fr)
    spec = ''
    if v.format_spec is not None:
      spec = self.ev(v.format_spec, fr)
      spec = self.S.norm(self, self.force(spec))
      if not isinstance(spec, str):
        raise Undecided('symbolic format spec')
    if v.conversion == 114:
      x = self.S.repr_(self, x)
    elif v.conversion == 115:
      x = self.S.str_(self, x)
    elif v.conversion == 97:
      x = self.S.repr_(self, x)
    return self.S.format_(self, x, spec)

  def ex_FormattedValue(self, n, fr):
    return self.fmt_value(n, fr)

  def ex_NamedExpr(self, n, fr):
    v = self.ev(n.value, fr)
    f = fr
    while f.info is not None and getattr(f, 'func', None) is None and f.parent is not None and f.vars.get('@comp'):
      f = f.parent
    self.store(f, n.target.id, v)
    return v

  def ex_Starred(self, n, fr):
    raise Undecided('starred')

  def ex_Await(self, n, fr):
    raise Undecided('await')

  # comprehensions ------------------------------------------------------------

  def comp(self, gens, fr, emit):
    """host generator over the comprehension's values"""
    first = self.iterate(self.ev(gens[0].iter, fr))
    cf = Frame(fr.module, fr, new_info())
    cf.vars['@comp'] = True

    def run(i, it):
      g = gens[i]
      for x in it:
        self.assign(g.target, x, cf)
        ok = True
        for c in g.ifs:
          if not self.cond(c, cf):
            ok = False
            break
        if not ok:
          continue
        if i + 1 < len(gens):
          yield from run(i + 1, self.iterate(self.ev(gens[i + 1].iter, cf)))
        else:
          yield emit(cf)
    return run(0, first)

  def ex_ListComp(self, n, fr):
    return AList(list(self.comp(n.generators, fr, lambda cf: self.ev(n.elt, cf))))

  def ex_SetComp(self, n, fr):
    return self.M.make_set(self, list(self.comp(n.generators, fr, lambda cf: self.ev(n.elt, cf))))

  def ex_DictComp(self, n, fr):
    d = ADict()
    for k, v in self.comp(n.generators, fr, lambda cf: (self.ev(n.key, cf), self.ev(n.value, cf))):
      self.M.dict_set(self, d, k, v)
    return d

  def ex_GeneratorExp(self, n, fr):
    return AIter(self.comp(n.generators, fr, lambda cf: self.ev(n.elt, cf)), 'generator')

  # ---------------------------------------------------------------- operators

  def binop(self, op, a, b):
    name = OPNAME[type(op)]
    if name == 'add':
      sa, sb = self.S.strlike(a), self.S.strlike(b)
      if sa and sb:
        return self.S.concat(self, [a, b])
    if name == 'mod' and (isinstance(a, (str, SStr)) or self.S.union_str(a)):
      return self.S.percent(self, a, b)
    if isinstance(a, Union) or isinstance(b, Union):
      return self.lift(lambda x, y: self.binop(op, x, y), a, b)
    return self.M.binop(self, name, a, b)

  def iterate(self, v):
    """host iterator over an abstract iterable"""
    if isinstance(v, Union):
      v = self.force(v)
    return self.M.iterate(self, v)

  def is_str(self, v):
    return isinstance(v, (str, SStr))

  # ---------------------------------------------------------------- attributes

  def class_attr(self, cls, name):
    v, _ = cls.lookup(name)
    return v

  def special(self, o, name):
    """bound special method of a value, or None"""
    if isinstance(o, AObj):
      v, c = o.cls.lookup(name)
      if v is None:
        return None
      if isinstance(v, StaticM):
        return v.fn
      return Bound(v, o)
    return None

  def getattr(self, o, name, default=None, has_default=False):
    if isinstance(o, Union):
      if name == '__class__':
        return self.lift(lambda x: self.getattr(x, name), o)
      if all(is_immutable(a.value) for a in o.alts) and self.S.union_str(o):
        return self.M.BM(name, o)
      o = self.force(o)
    return self.M.getattr_(self, o, name)

  def setattr(self, o, name, v):
    return self.M.setattr_(self, o, name, v)

  def delattr(self, o, name):
    return self.M.delattr_(self, o, name)

  def getitem(self, o, k):
    if isinstance(o, Union) or isinstance(k, Union):
      return self.lift(lambda x, y: self.M.getitem(self, x, y), o, k)
    return self.M.getitem(self, o, k)

  def setitem(self, o, k, v):
    return self.M.setitem(self, o, self.force(k), v)

  # ---------------------------------------------------------------- calls

  def call(self, f, args, kwargs):
    if isinstance(f, Union):
      f = self.force(f)
    if isinstance(f, AFunc):
      return self.call_func(f, args, kwargs)
    if isinstance(f, Bound):
      g = f.func
      if isinstance(g, AFunc):
        return self.call_func(g, [f.self] + args, kwargs)
      if isinstance(g, (ClassM,)):
        return self.call(g.fn, [f.self] + args, kwargs)
      return self.call(g, [f.self] + args, kwargs)
    if isinstance(f, Builtin):
      return f.fn(self, args, kwargs)
    if isinstance(f, AClass):
      return self.instantiate(f, args, kwargs)
    if isinstance(f, Partial):
      kw = dict(f.kwargs)
      kw.update(kwargs)
      return self.call(f.fn, list(f.args) + args, kw)
    if isinstance(f, self.M.BM):
      return self.M.call_method(self, f, args, kwargs)
    if isinstance(f, StaticM):
      return self.call(f.fn, args, kwargs)
    if isinstance(f, AObj):
      m = self.special(f, '__call__')
      if m is not None:
        return self.call(m, args, kwargs)
      self.throw('TypeError', "'%s' object is not callable" % f.cls.name)
    if isinstance(f, External):
      return self.M.call_external(self, f, args, kwargs)
    if f is None or isinstance(f, (int, float, str, tuple, AList, ADict, SStr, Module, Term)):
      self.throw('TypeError', 'object is not callable')
    raise Undecided('call of %r' % (f,))

  def bind(self, f, args, kwargs):
    a = f.node.args
    fr = Frame(f.module, f.closure, f.info, f)
    vars_ = fr.vars
    pos = a.posonlyargs + a.args
    npos = len(pos)
    kwargs = dict(kwargs)
    for p, v in zip(pos, args):
      vars_[p.arg] = v
    if len(args) > npos:
      if a.vararg is None:
        self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, npos, len(args)))
    if a.vararg is not None:
      vars_[a.vararg.arg] = tuple(args[npos:])
    for i, p in enumerate(pos[len(args):], len(args)):
      if p.arg in kwargs and p not in a.posonlyargs:
        vars_[p.arg] = kwargs.pop(p.arg)
      else:
        di = i - (npos - len(f.defaults))
        if di >= 0:
          vars_[p.arg] = f.defaults[di]
        else:
          self.throw('TypeError', "%s() missing required argument: '%s'" % (f.name, p.arg))
    for p in a.kwonlyargs:
      if p.arg in kwargs:
        vars_[p.arg] = kwargs.pop(p.arg)
      elif p.arg in f.kwdefaults:
        vars_[p.arg] = f.kwdefaults[p.arg]
      else:
        self.throw('TypeError', "%s() missing keyword argument: '%s'" % (f.name, p.arg))
    if a.kwarg is not None:
      vars_[a.kwarg.arg] = ADict(kwargs)
    elif kwargs:
      bad = next(iter(kwargs))
      self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, bad))
    return fr

  def call_func(self, f, args, kwargs):
    self.n_calls += 1
    self.funcs_seen.add((f.module.name, f.name, f.node.lineno))
    hook = self.hooks.get(f) if self.hooks else None
    if hook is not None:
      return hook(self, f, args, kwargs)
    if f in self.memos:
      return self.call_memo(f, args, kwargs)
    fr = self.bind(f, args, kwargs)
    info = f.info
    if info.is_gen:
      return AIter(self.gen_body(f, fr), 'generator')
    if self.ctx.start == 0 or info.no_merge or f.name == '__init__':
      return self.run_body(f, fr)
    init = dict(fr.vars)

    def thunk():
      fr2 = Frame(f.module, f.closure, info, f)
      fr2.vars = dict(init)
      return self.run_body(f, fr2)
    try:
      return self.explore_merge(thunk, f.node, info)
    except Impure:
      info.no_merge = True
      raise Restart()

  hooks = None

  def call_memo(self, f, args, kwargs):
    """a function behind functools.lru_cache: what it returned between explorations
    is returned again for the same objects; calls with plain values only are computed
    anew (the same values give the same result)"""
    memo = self.memos[f]
    key = tuple(args) + tuple(sorted(kwargs.items()))
    objs = any(isinstance(a, (AObj, AList, ADict)) for a in args)
    if objs or not args:
      for k, v in memo:
        if len(k) == len(key) and all(x is y or (not isinstance(x, AObj) and same(x, y)) for x, y in zip(k, key)):
          return v
    del self.memos[f]
    try:
      v = self.call_func(f, args, kwargs)
    finally:
      self.memos[f] = memo
    if self.ctx.start == 0 and (objs or not args):
      memo.append((key, v))
    return v

  def gen_body(self, f, fr):
    save = self.mod
    self.mod = f.module
    self.waiting.add((f.module.path, f.node.lineno, f.node.end_lineno))
    r = yield from self.gen_block(f.node.body, fr)
    self.mod = save
    return r[1] if r else None

  def run_body(self, f, fr):
    self.depth += 1
    if self.depth > 120:
      self.depth = 0
      self.throw('RecursionError', 'maximum recursion depth exceeded')
    save = self.mod
    self.mod = f.module
    try:
      if isinstance(f.node, ast.Lambda):
        v = self.ev(f.node.body, fr)
        self.ctx.ret_site = (f.module.path, f.node.lineno)
        return v
      r = self.block(f.node.body, fr)
      if r is not None and r[0] == 'return':
        return r[1]
      self.ctx.ret_site = (f.module.path, f.node.lineno)
      return None
    finally:
      self.mod = save
      self.depth -= 1

  def instantiate(self, cls, args, kwargs):
    site = self.where()
    if cls.host is not None and cls.host is not object:
      return self.M.construct(self, cls, args, kwargs)
    if cls.kind == 'enum':
      return self.M.enum_lookup(self, cls, args[0])
    new, owner = cls.lookup('__new__')
    if new is not None and isinstance(new, (AFunc, StaticM)):
      fn = new.fn if isinstance(new, StaticM) else new
      o = self.call(fn, [cls] + args, kwargs)
      if not isinstance(o, AObj) or cls not in o.cls.mro:
        return o
    else:
      o = self.M.alloc(self, cls)
      o.site = site
    init, owner = cls.lookup('__init__')
    if init is not None:
      save = self.mod
      self.call(Bound(init, o), args, kwargs)
      self.mod = save
    elif args or kwargs:
      if cls.lookup('__new__')[0] is None:
        r = self.M.default_init(self, o, args, kwargs)
        if r is not None:
          return r
    return o


_MISSING = object()
GENERATOR = type((lambda: (yield))())
UNBOUND = type('Unbound', (), {'__repr__': lambda s: '<unbound>'})()
MERGED = (ast.If, ast.Match, ast.Try, ast.Assign, ast.AugAssign, ast.Expr)
BRANCHY = (ast.Call, ast.Compare, ast.BoolOp, ast.IfExp, ast.Subscript, ast.ListComp, ast.SetComp, ast.DictComp, ast.BinOp,
           ast.UnaryOp, ast.JoinedStr)
LEAVES = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom,
          ast.FunctionDef, ast.ClassDef, ast.Delete, ast.GeneratorExp, ast.With)


def mergeable(I, st):
  r = I.mergeable.get(st)
  if r is None:
    r = any(isinstance(x, BRANCHY) and not plain_store(x) for x in ast.walk(st)) and not any(isinstance(x, LEAVES) for x in walk_stmt(st))
    I.mergeable[st] = r
  return r


def plain_store(n):
  """name['constant'] = ...: nothing to decide"""
  return (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant)
          and isinstance(n.value, ast.Name))


def walk_stmt(st):
  """nodes of a statement; break/continue of loops inside it do not count"""
  todo = [(st, False)]
  while todo:
    n, loop = todo.pop()
    if isinstance(n, (ast.Break, ast.Continue)) and loop:
      continue
    yield n
    if isinstance(n, ast.Lambda):
      continue
    inner = loop or isinstance(n, (ast.For, ast.While))
    for c in ast.iter_child_nodes(n):
      todo.append((c, inner))


def merge_values(ds, vals, start):
  v0 = vals[0]
  if all(v is v0 for v in vals[1:]):
    return v0
  if ref_free(v0) and all(ref_free(v) and same(v0, v) for v in vals[1:]):
    return v0
  if not all(v is UNBOUND or merge_safe(v, start) for v in vals):
    raise StmtFail()
  return Union([Alt(d, v) for d, v in zip(ds, vals)])


def merge_maps(ds, maps, start):
  keys = {}
  for m in maps:
    for k in m:
      keys[k] = None
  return {k: merge_values(ds, [m.get(k, UNBOUND) for m in maps], start) for k in keys}


def merge_data(ds, vals, start):
  v0 = vals[0]
  if all(v is v0 for v in vals[1:]):
    return v0
  if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
    return tuple(merge_data(ds, [v[i] for v in vals], start) for i in range(len(v0)))
  if all(isinstance(v, (str, SStr, Union)) for v in vals):
    return merge_values(ds, vals, start)
  if ref_free(v0) and all(ref_free(v) and same(v0, v) for v in vals[1:]):
    return v0
  raise StmtFail()


def merge_states(o, ds, sts, start):
  if isinstance(o, AList):
    n = len(sts[0])
    if any(len(x) != n for x in sts):
      raise StmtFail()
    return [merge_values(ds, [x[i] for x in sts], start) for i in range(n)]
  if isinstance(o, ADict):
    k0 = list(sts[0])
    if any(list(x) != k0 for x in sts):
      raise StmtFail()
    return {k: merge_values(ds, [x[k] for x in sts], start) for k in k0}
  if isinstance(o, ASet):
    k0 = list(sts[0])
    if any(list(x) != k0 for x in sts):
      raise StmtFail()
    return dict(sts[0])
  if isinstance(o, AObj):
    k0 = set(sts[0][0])
    if any(set(x[0]) != k0 for x in sts):
      raise StmtFail()
    return ({k: merge_values(ds, [x[0][k] for x in sts], start) for k in sts[0][0]},
            merge_data(ds, [x[1] for x in sts], start))
  k0 = set(sts[0])
  if any(set(x) != k0 for x in sts):
    raise StmtFail()
  return {k: merge_values(ds, [x[k] for x in sts], start) for k in sts[0]}


OPNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
          ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
          ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul',
          ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}


def _once(v):
  return v
  yield


def run_gen(g):
  """drive a generator that never yields"""
  try:
    while True:
      next(g)
      raise Undecided('yield outside a generator')
  except StopIteration as s:
    return s.value


def const_truth(v):
  if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
    return bool(v)
  if isinstance(v, SStr):
    for e in v.elems:
      if not isinstance(e, Term):
        return True
    raise ValueError
  if isinstance(v, (AFunc, Bound, AClass)):
    return True
  raise ValueError


def is_immutable(v):
  return v is None or isinstance(v, (bool, int, float, str, bytes, SStr, Term, Union, range, slice)) or \
      (isinstance(v, tuple) and all(is_immutable(x) for x in v))


def ref_free(v):
  if v is None or isinstance(v, (bool, int, float, str, bytes, SStr, range)):
    return True
  if isinstance(v, Term):
    return True
  if isinstance(v, tuple):
    return all(ref_free(x) for x in v)
  if isinstance(v, Union):
    return all(ref_free(a.value) for a in v.alts)
  return False


def ref_free_event(e):
  if e[0] == 'cond':
    return all(ref_free_event(x) for _, ev in e[1] for x in ev)
  return all(ref_free(x) or isinstance(x, str) for x in e)


def merge_safe(v, start):
  if ref_free(v):
    return True
  if isinstance(v, tuple):
    return all(merge_safe(x, start) for x in v)
  if isinstance(v, Union):
    return all(merge_safe(a.value, start) for a in v.alts)
  if isinstance(v, Bound):
    return merge_safe(v.func, start) and merge_safe(v.self, start)
  if isinstance(v, (AIter,)):
    return False
  b = getattr(v, 'birth', None)
  if b is None:
    return isinstance(v, (Builtin, External, slice, Prop, StaticM, ClassM)) or v is NotImpl or v is Ellipsis
  return b < start


def negate(delta):
  box, clauses, preds = delta
  if len(preds) == 1 and not box and not clauses:
    k, v = preds[0]
    if k.fn == 'delta' and not v:
      return k.args[0]
    return ((), (), ((k, not v),))
  if not preds and len(clauses) == 1 and not box:
    return (tuple((c, C.FULL & ~m) for c, m in clauses[0]), (), ())
  if preds or clauses:
    return ((), (), ((Term('bool', 'delta', (delta,)), False),))
  if len(box) == 1:
    c, m = box[0]
    return (((c, C.FULL & ~m),), (), ())
  return ((), (tuple((c, C.FULL & ~m) for c, m in box),), ())


def join_deltas(ds):
  box, clauses, preds = [], [], []
  for b, c, p in ds:
    box.extend(b)
    clauses.extend(c)
    preds.extend(p)
  return (tuple(box), tuple(clauses), tuple(preds))


def describe(obj):
  if isinstance(obj, Module):
    return 'module ' + obj.name
  if isinstance(obj, AObj):
    return 'object of class ' + obj.cls.name
  if isinstance(obj, AClass):
    return 'class ' + obj.name
  return type(obj).__name__.lower().lstrip('a') + ' created earlier'


def snapshot(obj):
  if isinstance(obj, AList):
    return list(obj)
  if isinstance(obj, ADict):
    return dict(obj.d)
  if isinstance(obj, ASet):
    return dict(obj.items)
  if isinstance(obj, AObj):
    return (dict(obj.attrs), obj.data)
  if isinstance(obj, (Module, Frame)):
    return dict(obj.vars)
  if isinstance(obj, (AClass, AFunc)):
    return dict(obj.attrs)
  return None


def restore(obj, snap):
  if isinstance(obj, AList):
    list.clear(obj)
    list.extend(obj, snap)
  elif isinstance(obj, ADict):
    obj.d.clear()
    obj.d.update(snap)
  elif isinstance(obj, ASet):
    obj.items.clear()
    obj.items.update(snap)
  elif isinstance(obj, AObj):
    obj.attrs.clear()
    obj.attrs.update(snap[0])
    obj.data = snap[1]
  elif isinstance(obj, (Module, Frame)):
    obj.vars.clear()
    obj.vars.update(snap)
  elif isinstance(obj, (AClass, AFunc)):
    obj.attrs.clear()
    obj.attrs.update(snap)
