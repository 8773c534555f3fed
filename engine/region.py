"""Regions: the abstract domain for the columns of input lines.

A region is a set of inputs, described by
  box      column -> set of characters the column may hold,
  clauses  disjunctions of (column, set) literals (what is left of a negated
           multi-column test),
  preds    truth values of opaque tests (key -> bool).
All operations are exact set operations on that description.
"""
from . import chars as C


class Region:
  __slots__ = ('box', 'clauses', 'preds')

  def __init__(self, box=None, clauses=(), preds=None):
    self.box = box if box is not None else {}
    self.clauses = tuple(clauses)
    self.preds = preds if preds is not None else {}

  def copy(self):
    return Region(dict(self.box), self.clauses, dict(self.preds))

  def mask(self, col):
    return self.box.get(col, C.FULL)

  # in-place; False when the region becomes empty
  def restrict(self, col, m):
    old = self.box.get(col, C.FULL)
    new = old & m
    if new == old:
      return True
    if not new:
      return False
    self.box[col] = new
    if self.clauses:
      return self._propagate()
    return True

  def add_clause(self, lits):
    self.clauses = self.clauses + (tuple(lits),)
    return self._propagate()

  def _propagate(self):
    box = self.box
    FULL = C.FULL
    while True:
      out = []
      unit = None
      changed = False
      for cl in self.clauses:
        live = []
        sat = False
        for lit in cl:
          b = box.get(lit[0], FULL)
          x = b & lit[1]
          if x == b:
            sat = True
            break
          if x:
            live.append(lit)
        if sat:
          changed = True
          continue
        if not live:
          return False
        if len(live) == 1:
          col, m = live[0]
          box[col] = box.get(col, FULL) & m
          unit = True
          changed = True
          continue
        if len(live) != len(cl):
          changed = True
          out.append(tuple(live))
        else:
          out.append(cl)
      if changed:
        self.clauses = tuple(out)
      if not unit:
        return True

  def assume(self, delta):
    """the part of this region inside delta, or None when empty"""
    box, clauses, preds = delta
    for k, v in preds:
      if self.preds.get(k, v) != v:
        return None
    for col, m in box:
      if not self.box.get(col, C.FULL) & m:
        return None
    r = self.copy()
    for k, v in preds:
      r.preds[k] = v
    rb = r.box
    FULL = C.FULL
    changed = set()
    for col, m in box:
      old = rb.get(col, FULL)
      new = old & m
      if new != old:
        if not new:
          return None
        rb[col] = new
        changed.add(col)
    if clauses:
      have = set(r.clauses)
      new = tuple(c for c in clauses if c not in have)
      if new:
        r.clauses = r.clauses + new
        for cl in new:
          for c, _ in cl:
            changed.add(c)
    if changed and r.clauses and not r._settle(changed):
      return None
    for k, v in r.preds.items():
      if not v and k.fn == 'delta' and r.implies(k.args[0]):
        return None
    return r

  def _settle(self, changed):
    """propagate after changes to some columns and make sure the clauses around
    them can still hold (the others were satisfiable before)"""
    box = self.box
    FULL = C.FULL
    seen = set(changed)
    out = None
    while changed:
      nxt = set()
      out = []
      for cl in self.clauses:
        for lit in cl:
          if lit[0] in changed:
            break
        else:
          out.append(cl)
          continue
        live = []
        sat = False
        for lit in cl:
          b = box.get(lit[0], FULL)
          x = b & lit[1]
          if x == b:
            sat = True
            break
          if x:
            live.append(lit)
        if sat:
          continue
        if not live:
          return False
        if len(live) == 1:
          col, m = live[0]
          box[col] = box.get(col, FULL) & m
          nxt.add(col)
          continue
        out.append(cl if len(live) == len(cl) else tuple(live))
      self.clauses = tuple(out)
      seen |= nxt
      changed = nxt
    # the component around the changed columns
    rest = list(self.clauses)
    comp = []
    grew = True
    while grew and rest:
      grew = False
      keep = []
      for cl in rest:
        if any(c in seen for c, _ in cl):
          comp.append(cl)
          seen.update(c for c, _ in cl)
          grew = True
        else:
          keep.append(cl)
      rest = keep
    if len(comp) > 1 and Region(dict(self.box), comp, {}).model_box() is None:
      return False
    return True

  def implies(self, delta):
    """does every input of this region satisfy delta (False when unsure)"""
    box, clauses, preds = delta
    for c, m in box:
      if self.box.get(c, C.FULL) & ~m:
        return False
    for k, v in preds:
      if self.preds.get(k) is not v:
        return False
    if clauses:
      have = set(self.clauses)
      for cl in clauses:
        if cl in have:
          continue
        if not any(not self.box.get(c, C.FULL) & ~m for c, m in cl):
          return False
    return True

  def model_box(self):
    """a box inside the region in which every clause holds, or None"""
    if not self.clauses:
      return self.box
    first = self.clauses[0]
    for col, m in first:
      r = Region(dict(self.box), self.clauses, {})
      if r.restrict(col, m):
        b = r.model_box()
        if b is not None:
          return b
    return None

  def delta_from(self, base):
    """delta that takes base to this region"""
    box = tuple((c, m) for c, m in self.box.items() if base.box.get(c, C.FULL) != m)
    have = set(base.clauses)
    clauses = tuple(c for c in self.clauses if c not in have)
    preds = tuple((k, v) for k, v in self.preds.items() if base.preds.get(k) != v)
    return (box, clauses, preds)

  def example(self, col_ids, prefer=None):
    b = self.model_box()
    if b is None:
      b = self.box
    return ''.join(C.example(b.get(c, C.FULL), (prefer or {}).get(c, 'A1 0S')) for c in col_ids)

  def show(self, line=None):
    parts = []
    for c, m in sorted(self.box.items()):
      if m != C.FULL:
        parts.append('%r %s' % (c, C.show(m)))
    return ', '.join(parts)


EMPTY_DELTA = ((), (), ())


def delta_box(items):
  return (tuple(items), (), ())


def delta_clause(lits):
  return ((), (tuple(lits),), ())


def delta_pred(key, val):
  return ((), (), ((key, val),))
