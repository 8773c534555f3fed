"""Lines of any other length than 132 are never records; padding never matters."""
from .records import *


class Lengths(Analysis):

  def task(self, n, lead, trail):
    I = self.I
    text, el, R = make_line(n, lead, trail)
    self.el = el

    def thunk():
      o = I.call(self.Record, [], {})
      return self.truthy(self.method(o, 'read', text))

    def leaf(l):
      self.stats.leaves += 1
      if l.kind == 'undecided':
        self.stats.undecided += 1
        return
      if l.kind == 'ok' and not l.value:
        self.stats.rejected += 1
        return
      cs = set(cols_of(text))
      a = self.full(l.region, {}, cs)
      if a is None:
        self.stats.unconfirmed += 1
        return
      line = str(S.render(text, a)) if not isinstance(text, str) else text
      f, _ = self.Record.lookup('read')
      site = '%s:%d' % (f.module.path, f.node.lineno) if getattr(f, 'node', None) is not None else None
      if l.kind == 'exc':
        nm = getattr(getattr(l.value, 'cls', None), 'name', '?')
        self.report({'C12', 'C02'}, 'raises', l.site or site, 'read() raises %s on a line of %d columns' % (nm, n), line, key=('length-raises', nm))
      else:
        self.report({'C02'}, 'accepts', site, 'a line of %d columns is accepted' % n, line, key=('length', n > 132))
    self.rule('a line of another length is refused')
    I.explore(R, thunk, leaf)


class Padded(Records):
  """the same comparison with white space around the line"""

  def __init__(self, share=None):
    Records.__init__(self, ('json',), 0, 0, share)
    self.variants = {}
    for a, b in ((0, 1), (1, 0), (2, 2), (0, 3)):
      text, el, R = make_line(N, a, b)
      self.variants[a, b] = text, el, R, [c for c in text.elems if c not in set(el)]

  def task(self, lead, trail, group):
    self.line, self.el, self.base, self.pad = self.variants[lead, trail]
    for name, box in shards():
      if name in group:
        self.run(name, box)
