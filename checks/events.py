"""Effects on the world on the paths of reading, showing and parsing a line."""
from .effects import acts
from .observe import *


class Events(Observe):

  def thunk(self):
    I = self.I
    o = self.stage('new', lambda: I.call(self.Record, [], {}))
    r = self.stage('read', lambda: self.truthy(self.method(o, 'read', self.line)))
    if r:
      self.stage('json', lambda: self.method(o, 'json', False))
      self.stage('decode', lambda: self.method(o, 'decode', False))
    self.at = 'done'
    return r

  def leaf(self, l):
    self.stats.leaves += 1
    if l.kind == 'undecided':
      self.stats.undecided += 1
    if l.kind == 'ok' and l.value:
      self.stats.accepted += 1
    self.rule('paths without effects on the world')
    for e in self.flat(l.events):
      if e[0] == 'external' and not acts(e[1]):
        continue
      if e[0] in ('open', 'write', 'external', 'listdir', 'stat'):
        line = self.confirm(l.region)
        if line is not None:
          self.report({'C21'}, 'effects', e[-1], 'handling one line causes: %s %s' % (e[0], e[1]), line, key=('line', e[0], e[-1]))

  def flat(self, events):
    for e in events:
      if e[0] == 'cond':
        for _, ev in e[1]:
          yield from self.flat(ev)
      else:
        yield e
