"""What each layout says about itself: labels, columns, header and trailer."""
from .records import *

CONT_LABELS = ('Continuation Record No', 'Continuation Record Number', 'Continuation No')


class Layout(Records):
  """field columns as the package reads them, judged by the rules every layout obeys"""

  def __init__(self, share=None):
    Records.__init__(self, ('json',), 0, 0, share)

  def compare_json(self, v, rows, region, where, L, ident, sel, sites):
    Records.compare_json(self, v, rows, region, where, L, ident, sel, sites)
    t = single_term(v, 'json')
    if t is None or not (isinstance(t.args[0], tuple) and t.args[0][0] == 'dict'):
      return
    items = [(self.names_of([k])[0], S.norm(self.I, x)) for k, x in t.args[0][1]]
    fields = self.fields_of(self.current)
    if fields is not None:
      names = self.names_of([n for n, _ in fields])
      self.rule('labels are unique', len(names))
      twice = sorted({n for n in names if names.count(n) > 1})
      for n in twice:
        self.bad(region, where, 'two fields are labelled %r' % n, sites.get(n), ('twice', ident, sel, n))
    own = {}
    last = -1
    pos = {}
    for n, val in items:
      idx = self.columns(val, region)
      if idx is None:
        continue
      pos[n] = idx
      self.rule('columns in range, in order, not shared')
      if not idx:
        self.bad(region, where, 'field %r covers no column' % n, sites.get(n), ('empty', ident, sel, n))
        continue
      if idx[0] < last:
        self.bad(region, where, 'field %r (columns %s) is listed after a field further right' % (n, show_cols(idx)), sites.get(n),
                 ('order', ident, sel, n))
      last = idx[0]
      hit = sorted({own[i] for i in idx if i in own})
      for h in hit:
        self.bad(region, where, 'fields %r and %r share columns %s' % (h, n, show_cols([i for i in idx if own.get(i) == h])), sites.get(n),
                 ('overlap', ident, sel, h, n))
      for i in idx:
        own.setdefault(i, n)
    names = [n for n, _ in items]
    self.rule('header and trailer')
    site = next(iter(sites.values()), None)
    for n, want in (('Record Type', (0,)), ('File Record No', tuple(range(123, 128))), ('Cycle Date', tuple(range(128, 132)))):
      if n in pos and pos[n] != want:
        self.bad(region, where, '%r is taken from columns %s' % (n, show_cols(pos[n])), sites.get(n), ('trailer', ident, sel, n))
      if n not in names:
        self.bad(region, where, '%r is missing' % n, site, ('trailer', ident, sel, n))
    if ident in SPEC.CONTINUATION:
      cont, app = SPEC.CONTINUATION[ident]
      self.rule('number and application type shown are those acted on')
      for n in names:
        if n in CONT_LABELS and n in pos and pos[n] != (cont - 1,):
          self.bad(region, where, 'the continuation number shown is column %s, the one acted on column %d' % (show_cols(pos[n]), cont),
                   sites.get(n), ('shown', ident, sel, n))
        if n in ('Application Type', 'Application Notes') and ident != 'EU' and n in pos and pos[n] != tuple(c - 1 for c in app):
          self.bad(region, where, 'the application type shown is column %s, the one acted on column %s' % (
              show_cols(pos[n]), show_cols([c - 1 for c in app])), sites.get(n), ('shown', ident, sel, n))

  def compare_record(self, got, ident, number, sel, is_primary, region):
    self.current = got['o']
    Records.compare_record(self, got, ident, number, sel, is_primary, region)

  def fields_of(self, o):
    fs = o.attrs.get('fields') if isinstance(o, AObj) else None
    if isinstance(fs, (list, tuple)) and all(isinstance(f, AObj) and 'name' in f.attrs for f in fs):
      return [(f.attrs['name'], f.attrs.get('value')) for f in fs]
    return None

  def columns(self, v, region):
    """column indices of a field value; None when it is not plain columns"""
    out = []
    byc = {c: i for i, c in enumerate(self.el)}
    for e in (v.elems if isinstance(v, SStr) else v if isinstance(v, str) else ()):
      if isinstance(e, Col) and e in byc:
        out.append(byc[e])
      else:
        return None            # fixed by the region to one character: nothing to say
    return tuple(out)

  def bad(self, region, where, msg, site, key):
    line = self.confirm(region)
    if line is not None:
      self.report({'C07'}, 'layout', site, '%s: %s' % (where, msg), line, key=key)
