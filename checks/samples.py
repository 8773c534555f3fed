"""Concrete example lines of the reference's layouts (start states of histories,
witness candidates)."""
import random

from spec import layouts as SPEC
from spec import record as SPECREC
from spec.record import classify

ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def base(ident, rng, fill=' '):
  """132 columns with the section code in place"""
  t = [fill] * 132
  t[0] = 'S'
  t[1:4] = 'USA'
  t[4] = ident[0]
  if ident in ('AS', 'D ', 'DB', 'EA', 'EM', 'EP', 'ER', 'ET', 'EU', 'EV', 'PN', 'R ', 'RA', 'TC', 'TG', 'UC', 'UF', 'UR'):
    t[5] = ident[1]
  else:
    t[5] = ' '
    t[12] = ident[1]
  t[123:132] = '%05d%04d' % (rng.randrange(100000), rng.randrange(10000))
  return t


def layout_line(ident, sel, rng, fill=None):
  """a line the reference classifies as (ident, sel)"""
  for _ in range(200):
    t = base(ident, rng)
    if fill is None:
      for i in range(6, 123):
        if i != 12 and rng.random() < 0.6:
          t[i] = rng.choice(ALNUM)
    if t[5] == ' ' and ident[1] != ' ':
      t[12] = ident[1]
    if ident in SPEC.CONTINUATION:
      cont, app = SPEC.CONTINUATION[ident]
      t[cont - 1] = rng.choice('01') if sel.startswith('primary') else rng.choice('23456789ABZ')
      k = sel.split(' ', 1)[1] if ' ' in sel and sel.split(' ')[0] in ('primary', 'cont') else ('' if sel == 'primary' else sel)
      if k:
        t[app[0] - 1:app[-1]] = k.ljust(len(app))
    line = ''.join(t)
    c = classify(line)
    if len(c) == 3 and c[0] == ident and c[2] == sel:
      return line
  return None


def all_lines(seed=1, per=1):
  rng = random.Random(seed)
  out = []
  for ident, sel in sorted(SPEC.LAYOUTS):
    for _ in range(per):
      l = layout_line(ident, sel, rng)
      if l:
        out.append(l)
    l = valid_line(ident, sel, rng)
    if l:
      out.append(l)
  return out


def refused(seed=1):
  """lines that are no records, one per reason"""
  rng = random.Random(seed)
  good = layout_line('PA', 'primary', rng)
  sec = list(good)
  sec[4:6], sec[12] = 'ZZ', 'Z'
  num = list(good)
  num[SPEC.CONTINUATION['PA'][0] - 1] = '-'
  app = list(good)
  app[SPEC.CONTINUATION['PA'][0] - 1] = '2'
  for c in SPEC.CONTINUATION['PA'][1]:
    app[c - 1] = '#'
  blank = list(good)
  blank[4:6], blank[12] = '  ', ' '
  return {'form': 'X' + good[1:], 'length': good[:100], 'empty': '', 'section': ''.join(sec), 'number': ''.join(num),
          'application': ''.join(app), 'blank section': ''.join(blank), 'trailer': good[:123] + 'ABCDEFGHI'}


CANDIDATES = ('A', '0', '1', 'Y', 'N', 'R', 'L', 'S', 'G', 'T', 'C', 'V', 'B', 'W', 'U')


def refusing(ident, sel):
  """rows of a layout with values the field refuses"""
  from spec.meaning import meaning
  out = []
  for nm, idx, kind in SPEC.LAYOUTS[ident, sel]:
    f = meaning(kind)
    if any(f(c * len(idx), ident)[0] == 'refuse' for c in '#A0 -'):
      out.append((nm, idx, kind))
  return out


def valid_line(ident, sel, rng):
  """a line of the layout without a refused value; None when none was found"""
  from spec.meaning import meaning
  line = layout_line(ident, sel, rng, fill=' ')
  if line is None:
    return None
  t = list(line)
  for nm, idx, kind in SPEC.LAYOUTS[ident, sel]:
    f = meaning(kind)
    if f(''.join(t[i] for i in idx), ident)[0] != 'refuse':
      continue
    n = len(idx)
    for c in [x * n for x in CANDIDATES] + [x + '0' * (n - 1) for x in CANDIDATES] + [' ' * (n - 1) + x for x in CANDIDATES]:
      if f(c, ident)[0] == 'refuse':
        continue
      u = list(t)
      for i, ch in zip(idx, c):
        u[i] = ch
      k = classify(''.join(u))
      if len(k) == 3 and k[0] == ident and k[2] == sel:
        t = u
        break
    else:
      return None
  return ''.join(t)
